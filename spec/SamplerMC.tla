------------------------------ MODULE SamplerMC ------------------------------
(* All short histories of draws over a few generators that start in the same *)
(* state: whatever the unknown sampling functions are, generators that have  *)
(* been used for the same laws in the same order have produced the same      *)
(* values, in whatever order the draws of different generators interleave.   *)
EXTENDS Sampler
CONSTANTS Gens, Laws, Consts, Vals, Len0
VARIABLES gs, facts, log, nxt
vars == <<gs, facts, log, nxt>>
Init == gs = [g \in Gens |-> 0] /\ facts = {} /\ log = [g \in Gens |-> <<>>] /\ nxt = 1
Draw(g, law) ==
    /\ Len(log[g]) < Len0
    /\ \E val \in Vals : \E st2 \in {gs[g], nxt} \cup {f.st2 : f \in facts} :
        /\ Agrees(facts, law, gs[g], val, st2)
        /\ Moves(law \in Consts, gs[g], st2)
        /\ gs' = [gs EXCEPT ![g] = st2]
        /\ Others(gs, gs', g)
        /\ facts' = Learn(facts, law, gs[g], val, st2)
        /\ log' = [log EXCEPT ![g] = Append(@, <<law, val>>)]
        /\ nxt' = IF st2 = nxt THEN nxt + 1 ELSE nxt
Next == \E g \in Gens, law \in Laws : Draw(g, law)
Spec == Init /\ [][Next]_vars
LawsOf(s) == [i \in DOMAIN s |-> s[i][1]]
Reproducible == \A g, h \in Gens : LawsOf(log[g]) = LawsOf(log[h]) => log[g] = log[h] /\ gs[g] = gs[h]
Functional == \A e, f \in facts : (e.law = f.law /\ e.st = f.st) => e = f
Silent == \A f \in facts : f.law \in Consts => f.st = f.st2
Invariant == Reproducible /\ Functional /\ Silent
=============================================================================
