------------------------------- MODULE Sampler -------------------------------
(* Where randomness comes from.  A world holds several generators (number 1  *)
(* is the shared default one), each in some state.  A draw by an object that *)
(* was given a generator looks at that generator only: the value and the     *)
(* generator's next state are a function of the law and of the generator's   *)
(* state, and no other generator moves.  A constant law moves none.          *)
EXTENDS Integers, Sequences, FiniteSets

(* facts: set of [law, st, val, st2] established so far *)
Known(facts, law, st) == {f \in facts : f.law = law /\ f.st = st}
Agrees(facts, law, st, val, st2) == \A f \in Known(facts, law, st) : f.val = val /\ f.st2 = st2
Moves(const, st, st2) == IF const THEN st2 = st ELSE st2 # st
Others(gs, after, g) == \A h \in DOMAIN gs : h # g => after[h] = gs[h]
Learn(facts, law, st, val, st2) == facts \cup {[law |-> law, st |-> st, val |-> val, st2 |-> st2]}
=============================================================================
