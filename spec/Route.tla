-------------------------------- MODULE Route --------------------------------
(* The way of one job through an open network.  A configuration lists, for  *)
(* the outside (row 0) and every node i = 1..n, the nodes reachable next     *)
(* (n + 1 is the exit) with the name of the probability of that step, and    *)
(* for every node the phase-type law of a visit (init, out as in Markov).    *)
(* State: node 0 (before entry), node i with the stage of the visit, or Out. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.CFGS)
VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]

Out == [i |-> 0 - 1, x |-> 0]
In == [i |-> 0, x |-> 0]
N(c) == Len(c.nodes)

\* enter node i, or the exit, with weight factors f
Enter(c, i, f) == IF i = N(c) + 1 THEN {[t |-> Out, f |-> f]}
                  ELSE { [t |-> [i |-> i, x |-> c.nodes[i].init[q][1]], f |-> f \o c.nodes[i].init[q][2]] : q \in DOMAIN c.nodes[i].init }
Onward(c, i, f, ev) == UNION { { [t |-> w.t, m |-> 1, f |-> w.f, ev |-> <<ev, i, r[1], q>>] : w \in Enter(c, r[1], f \o <<r[2]>>) }
                               : <<r, q>> \in { <<c.rows[i + 1][j], j>> : j \in DOMAIN c.rows[i + 1] } }
Trans(c, t) ==
    IF t = Out THEN {}
    ELSE IF t = In THEN Onward(c, 0, <<>>, "enter")
    ELSE LET o == c.nodes[t.i].out[t.x]
         IN  UNION { IF o[j][1] # 0 THEN {[t |-> [t EXCEPT !.x = o[j][1]], m |-> 1, f |-> o[j][2], ev |-> <<"stage", t.i, j, 0>>]}
                     ELSE Onward(c, t.i, o[j][2], "go") : j \in DOMAIN o }

Init == ci \in DOMAIN Cfgs /\ s = In
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == s \in {In, Out} \/ (s.i \in 1..N(C) /\ s.x \in 1..Len(C.nodes[s.i].out))
NeverBack == \A e \in Trans(C, s) : e.t # In
Listed == (s.i > 0) => \A e \in Trans(C, s) : e.ev[1] = "go" => \E j \in DOMAIN C.rows[s.i + 1] : C.rows[s.i + 1][j][1] = e.ev[3]
Alive == s # Out => Trans(C, s) # {}
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> s, out |-> Trans(C, s)]))
=============================================================================
