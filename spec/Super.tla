-------------------------------- MODULE Super --------------------------------
(* Superposition of renewal flows.  Every flow runs through the stages of    *)
(* its interval; when an interval ends an event of the merged flow happens   *)
(* and that flow, alone, begins its next interval.  Factor "1" marks flows'  *)
(* beginnings in the initial state.  TLC enumerates the joint stages.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.CFGS)
VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]
N(c) == Len(c.flows)

RECURSIVE Starts(_, _)
Starts(c, i) == IF i > N(c) THEN {<<>>}
                ELSE { <<c.flows[i].init[q][1]>> \o rest : q \in DOMAIN c.flows[i].init, rest \in Starts(c, i + 1) }
Trans(c, t) ==
    UNION { UNION { LET o == c.flows[i].out[t.x[i]][j] IN
        IF o[1] # 0 THEN {[t |-> [x |-> [t.x EXCEPT ![i] = o[1]]], m |-> 1, f |-> o[2], ev |-> <<0, i, t.x[i], j, 0>>]}
        ELSE { [t |-> [x |-> [t.x EXCEPT ![i] = c.flows[i].init[q][1]]], m |-> 1, f |-> o[2] \o c.flows[i].init[q][2],
                ev |-> <<1, i, t.x[i], j, q>>] : q \in DOMAIN c.flows[i].init }
        : j \in DOMAIN c.flows[i].out[t.x[i]] } : i \in 1..N(c) }
Init == ci \in DOMAIN Cfgs /\ \E x \in Starts(C, 1) : s = [x |-> x]
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == /\ Len(s.x) = N(C) /\ \A i \in 1..N(C) : s.x[i] \in 1..Len(C.flows[i].out)
(* a transition belongs to one flow; the others go on undisturbed *)
OneFlow == \A e \in Trans(C, s) : \A i \in 1..N(C) : i # e.ev[2] => e.t.x[i] = s.x[i]
(* every flow can always go on, and an event restarts its own flow *)
Alive == \A i \in 1..N(C) : \E e \in Trans(C, s) : e.ev[2] = i
Restart == \A e \in Trans(C, s) : e.ev[1] = 1 =>
              \E q \in DOMAIN C.flows[e.ev[2]].init : C.flows[e.ev[2]].init[q][1] = e.t.x[e.ev[2]]
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> s, out |-> Trans(C, s)]))
=============================================================================
