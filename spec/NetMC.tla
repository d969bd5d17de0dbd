-------------------------------- MODULE NetMC --------------------------------
(* Exhaustive exploration of Net within a bound.                            *)
EXTENDS Net, TLC, Json
CONSTANTS Cfgs, V, A, Emit
VARIABLES c, s, h
vars == <<c, s, h>>
Cap == A + 1

DrawSpace(cc) ==
    LET one == {<<x>> : x \in V}
        two == {<<x, y>> : x \in V, y \in V}
        no  == {<<>>}
    IN  [arr : {[r \in 1..cc.K |-> q] : q \in one},
         svc : IF cc.M = 1 THEN {<<f>> : f \in [1..cc.K -> one]}
               ELSE {[m \in 1..cc.M |-> [r \in 1..cc.K |-> q]] : q \in two},
         warm : {[r \in 1..cc.K |-> q] : q \in IF cc.warm THEN one ELSE no}]

Rec(hh, d, u) ==
    [arr |-> [r \in DOMAIN hh.arr |-> hh.arr[r] \o SubSeq(d.arr[r], 1, u.arr[r])],
     warm |-> [r \in DOMAIN hh.warm |-> hh.warm[r] \o SubSeq(d.warm[r], 1, u.warm[r])],
     svc |-> [m \in DOMAIN hh.svc |-> [r \in DOMAIN hh.svc[m] |->
                  hh.svc[m][r] \o SubSeq(d.svc[m][r], 1, u.svc[m][r])]]]

Init == /\ c \in Cfgs
        /\ \E f \in [1..c.K -> V] :
              /\ s = InitState(c, Cap, f)
              /\ h = [arr |-> [r \in 1..c.K |-> <<f[r]>>], warm |-> [r \in 1..c.K |-> <<>>],
                      svc |-> [m \in 1..c.M |-> [r \in 1..c.K |-> <<>>]]]
Total == SumFun(s.arrived)
Next == /\ Total < A
        /\ \E d \in DrawSpace(c) : \E t \in Succ(c, s, d) :
              /\ s' = t /\ h' = Rec(h, d, t.use) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Invariant == Inv(c, s)
EmitOK == (Emit /\ Total >= A) => PrintT("EMIT " \o ToJson([cfg |-> c, h |-> h]))
StepOK == [][StepContract(c, s, s', 0)]_vars
=============================================================================
