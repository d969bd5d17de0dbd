--------------------------------- MODULE FJMC ---------------------------------
(* Exhaustive exploration of FJ within a bound.                             *)
EXTENDS FJ, TLC, Json
CONSTANTS Cfgs, V, A, Emit
VARIABLES c, s, h
vars == <<c, s, h>>
Cap == A + 1
SvcSpace(cc) == [1..cc.n -> V]
DelSpace(cc) == IF cc.kind \in {"fj", "sj"} THEN {<<>>}
                ELSE {[i \in 1..(cc.k - 1) |-> i * x] : x \in V}
DrawSpace(cc) == [arr : {<<x>> : x \in V}, svc : SvcSpace(cc), del : DelSpace(cc)]
Init == /\ c \in Cfgs
        /\ \E x \in V : /\ s = InitState(c, Cap, x)
                        /\ h = [arr |-> <<x>>, svc |-> <<>>, del |-> <<>>]
Next == /\ s.arrived < A
        /\ \E d \in DrawSpace(c) : \E t \in Succ(c, s, d) :
              /\ \A i \in 1..c.n : i > t.used => d.svc[i] = SetMin(V)   \* unused samples: one representative
              /\ t.ev # "arrival" => d.arr[1] = SetMin(V) /\ (IF d.del = <<>> THEN TRUE ELSE d.del[1] = SetMin(V))
              /\ s' = t /\ UNCHANGED c
              /\ h' = [arr |-> IF t.ev = "arrival" THEN h.arr \o d.arr ELSE h.arr,
                       svc |-> h.svc \o SubSeq(d.svc, 1, t.used),
                       del |-> IF t.ev = "arrival" THEN Append(h.del, d.del) ELSE h.del]
Spec == Init /\ [][Next]_vars
Invariant == Inv(c, s)
EmitOK == (Emit /\ s.arrived >= A) => PrintT("EMIT " \o ToJson([cfg |-> c, h |-> h]))
StepOK == [][StepContract(c, s, s', 0)]_vars
=============================================================================
