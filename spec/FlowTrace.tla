------------------------------ MODULE FlowTrace -------------------------------
(* Conformance: each case is a fold of n flows; every stage names the two    *)
(* flows it drew from, their interval sequences, the number of epochs and    *)
(* the power sums the implementation reported.                              *)
EXTENDS Flow, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, stage, m, pool, bad
vars == <<tr, stage, m, pool, bad>>
St(t) == Cases[t].stages
Cur == St(tr)[stage]
Start(t, k) == MergeInit(St(t)[k].s1, St(t)[k].s2, St(t)[k].K)
Init == /\ tr \in DOMAIN Cases /\ stage = 1 /\ pool = 1..Cases[tr].n /\ bad = {}
        /\ m = IF St(tr) = <<>> THEN MergeInit(<<>>, <<>>, 1) ELSE Start(tr, 1)
Choose(S) == CHOOSE x \in S : TRUE     \* tie orders give the same intervals
Next ==
    /\ stage <= Len(St(tr))
    /\ IF m.cnt < Cur.N
       THEN m' = Choose(MergeSucc(m, Cur.s1, Cur.s2, Cur.K)) /\ UNCHANGED <<stage, pool, bad>>
       ELSE /\ bad' = bad \cup (IF m.sum # Cur.sums THEN {<<"moments", stage>>} ELSE {})
                          \cup (IF ~FoldOK(pool, Cur.a, Cur.b, Cases[tr].n + stage) THEN {<<"fold", stage>>} ELSE {})
                          \cup (IF ~MergeInv(m, Cur.s1, Cur.s2) THEN {<<"INV", stage>>} ELSE {})
            /\ pool' = FoldSucc(pool, Cur.a, Cur.b, Cases[tr].n + stage)
            /\ stage' = stage + 1
            /\ m' = IF stage + 1 <= Len(St(tr)) THEN Start(tr, stage + 1) ELSE m
    /\ UNCHANGED tr
Final == bad \cup (IF Cases[tr].err # "" THEN {<<"crash", stage>>} ELSE {})
             \cup (IF Cases[tr].err = "" /\ Cardinality(pool) # 1 THEN {<<"fold", stage>>} ELSE {})
             \cup (IF Cases[tr].err = "" /\ Cases[tr].resultok # 1 THEN {<<"result", stage>>} ELSE {})
Done == stage > Len(St(tr)) => PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> stage - 1, bad |-> Final]))
Spec == Init /\ [][Next]_vars
=============================================================================
