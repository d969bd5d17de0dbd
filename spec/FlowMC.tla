------------------------------- MODULE FlowMC --------------------------------
(* Exhaustive: all pairs of short interval sequences, all tie orders.        *)
EXTENDS Flow, TLC
CONSTANTS V, L, N, K
VARIABLES s1, s2, m
Seqs == [1..L -> V]
Init == s1 \in Seqs /\ s2 \in Seqs /\ m = MergeInit(s1, s2, K)
Next == m.cnt < N /\ m' \in MergeSucc(m, s1, s2, K) /\ UNCHANGED <<s1, s2>>
Spec == Init /\ [][Next]_<<s1, s2, m>>
Invariant == MergeInv(m, s1, s2)
=============================================================================
