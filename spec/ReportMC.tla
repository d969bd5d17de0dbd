------------------------------- MODULE ReportMC -------------------------------
EXTENDS Report, TLC
CONSTANTS V, L
VARIABLES c, p
Seqs(n) == [1..n -> V]
All == UNION {Seqs(n) : n \in 1..L}
Init == /\ c \in [kind : {"times", "probs"}, calc : All, sim : All, size : 1..(L + 1), w : {0, 1}]
        /\ p = Begin(c)
Next == More(c, p) /\ p' = Print(c, p) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, p>>
Invariant == InOrder(c, p) /\ Within(c, p) /\ Complete(c, p)
=============================================================================
