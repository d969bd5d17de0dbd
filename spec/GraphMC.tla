-------------------------------- MODULE GraphMC -------------------------------
EXTENDS Graph, TLC
CONSTANTS V, L
VARIABLES m, g
Init == m \in UNION {[1..n -> [1..n -> V]] : n \in 1..L} /\ g = Begin(m)
Next == More(m, g) /\ g' = Draw(m, g) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, g>>
Invariant == Sound(m, g) /\ Finished(m, g)
===============================================================================
