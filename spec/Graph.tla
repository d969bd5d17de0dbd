--------------------------------- MODULE Graph --------------------------------
(* The drawing of a network (theory/network_viewer.py).  A routing matrix m  *)
(* has a row for the source (row 1) and for every node, a column for every   *)
(* node and for the drain (last column); entries are values, Zero is absent. *)
(* Place 0 is the source, 1..N the nodes, N+1 the drain.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Zero
Rows(m) == DOMAIN m
Places(m) == 0..Len(m)
Edge(m, i, j) == <<i - 1, j, m[i][j]>>
\* the cells of the matrix are visited one after the other
Begin(m) == [at |-> 1, edges |-> {}]
More(m, g) == g.at <= Len(m) * Len(m[1])
Cell(m, k) == <<((k - 1) \div Len(m[1])) + 1, ((k - 1) % Len(m[1])) + 1>>
Draw(m, g) == LET c == Cell(m, g.at)
              IN  [at |-> g.at + 1, edges |-> IF m[c[1]][c[2]] = Zero THEN g.edges ELSE g.edges \cup {Edge(m, c[1], c[2])}]
Result(m) == {Edge(m, c[1], c[2]) : c \in {d \in Rows(m) \X DOMAIN m[1] : m[d[1]][d[2]] # Zero}}
\* nothing leads to the source or away from the drain; one edge per pair of places; no edge without a probability
Sound(m, g) == /\ \A e \in g.edges : e[2] # 0 /\ e[1] # Len(m) /\ e[3] # Zero
               /\ \A e, f \in g.edges : e[1] = f[1] /\ e[2] = f[2] => e = f
               /\ g.edges \subseteq Result(m)
Finished(m, g) == ~More(m, g) => g.edges = Result(m)
===============================================================================
