-------------------------------- MODULE Report --------------------------------
(* Comparison tables (general_utils/tables.py).  A case c has                *)
(*   kind  "times" (moments), "probs" (state probabilities), "classes"       *)
(*   calc, sim  the calculated and the simulated values (sequences; for      *)
(*              "classes" one sequence per class), size  the row limit       *)
(*   w      waiting (1) or sojourn (0) moments                               *)
(* A table is printed row by row: row = <<label, calculated, simulated>>     *)
(* ("classes": <<class, calculated of all moments, simulated of all>>).      *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
NRows(c) == CASE c.kind = "times" -> Min(Len(c.sim), Len(c.calc))
              [] c.kind = "probs" -> Min(c.size, Min(Len(c.sim), Len(c.calc)))
              [] OTHER -> Len(c.sim)
Row(c, i) == <<IF c.kind = "probs" THEN i - 1 ELSE i, c.calc[i], c.sim[i]>>
Word(c) == IF c.kind = "probs" THEN "probs" ELSE IF c.w = 1 THEN "waiting" ELSE "sojourn"
\* printing: out is what has been printed so far
Begin(c) == [title |-> Word(c), out |-> <<>>]
Print(c, p) == [p EXCEPT !.out = Append(@, Row(c, Len(@) + 1))]
More(c, p) == Len(p.out) < NRows(c)
\* every printed row is about the same index in both columns, in order, nothing skipped
InOrder(c, p) == \A i \in DOMAIN p.out : p.out[i][2] = c.calc[i] /\ p.out[i][3] = c.sim[i]
                                         /\ p.out[i][1] = p.out[1][1] + i - 1
Within(c, p) == Len(p.out) <= Len(c.calc) /\ Len(p.out) <= Len(c.sim) /\ (c.kind = "probs" => Len(p.out) <= c.size)
Complete(c, p) == ~More(c, p) => \/ Len(p.out) \in {Len(c.calc), Len(c.sim)}
                                 \/ c.kind = "probs" /\ Len(p.out) = c.size
=============================================================================
