--------------------------------- MODULE Law ---------------------------------
(* Sampling law: over n independent choices the count of a category with    *)
(* probability num/1000 stays within 7 standard deviations of its mean,     *)
(* categories of probability 0 never occur, and every choice falls in one   *)
(* of the categories.  Integer arithmetic within 32 bits:                   *)
(*   |1000 cnt - n num| <= 7000 (sqrt(n p (1-p)) + 1)  (+ n when the stated *)
(* probabilities are themselves rounded to thousandths).                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k

RECURSIVE Sum(_, _)
Sum(q, m) == IF m = 0 THEN 0 ELSE q[m] + Sum(q, m - 1)

\* integer square root bound: least r with r*r >= x (x < 2^31)
RECURSIVE Root(_, _)
Root(x, r) == IF r * r >= x THEN r ELSE Root(x, r + 1)
Var(n, num) == (((n * num) \div 1000) * (1000 - num)) \div 1000
Tol(c, num) == 7000 * (Root(Var(c.n, num), 0) + 1) + (IF c.round = 1 THEN c.n ELSE 0)
Abs(x) == IF x < 0 THEN 0 - x ELSE x

CatOK(c, m) ==
    IF c.num[m] = 0 THEN c.cnt[m] = 0
    ELSE Abs(1000 * c.cnt[m] - c.n * c.num[m]) <= Tol(c, c.num[m])
OK(c) == /\ Sum(c.cnt, Len(c.cnt)) = c.n /\ c.total = c.n
         /\ \A m \in DOMAIN c.num : CatOK(c, m)

Init == k \in DOMAIN Cases
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
Done == PrintT("LAW " \o ToJson([k |-> k, ok |-> OK(Cases[k])]))
=============================================================================
