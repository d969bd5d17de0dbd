--------------------------------- MODULE Flow ---------------------------------
(* Superposition of renewal flows (flow_sum_sim.py).  One stage merges the   *)
(* event epochs of two flows in time order; folding n flows is n-1 stages    *)
(* over a pool, each stage removing two flows and adding their sum.          *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0

\* merge state: next epochs t1, t2; clock; number merged; power sums of the intervals
MergeInit(s1, s2, K) == [t1 |-> At(s1, 1), t2 |-> At(s2, 1), i1 |-> 1, i2 |-> 1, now |-> 0, cnt |-> 0,
                         sum |-> [k \in 1..K |-> 0]]
Fire(m, s1, s2, which, K) ==
    LET t  == IF which = 1 THEN m.t1 ELSE m.t2
        dt == t - m.now
    IN  [m EXCEPT !.now = t, !.cnt = @ + 1, !.sum = [k \in 1..K |-> @[k] + Pow(dt, k)],
           !.t1 = IF which = 1 THEN t + At(s1, m.i1 + 1) ELSE @,
           !.t2 = IF which = 2 THEN t + At(s2, m.i2 + 1) ELSE @,
           !.i1 = IF which = 1 THEN @ + 1 ELSE @,
           !.i2 = IF which = 2 THEN @ + 1 ELSE @]
MergeSucc(m, s1, s2, K) ==
    {Fire(m, s1, s2, w, K) : w \in {x \in {1, 2} : (IF x = 1 THEN m.t1 ELSE m.t2) = Min2(m.t1, m.t2)}}
\* the n-th epoch of the superposition is the n-th smallest of all epochs
RECURSIVE Epoch(_, _)
Epoch(q, i) == IF i = 0 THEN 0 ELSE Epoch(q, i - 1) + At(q, i)
MergeInv(m, s1, s2) ==
    /\ m.i1 + m.i2 = m.cnt + 2
    /\ m.t1 = Epoch(s1, m.i1) /\ m.t2 = Epoch(s2, m.i2)
    /\ m.now <= m.t1 /\ m.now <= m.t2
    /\ m.cnt > 0 => m.sum[1] = m.now                                \* no time is lost
    /\ m.cnt = Cardinality({j \in 1..(m.i1 - 1) : Epoch(s1, j) <= m.now})
             + Cardinality({j \in 1..(m.i2 - 1) : Epoch(s2, j) <= m.now})

\* folding: pool of flow names; a stage replaces two by a new one
FoldSucc(pool, a, b, c) == (pool \ {a, b}) \cup {c}
FoldOK(pool, a, b, c) == a # b /\ {a, b} \subseteq pool /\ c \notin pool
=============================================================================
