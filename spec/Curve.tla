-------------------------------- MODULE Curve --------------------------------
(* A law described by its distribution function, tail and density at points  *)
(* of the time axis, walked from left to right in scaled integers:           *)
(*   F, T in units of 1/S, f = density times the time unit in units of 1/S,  *)
(*   t in time units.  dir says how the density behaves between a point and  *)
(*   the next: "up", "down", "flat", or "any" when nothing is promised.      *)
(* The state of the walk: position, value of F there, and lower and upper    *)
(* bounds of the mean accumulated so far.                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, lo, hi, bad
vars == <<c, i, lo, hi, bad>>
P(k) == Cases[k].pts
Tol(k) == Cases[k].tol
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Sc(k) == Cases[k].S

AtPoint(k, p) == {m \in {"range", "tail", "value", "negative"} :
    \/ m = "range" /\ ~(p.F \in 0..Sc(k) /\ p.T \in 0..Sc(k))
    \/ m = "tail" /\ Abs(p.F + p.T - Sc(k)) > 1
    \/ m = "value" /\ p.known >= 0 /\ Abs(p.F - p.known) > 2
    \/ m = "negative" /\ p.f < 0 }
Between(k, p, q) ==
    LET dt == q.t - p.t
        dF == q.F - p.F
        low == Min(p.f, q.f) * dt
        up == Max(p.f, q.f) * dt
        slack == Tol(k) + dt
    IN {m \in {"monotone", "density"} :
        \/ m = "monotone" /\ dF < 0
        \/ m = "density" /\ p.dir # "any" /\ ~(low - slack <= dF /\ dF <= up + slack)
        \/ m = "density" /\ p.dir = "up" /\ q.f < p.f - 1
        \/ m = "density" /\ p.dir = "down" /\ q.f > p.f + 1
        \/ m = "density" /\ p.dir = "flat" /\ Abs(q.f - p.f) > 1 }
Init == /\ c \in DOMAIN Cases /\ i = 1 /\ lo = 0 /\ hi = 0
        /\ bad = {<<m, 1>> : m \in AtPoint(c, P(c)[1])} \cup (IF P(c)[1].F > 1 THEN {<<"begin", 1>>} ELSE {})
Next ==
    /\ i < Len(P(c))
    /\ LET p == P(c)[i] q == P(c)[i + 1] IN
        /\ bad' = bad \cup {<<m, i + 1>> : m \in AtPoint(c, q) \cup Between(c, p, q)}
        /\ lo' = lo + (IF bad' = {} /\ q.F > p.F THEN p.t * (q.F - p.F) ELSE 0)
        /\ hi' = hi + (IF bad' = {} /\ q.F > p.F THEN q.t * (q.F - p.F) ELSE 0)
    /\ i' = i + 1
    /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
(* the walk reaches (nearly) everything, and the stated mean lies between the bounds *)
Ends == LET p == P(c)[Len(P(c))] IN
    bad \cup (IF p.F < Sc(c) - Cases[c].rest THEN {<<"end", i>>} ELSE {})
        \cup (IF bad = {} /\ Cases[c].mean >= 0 /\ ~(lo \div Sc(c) - 1 <= Cases[c].mean /\ Cases[c].mean <= hi \div Sc(c) + 1 + Cases[c].over)
              THEN {<<"mean", i>>} ELSE {})
Done == i = Len(P(c)) => PrintT("CURVE " \o ToJson([k |-> c, pts |-> i, bad |-> Ends]))
(* bounds of the accumulated mean never cross *)
Ordered == lo <= hi
=============================================================================
