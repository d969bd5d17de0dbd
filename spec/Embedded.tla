------------------------------ MODULE Embedded -------------------------------
(* Queues observed at embedded instants.  A transition carries the name of  *)
(* its probability (a letter and numbers); the harness supplies the numbers *)
(* by quadrature over the duration's law.                                   *)
(*   mg1   just after departures: the next service starts (a fresh one of   *)
(*         kind "q", or the exceptional kind "w" when the job found nobody) *)
(*         and a jobs arrive during it                                      *)
(*   gimn  just before arrivals: d of the j jobs present after the arrival  *)
(*         leave before the next one, at most n in service at a time        *)
(*   mdn   every service time: whoever was in service has left, a arrived   *)
(*   ekdn  as mdn, counted in arrival phases, k phases to a job             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.CFGS)
VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Nm(c, x) == c \o ToString(x)

Trans(c, j) ==
    CASE c.kind = "mg1" ->
           LET l == Max(j, 1) - 1   \* those who were waiting when this service began
           IN  { [t |-> Min(c.cap, l + a), m |-> 1, ev |-> a,
                  f |-> <<Nm(IF j = 0 /\ c.exc THEN "w" ELSE "q", a)>>] : a \in 0..(c.cap + 1) }
      [] c.kind = "gimn" ->
           LET x == Min(c.cap, j + 1)
           IN  { [t |-> x - d, m |-> 1, ev |-> d, f |-> <<"d" \o ToString(x) \o "_" \o ToString(d)>>] : d \in 0..x }
      [] c.kind = "mdn" ->
           LET l == j - Min(j, c.n)
           IN  { [t |-> Min(c.cap, l + a), m |-> 1, ev |-> a, f |-> <<Nm("q", a)>>] : a \in 0..c.cap }
      [] c.kind = "ekdn" ->
           LET l == j - c.k * Min(j \div c.k, c.n)
           IN  { [t |-> Min(c.cap, l + a), m |-> 1, ev |-> a, f |-> <<Nm("q", a)>>] : a \in 0..c.cap }

Init == ci \in DOMAIN Cfgs /\ s = 0
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

TypeOK == s \in 0..C.cap
(* from every state every smaller number of jobs is reachable downwards one  *)
(* service batch at a time, so the chain has a single recurrent class        *)
Drains == LET d == IF C.kind \in {"mdn"} THEN C.n ELSE IF C.kind = "ekdn" THEN C.n * C.k ELSE 1
          IN  \A e \in Trans(C, s) : e.t >= Max(s, IF C.kind = "mg1" THEN 1 ELSE 0) - d \/ C.kind = "gimn"
Up == \E e \in Trans(C, s) : e.t > s \/ s = C.cap
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> s, out |-> Trans(C, s)]))
=============================================================================
