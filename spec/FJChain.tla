------------------------------- MODULE FJChain -------------------------------
(* Fork-join queues with Poisson arrivals (rate "lam") and exponential parts *)
(* (rate "mu"), as a labelled transition system.  Every job sends one part   *)
(* to each of n servers; a server takes the parts in the order of arrival.   *)
(* The jobs present are numbered 1 (oldest) .. m; d is the ordered tuple of  *)
(* the numbers of parts each server has completed for the jobs present (a    *)
(* server has completed the parts of the oldest d[i] jobs).  A job leaves    *)
(* when k of its parts are done; with purge its other parts leave with it,   *)
(* otherwise (purge = 0) the state keeps the job until all parts are done,   *)
(* and Left counts the jobs which have left the system already.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.CFGS)
VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]

Need(c) == IF c.purge = 1 THEN c.k ELSE c.n
DoneBy(d, j) == Cardinality({i \in DOMAIN d : d[i] >= j})       \* parts done of job j

RECURSIVE Sort(_)
Sort(d) == IF d = <<>> THEN <<>>
           ELSE LET i == CHOOSE i \in DOMAIN d : \A j \in DOMAIN d : d[i] >= d[j]
                IN  <<d[i]>> \o Sort([j \in 1..Len(d) - 1 |-> IF j < i THEN d[j] ELSE d[j + 1]])

\* the oldest job leaves once enough of its parts are done
RECURSIVE Leave(_, _)
Leave(c, t) == IF t.m > 0 /\ DoneBy(t.d, 1) >= Need(c)
               THEN Leave(c, [m |-> t.m - 1, d |-> [i \in DOMAIN t.d |-> IF t.d[i] > 0 THEN t.d[i] - 1 ELSE 0]])
               ELSE [m |-> t.m, d |-> Sort(t.d)]

Trans(c, t) ==
    (IF t.m < c.cap THEN {[t |-> [t EXCEPT !.m = @ + 1], m |-> 1, f |-> <<"lam">>, ev |-> "arr"]} ELSE {})
    \cup { [t |-> Leave(c, [t EXCEPT !.d[i] = @ + 1]), m |-> Cardinality({j \in DOMAIN t.d : t.d[j] = t.d[i]}), f |-> <<"mu">>, ev |-> "part"] :
             i \in {i \in DOMAIN t.d : t.d[i] < t.m /\ \A j \in 1..i - 1 : t.d[j] # t.d[i]} }

Init == ci \in DOMAIN Cfgs /\ s = [m |-> 0, d |-> [i \in 1..Cfgs[ci].n |-> 0]]
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* jobs whose k-th part is not done yet
Open(c, t) == Cardinality({j \in 1..t.m : DoneBy(t.d, j) < c.k})

TypeOK == s.m \in 0..C.cap /\ DOMAIN s.d = 1..C.n /\ \A i \in 1..C.n : s.d[i] \in 0..s.m
Ordered == \A i \in 1..C.n - 1 : s.d[i] >= s.d[i + 1]
(* jobs leave in the order of arrival, and none stays with enough parts done *)
NoneOverdue == \A j \in 1..s.m : DoneBy(s.d, j) < Need(C)
OldestFirst == \A j \in 1..s.m - 1 : DoneBy(s.d, j) >= DoneBy(s.d, j + 1)
(* an idle server has nothing left to do; work in the system is being served *)
Busy == s.m > 0 => \E i \in 1..C.n : s.d[i] < s.m
(* a completion never brings a job back, and lets jobs out only by need *)
Progress == \A e \in Trans(C, s) : e.ev = "part" => e.t.m <= s.m /\ Open(C, e.t) <= Open(C, s)
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> [m |-> s.m, d |-> s.d, open |-> Open(C, s)],
                                out |-> { [t |-> [m |-> e.t.m, d |-> e.t.d, open |-> Open(C, e.t)], m |-> e.m, f |-> e.f, ev |-> e.ev] : e \in Trans(C, s) }]))
=============================================================================
