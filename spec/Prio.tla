-------------------------------- MODULE Prio ---------------------------------
(* Priority queues with Poisson arrivals of several classes (1 is the most  *)
(* important), n servers and phase-type service per class, as a labelled    *)
(* transition system.  pol "NP": a service once begun is completed; "PR": an *)
(* arriving job takes the server of a job of the least important class in   *)
(* service, if that is less important than itself; the interrupted job goes *)
(* back to the head of its class and later resumes where it stopped.        *)
(* When a server becomes free it takes the most important waiting class.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.CFGS)
VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]

RECURSIVE SumSeq(_)
SumSeq(x) == IF x = <<>> THEN 0 ELSE Head(x) + SumSeq(Tail(x))
K(c) == Len(c.cls)
InSvc(t, j) == SumSeq(t.x[j])
Wait(t, j) == t.q[j] + Len(t.it[j])
RECURSIVE Upto(_, _, _)
Upto(F(_, _), t, j) == IF j = 0 THEN 0 ELSE F(t, j) + Upto(F, t, j - 1)
Busy(t) == Upto(InSvc, t, Len(t.q))
Waiting(t) == Upto(Wait, t, Len(t.q))
Total(t) == Busy(t) + Waiting(t)

W(t, f) == [t |-> t, f |-> f]

\* a new job of class j begins service
Fresh(c, w, j) == { W([w.t EXCEPT !.x[j] = [@ EXCEPT ![c.cls[j].svc.init[i][1]] = @ + 1]], w.f \o c.cls[j].svc.init[i][2])
                    : i \in DOMAIN c.cls[j].svc.init }
\* a free server takes the most important waiting job, an interrupted one first
Take(c, w) ==
    LET t == w.t
        S == {j \in 1..K(c) : Wait(t, j) > 0}
    IN  IF S = {} THEN {w}
        ELSE LET j == CHOOSE i \in S : \A i2 \in S : i <= i2 IN
             IF t.it[j] # <<>>
             THEN {W([t EXCEPT !.it[j] = Tail(@), !.x[j] = [@ EXCEPT ![Head(t.it[j])] = @ + 1]], w.f)}
             ELSE Fresh(c, W([t EXCEPT !.q[j] = @ - 1], w.f), j)

\* a job of class i in stage ph loses its server (an exponential service resumed is a service begun)
Interrupt(c, t, i, ph) ==
    LET d == [t EXCEPT !.x[i] = [@ EXCEPT ![ph] = @ - 1]]
    IN  IF Len(c.cls[i].svc.out) = 1 THEN [d EXCEPT !.q[i] = @ + 1] ELSE [d EXCEPT !.it[i] = <<ph>> \o @]

Join(c, t, j) ==
    LET low == {i \in (j + 1)..K(c) : InSvc(t, i) > 0}
    IN  IF Busy(t) < c.n THEN Fresh(c, W(t, c.cls[j].arr), j)
        ELSE IF c.pol = "PR" /\ low # {}
        THEN LET i == CHOOSE a \in low : \A b \in low : a >= b
                 ph == CHOOSE p \in DOMAIN t.x[i] : t.x[i][p] > 0
             IN  Fresh(c, W(Interrupt(c, t, i, ph), c.cls[j].arr), j)
        ELSE {W([t EXCEPT !.q[j] = @ + 1], c.cls[j].arr)}

Edge(w, m, ev) == [t |-> w.t, m |-> m, f |-> w.f, ev |-> ev]
Arrivals(c, t) == IF Total(t) >= c.cap THEN {}
                  ELSE UNION { {Edge(w, 1, "arr" \o ToString(j)) : w \in Join(c, t, j)} : j \in 1..K(c) }
Services(c, t) ==
    UNION { UNION { IF t.x[j][i] = 0 THEN {} ELSE
            UNION { LET o == c.cls[j].svc.out[i][r]
                        d == [t EXCEPT !.x[j] = [@ EXCEPT ![i] = @ - 1]]
                    IN  IF o[1] # 0
                        THEN {Edge(W([d EXCEPT !.x[j] = [@ EXCEPT ![o[1]] = @ + 1]], o[2]), t.x[j][i], "phase")}
                        ELSE {Edge(w, t.x[j][i], "svc") : w \in Take(c, W(d, o[2]))}
                    : r \in DOMAIN c.cls[j].svc.out[i] }
            : i \in DOMAIN t.x[j] } : j \in 1..K(c) }
Trans(c, t) == Arrivals(c, t) \cup Services(c, t)

Empty(c) == [q |-> [j \in 1..K(c) |-> 0], it |-> [j \in 1..K(c) |-> <<>>],
             x |-> [j \in 1..K(c) |-> [i \in 1..Len(c.cls[j].svc.out) |-> 0]]]
Init == ci \in DOMAIN Cfgs /\ s = Empty(C)
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ Busy(s) <= C.n /\ Total(s) <= C.cap
          /\ \A j \in 1..K(C) : s.q[j] >= 0 /\ \A i \in DOMAIN s.x[j] : s.x[j][i] >= 0
NoIdling == Waiting(s) > 0 => Busy(s) = C.n
\* preemptive: nobody waits while a less important job is served
Order == C.pol = "PR" => \A i, j \in 1..K(C) : (i < j /\ InSvc(s, j) > 0) => Wait(s, i) = 0
\* non-preemptive: nobody is ever interrupted
Complete == C.pol = "NP" => \A j \in 1..K(C) : s.it[j] = <<>>
OneInterrupted == C.n = 1 => \A j \in 1..K(C) : Len(s.it[j]) <= 1
\* the stage of the interrupted job is determined
Victim == (C.pol = "PR" /\ C.n > 1) => \A j \in 2..K(C) : Len(C.cls[j].svc.out) = 1
Alive == Trans(C, s) # {}
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> s, out |-> Trans(C, s)]))
=============================================================================
