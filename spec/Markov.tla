------------------------------- MODULE Markov --------------------------------
(* Markovian single-class queues: the protocol of QS (arrival, service,     *)
(* impatience, batches, finite sources, warm-up / cooling / cooling delay)  *)
(* with phase-type durations, as a labelled transition system.  A rate is a *)
(* product: mult times the factors named in f.  TLC enumerates the          *)
(* reachable states and prints every state with its outgoing transitions;   *)
(* the numerical solution of that chain is the reference for the formulas   *)
(* and solvers of the implementation.                                       *)
(*                                                                          *)
(* Phase-type data: init = sequence of <<phase, factors>>, out[phase] =     *)
(* sequence of <<next phase or 0, factors>>; factors = sequence of names.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.CFGS)

VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]

RECURSIVE SumSeq(_)
SumSeq(x) == IF x = <<>> THEN 0 ELSE Head(x) + SumSeq(Tail(x))
\* v = <<"first", phase>>: one server holds the first job of a busy period, whose service is exceptional
Busy(t) == SumSeq(t.x) + (IF t.v[1] = "first" THEN 1 ELSE 0)
Wait(t) == t.k - Busy(t)

\* weighted states: [t |-> state, f |-> factor names]
W(t, f) == [t |-> t, f |-> f]

\* one waiting job starts service: every initial phase with its probability
Start(c, w) == { W([w.t EXCEPT !.x = [@ EXCEPT ![c.svc.init[i][1]] = @ + 1]], w.f \o c.svc.init[i][2]) :
                 i \in DOMAIN c.svc.init }
RECURSIVE StartN(_, _, _)
StartN(c, S, m) == IF m = 0 THEN S ELSE StartN(c, UNION {Start(c, w) : w \in S}, m - 1)

\* a phase of kind kd begins
Enter(c, w, kd) == { W([w.t EXCEPT !.v = <<kd, c[kd].init[i][1]>>], w.f \o c[kd].init[i][2]) : i \in DOMAIN c[kd].init }
Off == <<"on", 0>>

Has(c, kd) == c[kd].init # <<>>

\* one job joins
Join(c, w) ==
    LET t == w.t
        t1 == [t EXCEPT !.k = @ + 1]
    IN  IF t.k >= c.cap THEN {w}
        ELSE IF t.v[1] \in {"warm", "cold"} THEN {W(t1, w.f)}
        ELSE IF t.v[1] = "delay" THEN Start(c, W([t1 EXCEPT !.v = Off], w.f))
        ELSE IF Busy(t) = c.n THEN {W(t1, w.f)}
        ELSE IF t.k = 0 /\ Has(c, "warm") THEN Enter(c, W(t1, w.f), "warm")
        ELSE IF t.k = 0 /\ Has(c, "first") THEN Enter(c, W(t1, w.f), "first")
        ELSE Start(c, W(t1, w.f))
RECURSIVE JoinN(_, _, _)
JoinN(c, S, m) == IF m = 0 THEN S ELSE JoinN(c, UNION {Join(c, w) : w \in S}, m - 1)

ArrMult(c, t) == IF c.src = 0 THEN 1 ELSE c.src - t.k

Edge(w, m, ev) == [t |-> w.t, m |-> m, f |-> w.f, ev |-> ev]

Arrivals(c, t) ==
    UNION { LET o == c.arr.out[t.a][i] IN
            IF ArrMult(c, t) = 0 THEN {}
            ELSE IF o[1] # 0 THEN {Edge(W([t EXCEPT !.a = o[1]], o[2]), 1, "aphase")}
            ELSE UNION { LET J == JoinN(c, {W(t, o[2] \o c.batch[b][2])}, c.batch[b][1]) IN
                         UNION { {Edge(W([w.t EXCEPT !.a = c.arr.init[q][1]], w.f \o c.arr.init[q][2]), ArrMult(c, t), "arr")
                                  : w \in J} : q \in DOMAIN c.arr.init }
                         : b \in DOMAIN c.batch }
            : i \in DOMAIN c.arr.out[t.a] }

Finish(c, w) ==   \* after a service completion: w.t has one job less in service
    LET t == w.t IN
    IF Wait(t) > 0 THEN Start(c, w)
    ELSE IF t.k = 0 /\ Has(c, "delay") THEN Enter(c, w, "delay")
    ELSE IF t.k = 0 /\ Has(c, "cold") THEN Enter(c, w, "cold")
    ELSE {w}

Services(c, t) ==
    UNION { IF t.x[i] = 0 THEN {} ELSE
            UNION { LET o == c.svc.out[i][j]
                        d == [t EXCEPT !.x = [@ EXCEPT ![i] = @ - 1]]
                    IN  IF o[1] # 0
                        THEN {Edge(W([d EXCEPT !.x = [@ EXCEPT ![o[1]] = @ + 1]], o[2]), t.x[i], "sphase")}
                        ELSE {Edge(w, t.x[i], "svc") : w \in Finish(c, W([d EXCEPT !.k = @ - 1], o[2]))}
                    : j \in DOMAIN c.svc.out[i] }
            : i \in DOMAIN t.x }

Leaves(c, t) == IF c.imp = "" \/ Wait(t) = 0 THEN {}
                ELSE {Edge(W([t EXCEPT !.k = @ - 1], <<c.imp>>), Wait(t), "imp")}

PhaseEnd(c, w) ==
    LET t == w.t
        on == W([t EXCEPT !.v = Off], w.f)
        go == StartN(c, {on}, IF t.k < c.n THEN t.k ELSE c.n)
    IN  CASE t.v[1] = "warm" -> go
          [] t.v[1] = "cold" -> IF t.k = 0 THEN {on} ELSE IF Has(c, "warm") THEN Enter(c, w, "warm") ELSE go
          [] t.v[1] = "delay" -> Enter(c, w, "cold")
          [] t.v[1] = "first" -> Finish(c, W([t EXCEPT !.v = Off, !.k = @ - 1], w.f))
Phases(c, t) ==
    IF t.v[1] = "on" THEN {}
    ELSE LET out == c[t.v[1]].out[t.v[2]] IN
         UNION { LET o == out[j] IN
                 IF o[1] # 0 THEN {Edge(W([t EXCEPT !.v = <<@[1], o[1]>>], o[2]), 1, "vphase")}
                 ELSE {Edge(w, 1, "vend") : w \in PhaseEnd(c, W(t, o[2]))}
                 : j \in DOMAIN out }

Trans(c, t) == Arrivals(c, t) \cup Services(c, t) \cup Leaves(c, t) \cup Phases(c, t)

Starts(c) == { [k |-> 0, a |-> c.arr.init[i][1], x |-> [j \in 1..Len(c.svc.out) |-> 0], v |-> Off] : i \in DOMAIN c.arr.init }

Init == ci \in DOMAIN Cfgs /\ s \in Starts(C)
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what every reachable state satisfies *)
TypeOK == /\ s.k \in 0..C.cap /\ Busy(s) <= C.n /\ Wait(s) >= 0
          /\ \A j \in DOMAIN s.x : s.x[j] >= 0
NoIdling == s.v[1] \in {"on", "first"} => (Wait(s) > 0 => Busy(s) = C.n)
Vacation == s.v[1] \notin {"on", "first"} => Busy(s) = 0
FirstHasWork == s.v[1] = "first" => s.k > 0
WarmHasWork == s.v[1] = "warm" => s.k > 0
DelayEmpty == s.v[1] = "delay" => s.k = 0
Alive == Trans(C, s) # {}
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> s, out |-> Trans(C, s)]))
=============================================================================
