--------------------------------- MODULE QS ---------------------------------
(***************************************************************************)
(* Explicit state/transition specification of the single-class queueing    *)
(* simulators of most-queue:                                               *)
(*                                                                         *)
(*    kind = "plain"   GI/G/n/r with optional warm-up, cooling and         *)
(*                     cooling delay (qs_sim.py)                           *)
(*    kind = "imp"     impatient jobs      (impatient_queue_sim.py)        *)
(*    kind = "batch"   batch arrivals      (batch_sim.py)                  *)
(*    kind = "finite"  finite sources      (queue_finite_source_sim.py)    *)
(*                                                                         *)
(* A configuration c is a record                                           *)
(*    [kind, n, buf, warm, cold, delay, m]                                 *)
(* (buf = -1: unlimited waiting room; m = number of sources).  Time is     *)
(* integer.  Every random quantity is an input d of a step (the "draws"),  *)
(* so the same operators serve exhaustive model checking (the model        *)
(* checker picks the draws) and conformance checking (the draws are those  *)
(* the implementation made).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nobuf == 0 - 1
NoDur == 0

Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SumSeq(f) == LET RECURSIVE go(_)
                 go(i) == IF i = 0 THEN 0 ELSE f[i] + go(i - 1)
             IN  go(Len(f))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE
                      IN  f[x] + SumOver(f, S \ {x})
SumFun(f) == SumOver(f, DOMAIN f)

\* insertion into a sorted sequence, removal of one occurrence
InsertSorted(seq, x) ==
    LET k == Cardinality({i \in DOMAIN seq : seq[i] <= x})
    IN  SubSeq(seq, 1, k) \o <<x>> \o SubSeq(seq, k + 1, Len(seq))
RemoveAt(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))

\* all re-orderings of a short sequence of draws (which server got which
\* of several simultaneous samples is not part of the contract)
Perms(seq) == IF Len(seq) > 6 THEN {seq} ELSE
              { [i \in DOMAIN seq |-> seq[f[i]]] :
                f \in {g \in [DOMAIN seq -> DOMAIN seq] :
                          \A i, j \in DOMAIN seq : i # j => g[i] # g[j]} }

At(seq, i) == IF i <= Len(seq) THEN seq[i] ELSE NoDur

NoUse == [arr |-> 0, svc |-> 0, warm |-> 0, cold |-> 0, delay |-> 0, imp |-> 0]

-----------------------------------------------------------------------------
InitState(c, cap, arrs) ==
    [ now |-> 0, arrs |-> arrs, q |-> <<>>, busy |-> {},
      ph |-> "none", pst |-> 0, pend |-> 0,
      arrived |-> 0, accepted |-> 0, taken |-> 0, served |-> 0,
      dropped |-> 0, reneged |-> 0, zerow |-> 0,
      pt |-> [j \in 0..cap |-> 0],
      w |-> <<0, 0, 0>>, wc |-> 0,
      v |-> <<0, 0, 0>>, vc |-> 0,
      bp |-> <<0, 0, 0>>, bc |-> 0, bst |-> 0,
      warmT |-> 0, coldT |-> 0, delayT |-> 0,
      warmN |-> 0, coldN |-> 0, delayN |-> 0, wac |-> 0,
      use |-> NoUse, ev |-> "init" ]

InService(s) == Cardinality(s.busy)
InSys(s)     == Len(s.q) + Cardinality(s.busy)
Full(c, s)   == Cardinality(s.busy) = c.n
\* sums beyond the integers in use (2*10^9) are unknown (-1), here and in the record
Sum(a, y) == IF a < 0 \/ a > 2000000000 - y THEN -1 ELSE a + y
AddM(m, x) == <<Sum(m[1], x), IF x > 40000 THEN -1 ELSE Sum(m[2], x * x), IF x > 1259 THEN -1 ELSE Sum(m[3], x * x * x)>>

\* time passes: the number present is charged with the elapsed time
Advance(s, t) == [s EXCEPT !.pt[InSys(s)] = @ + (t - s.now), !.now = t,
                           !.use = NoUse]

StartPhase(s, ph, dur) ==
    LET s1 == [s EXCEPT !.ph = ph, !.pst = s.now, !.pend = s.now + dur]
    IN  CASE ph = "warm"  -> [s1 EXCEPT !.warmN = @ + 1, !.use.warm = @ + 1]
          [] ph = "cold"  -> [s1 EXCEPT !.coldN = @ + 1, !.use.cold = @ + 1]
          [] ph = "delay" -> [s1 EXCEPT !.delayN = @ + 1, !.use.delay = @ + 1]
EndPhase(s) ==
    LET el == s.now - s.pst
        s1 == [s EXCEPT !.ph = "none", !.pst = 0, !.pend = 0]
    IN  CASE s.ph = "warm"  -> [s1 EXCEPT !.warmT = @ + el]
          [] s.ph = "cold"  -> [s1 EXCEPT !.coldT = @ + el]
          [] s.ph = "delay" -> [s1 EXCEPT !.delayT = @ + el]

\* job j = [id, arr, leave] enters service for dur
Begin(c, s, j, dur) ==
    LET b1 == s.busy \cup {[id |-> j.id, arr |-> j.arr, end |-> s.now + dur]}
    IN  [s EXCEPT !.busy = b1,
                  !.taken = @ + 1,
                  !.w = AddM(@, s.now - j.arr), !.wc = @ + 1,
                  !.use.svc = @ + 1,
                  !.bst = IF Cardinality(b1) = c.n THEN s.now ELSE @]

\* the head of the line enters service
BeginHead(c, s, dur) ==
    LET s1 == [s EXCEPT !.q = Tail(@)] IN Begin(c, s1, Head(s.q), dur)

\* idle servers take the heads of the line, one draw each
RECURSIVE FillAll(_, _, _, _)
FillAll(c, s, durs, i) ==
    IF Full(c, s) \/ s.q = <<>> THEN s
    ELSE FillAll(c, BeginHead(c, s, At(durs, i)), durs, i + 1)

Enqueue(c, s, leave) ==
    IF c.buf = Nobuf \/ Len(s.q) < c.buf
    THEN [s EXCEPT !.q = Append(@, [id |-> s.accepted + 1, arr |-> s.now, leave |-> leave]),
                   !.accepted = @ + 1]
    ELSE [s EXCEPT !.dropped = @ + 1]

BeginNew(c, s, dur) ==
    LET s1 == [s EXCEPT !.accepted = @ + 1, !.zerow = @ + 1]
    IN  Begin(c, s1, [id |-> s1.accepted, arr |-> s.now, leave |-> 0], dur)

-----------------------------------------------------------------------------
(* Arrival of a single job with patience (plain, imp, finite).             *)
Admit(c, s, d, leave) ==
    IF Full(c, s) THEN Enqueue(c, s, leave)
    ELSE IF s.ph = "cold" THEN Enqueue(c, s, leave)
    ELSE IF s.ph = "delay" THEN BeginNew(c, EndPhase(s), At(d.svc, 1))
    ELSE IF s.ph = "warm" THEN Enqueue(c, s, leave)
    ELSE IF c.warm /\ s.busy = {}
         THEN Enqueue(c, StartPhase(s, "warm", At(d.warm, 1)), leave)
    ELSE BeginNew(c, s, At(d.svc, 1))

\* jobs of a batch, one after the other
RECURSIVE AdmitMany(_, _, _, _)
AdmitMany(c, s, durs, k) ==
    IF k = 0 THEN s
    ELSE LET s0 == [s EXCEPT !.arrived = @ + 1]
             s1 == IF Full(c, s0) THEN Enqueue(c, s0, 0)
                   ELSE BeginNew(c, s0, At(durs, s0.use.svc + 1))
         IN  AdmitMany(c, s1, durs, k - 1)

\* a finite source thinks again
Think(s, dur) == [s EXCEPT !.arrs = InsertSorted(@, s.now + dur), !.use.arr = @ + 1]

ArrivalAt(c, s0, i, d) ==
    LET s1 == [Advance(s0, s0.arrs[i]) EXCEPT !.arrs = RemoveAt(@, i), !.ev = "arrival"]
    IN  CASE c.kind = "plain" ->
               { Admit(c, [Think(s1, At(d.arr, 1)) EXCEPT !.arrived = @ + 1], d, 0) }
          [] c.kind = "imp" ->
               { Admit(c, [Think(s1, At(d.arr, 1)) EXCEPT !.arrived = @ + 1, !.use.imp = 1],
                       d, s1.now + At(d.imp, 1)) }
          [] c.kind = "batch" ->
               { AdmitMany(c, Think(s1, At(d.arr, 1)), p, d.b) : p \in Perms(d.svc) }
          [] c.kind = "finite" ->
               LET s2 == Admit(c, [s1 EXCEPT !.arrived = @ + 1], d, 0)
               IN  { IF s2.dropped > s1.dropped THEN Think(s2, At(d.arr, 1)) ELSE s2 }

Arrivals(c, s, d) ==
    IF s.arrs = <<>> THEN {} ELSE ArrivalAt(c, s, 1, d)

(* Completion of the service of b.                                         *)
Departure(c, s0, b, d) ==
    LET s1 == [Advance(s0, b.end) EXCEPT !.busy = @ \ {b}, !.served = @ + 1, !.ev = "departure",
                                         !.v = AddM(@, b.end - b.arr), !.vc = @ + 1]
        s2 == IF c.kind = "finite" THEN Think(s1, At(d.arr, 1)) ELSE s1
        s3 == IF Full(c, s0) /\ s2.q = <<>>
              THEN [s2 EXCEPT !.bp = AddM(@, s2.now - s2.bst), !.bc = @ + 1]
              ELSE s2
    IN  IF s3.q # <<>>
        \* the server never becomes idle: the busy period goes on
        THEN [BeginHead(c, s3, At(d.svc, 1)) EXCEPT !.bst = s0.bst]
        ELSE IF s3.busy = {} /\ c.cold
             THEN IF c.delay THEN StartPhase(s3, "delay", At(d.delay, 1))
                             ELSE StartPhase(s3, "cold", At(d.cold, 1))
        ELSE s3

(* A waiting job runs out of patience.                                     *)
Renege(c, s0, i) ==
    LET j  == s0.q[i]
        s1 == Advance(s0, j.leave)
        x  == j.leave - j.arr
    IN  [s1 EXCEPT !.q = RemoveAt(@, i), !.dropped = @ + 1, !.reneged = @ + 1, !.ev = "renege",
                   !.served = @ + 1,
                   !.v = AddM(@, x), !.vc = @ + 1,
                   !.w = AddM(@, x), !.wc = @ + 1]

(* The running phase ends.                                                 *)
PhaseEnd(c, s0, d) ==
    LET s1 == [EndPhase(Advance(s0, s0.pend)) EXCEPT !.ev = s0.ph \o "-end"]
    IN  CASE s0.ph = "delay" -> { StartPhase(s1, "cold", At(d.cold, 1)) }
          [] s0.ph = "cold" /\ c.warm ->
               { IF s1.q = <<>> THEN s1
                 ELSE [StartPhase(s1, "warm", At(d.warm, 1)) EXCEPT !.wac = @ + 1] }
          [] OTHER -> { FillAll(c, s1, p, 1) : p \in Perms(d.svc) }

-----------------------------------------------------------------------------
(* Pending event times and the step relation: some pending event with the  *)
(* smallest time happens.                                                  *)
PendingTimes(c, s) ==
    (IF s.arrs = <<>> THEN {} ELSE {s.arrs[1]})
    \cup {b.end : b \in s.busy}
    \cup (IF s.ph = "none" THEN {} ELSE {s.pend})
    \cup (IF c.kind = "imp" THEN {s.q[i].leave : i \in DOMAIN s.q} ELSE {})

Succ(c, s, d) ==
    LET T == PendingTimes(c, s)
    IN IF T = {} THEN {} ELSE
       LET t == SetMin(T) IN
           (IF s.arrs # <<>> /\ s.arrs[1] = t THEN Arrivals(c, s, d) ELSE {})
           \cup { Departure(c, s, b, d) : b \in {x \in s.busy : x.end = t} }
           \cup (IF s.ph # "none" /\ s.pend = t THEN PhaseEnd(c, s, d) ELSE {})
           \cup (IF c.kind = "imp"
                 THEN { Renege(c, s, i) : i \in {k \in DOMAIN s.q : s.q[k].leave = t} }
                 ELSE {})

-----------------------------------------------------------------------------
(* Invariants of every reachable state (checked exhaustively by QSMC and   *)
(* again on every state of every implementation trace by QSTrace).         *)
NoIdleWhileWaiting(c, s) == s.q # <<>> /\ s.ph = "none" => Full(c, s)
FifoLine(s)    == \A i, j \in DOMAIN s.q : i < j => s.q[i].id < s.q[j].id
FifoService(s) == \A b \in s.busy, i \in DOMAIN s.q : b.id < s.q[i].id
BufferBound(c, s) == c.buf # Nobuf => Len(s.q) <= c.buf
Conservation(s) == /\ s.arrived = s.served + (s.dropped - s.reneged) + InSys(s)
                   /\ s.accepted = s.taken + s.reneged + Len(s.q)
                   /\ s.served - s.reneged = s.taken - InService(s)
ServersBound(c, s) == InService(s) <= c.n
PhaseIdle(c, s) == /\ s.ph # "none" => s.busy = {}
                   /\ s.ph = "delay" => s.q = <<>>
                   /\ s.ph # "none" => s.pst <= s.now /\ s.now <= s.pend
                   /\ s.ph = "warm" => c.warm
                   /\ s.ph \in {"cold", "delay"} => c.cold
TotalTime(s) == SumFun(s.pt) = s.now
\* Little's law on the sample path, exactly: the time integral of the number
\* in system is the total time spent in system by departed and present jobs.
Little(s) ==
    SumFun([j \in DOMAIN s.pt |-> j * s.pt[j]])
        = s.v[1] + SumFun([b \in s.busy |-> s.now - b.arr])
                 + SumSeq([i \in DOMAIN s.q |-> s.now - s.q[i].arr])
PhaseTime(s) == s.warmT + s.coldT + s.delayT <= s.now
Counts(s) == s.wc = s.taken + s.reneged /\ s.vc = s.served
FiniteSources(c, s) == c.kind = "finite" => Len(s.arrs) + InSys(s) = c.m
FutureEvents(c, s) == \A t \in PendingTimes(c, s) : t >= s.now

Inv(c, s) ==
    /\ NoIdleWhileWaiting(c, s) /\ FifoLine(s) /\ FifoService(s)
    /\ BufferBound(c, s) /\ Conservation(s) /\ ServersBound(c, s)
    /\ PhaseIdle(c, s) /\ TotalTime(s) /\ Little(s) /\ PhaseTime(s)
    /\ Counts(s) /\ FiniteSources(c, s) /\ FutureEvents(c, s)
=============================================================================
