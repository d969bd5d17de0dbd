---------------------------------- MODULE FJ ----------------------------------
(***************************************************************************)
(* Fork-join and split-join queues (fj_sim.py, fj_delta_sim.py).           *)
(*                                                                         *)
(* c.kind  "fj"   n subtasks, one per server, own line per server; the     *)
(*                task departs at its k-th completion (c.purge: the other  *)
(*                subtasks are then thrown away)                           *)
(*         "sj"   n subtasks start together when the previous task is done *)
(*         "dfj"  k subtasks, the i-th available at arrival + i-fold delay,*)
(*                one common line, any idle server                         *)
(*         "dsj"  k subtasks with delays, one task at a time               *)
(* Draws d: [arr, svc, del] sequences; d.del[i] is the i-fold delay.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
SumFun(f) == SumOver(f, DOMAIN f)
At(seq, i) == IF i <= Len(seq) THEN seq[i] ELSE 0
RemoveAt(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
\* sums beyond the integers in use (2*10^9) are unknown (-1), here and in the record
Sum(a, y) == IF a < 0 \/ a > 2000000000 - y THEN -1 ELSE a + y
AddM(m, x) == <<Sum(m[1], x), IF x > 40000 THEN -1 ELSE Sum(m[2], x * x), IF x > 1259 THEN -1 ELSE Sum(m[3], x * x * x)>>
Servers(c) == 1..c.n
Parts(c) == IF c.kind \in {"fj", "sj"} THEN c.n ELSE c.k
Need(c) == IF c.kind = "sj" THEN c.n ELSE c.k
NLines(c) == IF c.kind = "fj" THEN c.n ELSE 1

InitState(c, cap, arr) ==
    [ now |-> 0, told |-> 0, arr |-> arr, ids |-> 0,
      lines |-> [i \in 1..NLines(c) |-> <<>>],   \* records [t, x, at]
      busy |-> {},                               \* records [t, x, st, end]; x = server (fj) or part
      pend |-> {},                               \* records [t, x, at]: subtasks still to come
      tasks |-> {},                              \* tasks in the system: [t, arr, done]
      cur |-> 0,                                 \* the task being processed (sj, dsj); 0 = none
      arrived |-> 0, served |-> 0, total |-> 0, v |-> <<0, 0, 0>>,
      pt |-> [j \in 0..cap |-> 0], used |-> 0, ev |-> "init", last |-> {} ]

InSys(s) == Cardinality(s.tasks)
Subs(s) == Cardinality(s.busy) + SumFun([i \in DOMAIN s.lines |-> Len(s.lines[i])])
Charge(s, t) == [s EXCEPT !.pt[InSys(s)] = @ + (t - s.told), !.told = t, !.now = t, !.used = 0, !.last = {}]

\* subtask y = [t, x, at] starts now
StartSub(s, y, d) ==
    [s EXCEPT !.busy = @ \cup {[t |-> y.t, x |-> y.x, st |-> s.now, end |-> s.now + At(d.svc, s.used + 1)]},
              !.used = @ + 1]
RECURSIVE StartAll(_, _, _)
StartAll(s, q, d) == IF q = <<>> THEN s ELSE StartAll(StartSub(s, Head(q), d), Tail(q), d)

\* fj: one subtask to each server i..n
RECURSIVE Fork(_, _, _, _, _)
Fork(c, s, t, i, d) ==
    IF i > c.n THEN s
    ELSE LET y == [t |-> t, x |-> i, at |-> s.now]
             s1 == IF \E b \in s.busy : b.x = i THEN [s EXCEPT !.lines[i] = Append(@, y)]
                   ELSE StartSub(s, y, d)
         IN  Fork(c, s1, t, i + 1, d)

\* every idle server with a line takes its head (fj)
RECURSIVE Continue(_, _, _, _)
Continue(c, s, i, d) ==
    IF i > c.n THEN s
    ELSE Continue(c, IF s.lines[i] # <<>> /\ \A b \in s.busy : b.x # i
                     THEN StartSub([s EXCEPT !.lines[i] = Tail(@)], Head(s.lines[i]), d) ELSE s, i + 1, d)

Idle(c, s) == c.n - Cardinality(s.busy)
\* subtasks of task t at the front of service: up to `room' of them leave the line in order
RECURSIVE TakeOf(_, _, _, _, _)
TakeOf(s, t, i, room, d) ==
    IF i > Len(s.lines[1]) \/ room = 0 THEN s
    ELSE IF s.lines[1][i].t = t
         THEN TakeOf(StartSub([s EXCEPT !.lines[1] = RemoveAt(@, i)], s.lines[1][i], d), t, i, room - 1, d)
         ELSE TakeOf(s, t, i + 1, room, d)

\* a subtask of a delayed task becomes available
Available(c, s, y, d) ==
    IF c.kind = "dfj"
    THEN IF Idle(c, s) > 0 THEN StartSub(s, y, d) ELSE [s EXCEPT !.lines[1] = Append(@, y)]
    ELSE IF s.cur = 0 THEN StartSub([s EXCEPT !.cur = y.t], y, d)
    ELSE IF s.cur = y.t /\ Idle(c, s) > 0 THEN StartSub(s, y, d)
    ELSE [s EXCEPT !.lines[1] = Append(@, y)]

Arrival(c, s, d) ==
    LET t  == s.ids + 1
        s1 == [Charge(s, s.arr) EXCEPT !.arr = s.arr + At(d.arr, 1), !.ids = t, !.arrived = @ + 1,
                    !.tasks = @ \cup {[t |-> t, arr |-> s.arr, done |-> 0]}, !.ev = "arrival"]
    IN  CASE c.kind = "fj" -> Fork(c, s1, t, 1, d)
          [] c.kind = "sj" ->
                LET q == [i \in 1..c.n |-> [t |-> t, x |-> i, at |-> s1.now]]
                IN  IF s.cur = 0 THEN StartAll([s1 EXCEPT !.cur = t], q, d)
                    ELSE [s1 EXCEPT !.lines[1] = @ \o q]
          [] OTHER ->
                LET later == {[t |-> t, x |-> i + 1, at |-> s1.now + At(d.del, i)] : i \in 1..(c.k - 1)}
                IN  Available(c, [s1 EXCEPT !.pend = @ \cup later], [t |-> t, x |-> 1, at |-> s1.now], d)

SubArrival(c, s, y, d) ==
    Available(c, [Charge(s, y.at) EXCEPT !.pend = @ \ {y}, !.ev = "subtask"], y, d)

Completion(c, s, b, d) ==
    LET task == CHOOSE k \in s.tasks : k.t = b.t
        alive == \E k \in s.tasks : k.t = b.t
        ready == alive /\ task.done + 1 = Need(c)
        s1 == [Charge(s, b.end) EXCEPT !.busy = @ \ {b}, !.total = @ + 1, !.last = {b}, !.ev = "completion",
                   !.tasks = IF ~alive THEN @ ELSE IF ready THEN @ \ {task}
                             ELSE (@ \ {task}) \cup {[task EXCEPT !.done = @ + 1]}]
        s2 == IF ready THEN [s1 EXCEPT !.served = @ + 1, !.v = AddM(@, b.end - task.arr)] ELSE s1
    IN  CASE c.kind = "fj" ->
               LET s3 == IF ready /\ c.purge
                         THEN [s2 EXCEPT !.busy = {y \in @ : y.t # b.t},
                                 !.lines = [i \in DOMAIN @ |-> SelectSeq(@[i], LAMBDA y : y.t # b.t)]]
                         ELSE s2
               IN  Continue(c, s3, 1, d)
          [] c.kind = "dfj" ->
               IF s2.lines[1] = <<>> THEN s2
               ELSE StartSub([s2 EXCEPT !.lines[1] = Tail(@)], Head(s2.lines[1]), d)
          [] OTHER ->
               IF ready
               THEN IF s2.lines[1] = <<>> THEN [s2 EXCEPT !.cur = 0]
                    ELSE LET t == Head(s2.lines[1]).t
                         IN  TakeOf([s2 EXCEPT !.cur = t], t, 1, c.n, d)
               ELSE TakeOf(s2, b.t, 1, Idle(c, s2), d)

PendingTimes(s) == {s.arr} \cup {b.end : b \in s.busy} \cup {y.at : y \in s.pend}
\* fj: the samples of one step may reach the servers in any order
Perms(q) == IF Len(q) > 4 THEN {q}
            ELSE {[i \in 1..Len(q) |-> q[p[i]]] : p \in {f \in [1..Len(q) -> 1..Len(q)] :
                                                    \A i, j \in 1..Len(q) : i # j => f[i] # f[j]}}
Succ(c, s, d0) ==
    LET t == SetMin(PendingTimes(s))
        D == IF c.kind = "fj" THEN {[d0 EXCEPT !.svc = q] : q \in Perms(d0.svc)} ELSE {d0}
    IN  UNION { (IF s.arr = t THEN {Arrival(c, s, d)} ELSE {})
                \cup {SubArrival(c, s, y, d) : y \in {z \in s.pend : z.at = t}}
                \cup {Completion(c, s, b, d) : b \in {z \in s.busy : z.end = t}} : d \in D }

-----------------------------------------------------------------------------
TaskIds(s) == {k.t : k \in s.tasks}
Where(s, t) == Cardinality({b \in s.busy : b.t = t})
             + SumFun([i \in DOMAIN s.lines |-> Cardinality({j \in DOMAIN s.lines[i] : s.lines[i][j].t = t})])
             + Cardinality({y \in s.pend : y.t = t})
Sorted(q) == \A i, j \in DOMAIN q : i < j => q[i] <= q[j]
Inv(c, s) ==
    /\ s.arrived = s.served + InSys(s)
    /\ \A k \in s.tasks : k.done < Need(c) /\ k.done + Where(s, k.t) = Parts(c)     \* every subtask exactly once
    /\ (c.kind # "fj" \/ c.purge) =>
          \A b \in s.busy : b.t \in TaskIds(s)                                       \* nothing left of a departed task
    /\ Cardinality(s.busy) <= c.n
    /\ \A t \in PendingTimes(s) : t >= s.now
    /\ SumFun(s.pt) = s.told
    /\ SumFun([j \in DOMAIN s.pt |-> j * s.pt[j]]) = s.v[1] + SumFun([k \in s.tasks |-> s.now - k.arr])
    /\ c.kind = "fj" =>
          /\ \A i \in 1..c.n : s.lines[i] # <<>> => \E b \in s.busy : b.x = i         \* no server idles
          /\ \A i \in 1..c.n : Cardinality({b \in s.busy : b.x = i}) <= 1
          /\ \A i \in 1..c.n :                                                       \* own line, own order
               /\ \A j, m \in DOMAIN s.lines[i] : j < m => s.lines[i][j].t < s.lines[i][m].t
               /\ \A b \in s.busy : \A j \in DOMAIN s.lines[i] : b.x = i => b.t < s.lines[i][j].t
    /\ c.kind = "sj" =>
          /\ \A a, b \in s.busy : a.t = b.t /\ a.st = b.st                            \* together
          /\ s.lines[1] # <<>> => s.busy # {}
          /\ \A b \in s.busy : \A k \in s.tasks : b.t <= k.t                          \* arrival order
    /\ c.kind = "dsj" =>
          /\ \A b \in s.busy : b.t = s.cur
          /\ s.cur # 0 => \A k \in s.tasks : s.cur <= k.t
          /\ s.cur = 0 => s.tasks = {}
          /\ Idle(c, s) > 0 => \A j \in DOMAIN s.lines[1] : s.lines[1][j].t # s.cur
    /\ c.kind = "dfj" =>
          /\ s.lines[1] # <<>> => Idle(c, s) = 0
          /\ \A i, j \in DOMAIN s.lines[1] : i < j => s.lines[1][i].at <= s.lines[1][j].at
    /\ c.kind \in {"dfj", "dsj"} => \A b \in s.busy : \A y \in s.pend : ~(b.t = y.t /\ b.x = y.x)

StepContract(c, s, t, d) ==
    /\ t.now = SetMin(PendingTimes(s)) /\ t.now >= s.now
    /\ \A b \in s.busy \ t.busy :                 \* who stops: the completing subtask or a purged sibling
         b \in t.last \/ (c.purge /\ b.t \notin TaskIds(t) /\ \E l \in t.last : l.t = b.t)
    /\ \A k \in s.tasks : k.t \notin TaskIds(t) => k.done + 1 = Need(c) /\ \E l \in t.last : l.t = k.t
=============================================================================
