--------------------------------- MODULE Net ---------------------------------
(***************************************************************************)
(* Multi-server nodes with job classes and priorities, alone               *)
(* (priority_queue_sim.py: one node, everybody leaves after it) or         *)
(* connected into a network (priority_network.py).                         *)
(*                                                                         *)
(* Configuration c:                                                        *)
(*   K, M        number of classes, of nodes                               *)
(*   node[m]     [n, disc, buf]   disc in No NP PR RS RW, buf = -1: none   *)
(*   cls[m][r]   priority class of a class-r job at node m (1 = highest)   *)
(*   entry[r]    set of entry nodes of class r                             *)
(*   route[r][m] set of successors of node m for class r (M+1 = leaves)    *)
(*   warm        first job of an empty (single) node is served with the    *)
(*               warm-up distribution of its class                         *)
(* Draws d: [arr[r], svc[m][r], warm[r]] sequences of samples, by class r. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE
                      IN  f[x] + SumOver(f, S \ {x})
SumFun(f) == SumOver(f, DOMAIN f)
RemoveAt(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
At(seq, i) == IF i <= Len(seq) THEN seq[i] ELSE 0
\* sums beyond the integers in use (2*10^9) are unknown (-1), here and in the record
Sum(a, y) == IF a < 0 \/ a > 2000000000 - y THEN -1 ELSE a + y
AddM(m, x) == <<Sum(m[1], x), IF x > 40000 THEN -1 ELSE Sum(m[2], x * x), IF x > 1259 THEN -1 ELSE Sum(m[3], x * x * x)>>
Preemptive == {"PR", "RS", "RW"}

-----------------------------------------------------------------------------
NodeInit(c, cap) ==
    [ lines |-> [k \in 1..c.K |-> <<>>], busy |-> {},
      pt |-> [k \in 1..c.K |-> [j \in 0..cap |-> 0]], told |-> [k \in 1..c.K |-> 0],
      arrived |-> [k \in 1..c.K |-> 0], served |-> [k \in 1..c.K |-> 0],
      dropped |-> [k \in 1..c.K |-> 0], taken |-> [k \in 1..c.K |-> 0],
      w |-> [k \in 1..c.K |-> <<0, 0, 0>>], v |-> [k \in 1..c.K |-> <<0, 0, 0>>] ]

NoUse(c) == [ arr |-> [r \in 1..c.K |-> 0],
              svc |-> [m \in 1..c.M |-> [r \in 1..c.K |-> 0]],
              warm |-> [r \in 1..c.K |-> 0] ]

InitState(c, cap, arrs) ==
    [ now |-> 0, arrs |-> arrs, nd |-> [m \in 1..c.M |-> NodeInit(c, cap)], ids |-> 0,
      arrived |-> [r \in 1..c.K |-> 0], served |-> [r \in 1..c.K |-> 0],
      vN |-> [r \in 1..c.K |-> <<0, 0, 0>>], wN |-> [r \in 1..c.K |-> <<0, 0, 0>>],
      use |-> NoUse(c), ev |-> "init", done |-> {} ]

Waiting(nd) == SumFun([k \in DOMAIN nd.lines |-> Len(nd.lines[k])])
LineOf(c, m, k) == IF c.node[m].disc = "No" THEN 1 ELSE k
InLine(nd, k) == SumFun([q \in DOMAIN nd.lines |->
                          Cardinality({i \in DOMAIN nd.lines[q] : nd.lines[q][i].cls = k})])
Present(nd, k) == InLine(nd, k) + Cardinality({b \in nd.busy : b.cls = k})

\* class k of node m is charged with the time since its last change
Charge(nd, k, now) == [nd EXCEPT !.pt[k][Present(nd, k)] = @ + (now - nd.told[k]), !.told[k] = now]

-----------------------------------------------------------------------------
(* Node-level transitions; they work on the whole state s because the      *)
(* draws used are recorded there.                                          *)

\* job j starts (or resumes) on an idle server of node m
Start(c, s, m, j, d, warm) ==
    LET r   == j.real
        dur == IF j.pre THEN j.rem
               ELSE IF warm THEN At(d.warm[r], s.use.warm[r] + 1)
               ELSE At(d.svc[m][r], s.use.svc[m][r] + 1)
        s1  == IF j.pre THEN s
               ELSE IF warm THEN [s EXCEPT !.use.warm[r] = @ + 1]
               ELSE [s EXCEPT !.use.svc[m][r] = @ + 1]
        b   == [id |-> j.id, cls |-> j.cls, real |-> r, arr |-> j.arr, wait |-> j.wait,
                end |-> s.now + dur, st |-> s.now,
                req |-> IF j.pre THEN j.req ELSE dur, got |-> j.got,
                net |-> j.net, nwait |-> j.nwait]
    IN  [s1 EXCEPT !.nd[m].busy = @ \cup {b}, !.nd[m].taken[j.cls] = @ + 1]

\* the best waiting job of node m takes the idle server
StartNext(c, s, m, d) ==
    LET nd == s.nd[m]
        L  == {k \in DOMAIN nd.lines : nd.lines[k] # <<>>}
    IN  IF L = {} THEN s
        ELSE LET k == SetMin(L)
                 h == Head(nd.lines[k])
                 wt == s.now - h.since
                 j == [h EXCEPT !.wait = @ + wt, !.nwait = @ + wt]
             IN  Start(c, [s EXCEPT !.nd[m].lines[k] = Tail(@)], m, j, d, FALSE)

\* an interrupted job goes to the tail of its line
Suspend(c, s, m, b, d) ==
    LET disc == c.node[m].disc
        rem == CASE disc = "PR" -> b.end - s.now
                 [] disc = "RW" -> b.req
                 [] disc = "RS" -> At(d.svc[m][b.real], s.use.svc[m][b.real] + 1)
        j == [id |-> b.id, cls |-> b.cls, real |-> b.real, arr |-> b.arr, wait |-> b.wait,
              since |-> s.now, pre |-> TRUE, rem |-> rem,
              req |-> IF disc = "RS" THEN rem ELSE b.req,
              got |-> IF disc = "PR" THEN b.got + (s.now - b.st) ELSE 0,
              net |-> b.net, nwait |-> b.nwait]
        s1 == IF disc = "RS" THEN [s EXCEPT !.use.svc[m][b.real] = @ + 1] ELSE s
    IN  [s1 EXCEPT !.nd[m].busy = @ \ {b}, !.nd[m].lines[b.cls] = Append(@, j)]

\* job j (class j.cls there) arrives at node m; set of possible outcomes
Enter(c, s0, m, j0, d) ==
    LET k    == c.cls[m][j0.real]
        cn   == c.node[m]
        j    == [j0 EXCEPT !.cls = k, !.arr = s0.now, !.since = s0.now, !.wait = 0, !.pre = FALSE,
                           !.rem = 0, !.req = 0, !.got = 0]
        s    == [s0 EXCEPT !.nd[m] = [Charge(@, k, s0.now) EXCEPT !.arrived[k] = @ + 1]]
        nd   == s.nd[m]
        full == Cardinality(nd.busy) = cn.n
        weaker == {b \in nd.busy : b.cls > k}
    IN  IF ~full
        THEN { Start(c, s, m, j, d, c.warm /\ nd.busy = {}) }
        ELSE IF cn.disc \in Preemptive /\ weaker # {}
        THEN LET low == SetMax({b.cls : b \in weaker})
             IN  { Start(c, Suspend(c, s, m, b, d), m, j, d, FALSE) :
                     b \in {x \in weaker : x.cls = low} }
        ELSE IF cn.buf >= 0 /\ Waiting(nd) >= cn.buf
        THEN { [s EXCEPT !.nd[m].dropped[k] = @ + 1, !.ids = IF c.M = 1 THEN @ - 1 ELSE @] }
        ELSE { [s EXCEPT !.nd[m].lines[LineOf(c, m, k)] = Append(@, j)] }

\* the job of b leaves node m
Leave(c, s0, m, b, d) ==
    LET k  == b.cls
        s1 == [s0 EXCEPT !.nd[m] = [Charge(@, k, s0.now) EXCEPT
                            !.busy = @ \ {b}, !.served[k] = @ + 1,
                            !.v[k] = AddM(@, s0.now - b.arr),
                            !.w[k] = AddM(@, b.wait)]]
    IN  StartNext(c, s1, m, d)

-----------------------------------------------------------------------------
NewJob(s, r) == [id |-> s.ids, cls |-> 0, real |-> r, arr |-> s.now, wait |-> 0, since |-> s.now,
                 pre |-> FALSE, rem |-> 0, req |-> 0, got |-> 0, net |-> s.now, nwait |-> 0]

ExternalArrival(c, s, r, d) ==
    LET s1 == [s EXCEPT !.now = s.arrs[r], !.arrs[r] = @ + At(d.arr[r], 1), !.use = [NoUse(c) EXCEPT !.arr[r] = 1],
                        !.arrived[r] = @ + 1, !.ids = @ + 1, !.ev = "arrival", !.done = {}]
    IN  UNION { Enter(c, s1, m, NewJob(s1, r), d) : m \in c.entry[r] }

Completion(c, s, m, b, d) ==
    LET r  == b.real
        s1 == [s EXCEPT !.now = b.end, !.use = NoUse(c), !.ev = "completion", !.done = {b}]
        s2 == Leave(c, s1, m, b, d)
        j  == [NewJob(s2, r) EXCEPT !.id = b.id, !.net = b.net, !.nwait = b.nwait]
    IN  UNION { IF x = c.M + 1
                THEN { [s2 EXCEPT !.served[r] = @ + 1,
                                  !.vN[r] = AddM(@, s2.now - b.net), !.wN[r] = AddM(@, b.nwait)] }
                ELSE Enter(c, s2, x, j, d)
                : x \in c.route[r][m] }

PendingTimes(c, s) ==
    {s.arrs[r] : r \in 1..c.K} \cup UNION { {b.end : b \in s.nd[m].busy} : m \in 1..c.M }

Succ(c, s, d) ==
    LET t == SetMin(PendingTimes(c, s))
    IN  UNION ({ ExternalArrival(c, s, r, d) : r \in {x \in 1..c.K : s.arrs[x] = t} }
               \cup UNION { { Completion(c, s, m, b, d) : b \in {x \in s.nd[m].busy : x.end = t} }
                            : m \in 1..c.M })

-----------------------------------------------------------------------------
JobsAt(nd) == UNION { {nd.lines[k][i].id : i \in DOMAIN nd.lines[k]} : k \in DOMAIN nd.lines }
              \cup {b.id : b \in nd.busy}

NodeInv(c, s, m) ==
    LET nd == s.nd[m]
        cn == c.node[m]
    IN /\ Waiting(nd) > 0 => Cardinality(nd.busy) = cn.n               \* work conserving
       /\ Cardinality(nd.busy) <= cn.n
       /\ Cardinality({b.id : b \in nd.busy}) = Cardinality(nd.busy)
       /\ \A k \in 1..c.K :                                            \* conservation by class
            nd.arrived[k] = nd.served[k] + nd.dropped[k] + Present(nd, k)
       /\ cn.disc \in Preemptive =>                                    \* no priority inversion
            \A k \in DOMAIN nd.lines : nd.lines[k] # <<>> => \A b \in nd.busy : b.cls <= k
       /\ cn.disc \notin Preemptive /\ cn.buf >= 0 => Waiting(nd) <= cn.buf
       /\ cn.disc # "No" => \A k \in DOMAIN nd.lines : \A i \in DOMAIN nd.lines[k] : nd.lines[k][i].cls = k
       /\ \A k \in DOMAIN nd.lines : \A i, j \in DOMAIN nd.lines[k] :   \* order of joining the line
            i < j => nd.lines[k][i].since <= nd.lines[k][j].since
       /\ cn.disc = "PR" => \A b \in nd.busy : b.got + (b.end - b.st) = b.req
       /\ cn.disc \in {"RW", "RS"} => \A b \in nd.busy : b.end - b.st = b.req
       /\ cn.disc \in {"No", "NP"} =>
            \A k \in DOMAIN nd.lines : \A i \in DOMAIN nd.lines[k] : ~nd.lines[k][i].pre
       /\ \A k \in 1..c.K :
            /\ SumFun(nd.pt[k]) = nd.told[k]
            \* Little's law by class on the sample path (PR and others alike)
            /\ LET area == SumFun([j \in DOMAIN nd.pt[k] |-> j * nd.pt[k][j]])
                   late == Present(nd, k) * (s.now - nd.told[k])
               IN  area + late = nd.v[k][1]
                     + SumFun([b \in {x \in nd.busy : x.cls = k} |-> s.now - b.arr])
                     + SumFun([q \in DOMAIN nd.lines |->
                               SumFun([i \in {x \in DOMAIN nd.lines[q] : nd.lines[q][x].cls = k}
                                       |-> s.now - nd.lines[q][i].arr])])

NetInv(c, s) ==
    /\ \A m \in 1..c.M : NodeInv(c, s, m)
    /\ \A m1, m2 \in 1..c.M : m1 # m2 => JobsAt(s.nd[m1]) \cap JobsAt(s.nd[m2]) = {}
    /\ \A r \in 1..c.K :
         s.arrived[r] = s.served[r]
            + SumFun([m \in 1..c.M |->
                 s.nd[m].dropped[c.cls[m][r]] + Present(s.nd[m], c.cls[m][r])])
    /\ \A t \in PendingTimes(c, s) : t >= s.now
Inv(c, s) == NetInv(c, s)

(* Contract of a single step (used as an action property by NetMC).        *)
StepContract(c, s, t, d) ==
    /\ t.now = SetMin(PendingTimes(c, s)) /\ t.now >= s.now
    /\ \A m \in 1..c.M :
         LET a == s.nd[m] z == t.nd[m] cn == c.node[m]
             gone == {b \in a.busy : \A y \in z.busy : y.id # b.id \/ y.st # b.st}
         IN \* who stops being served: the completing job, or one interrupted lowest-class job
            \A b \in gone :
               \/ b \in t.done
               \/ /\ cn.disc \in Preemptive
                  /\ \E y \in z.busy : y.st = t.now /\ y.cls < b.cls /\ y.wait = 0
                  /\ \A y \in z.busy : y.cls <= b.cls
=============================================================================
