------------------------------- MODULE QSTrace -------------------------------
(* Conformance: every step recorded from the implementation must be a step  *)
(* of QS from the specification state reached so far.  All traces of a file *)
(* are checked in one run; each ends in exactly one VERDICT line.           *)
EXTENDS QS, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
ResyncMax == IF IOEnv.RESYNC = "3" THEN 3 ELSE 0

VARIABLES tr, i, s, bad, rs

vars == <<tr, i, s, bad, rs>>

Cfg(t) == Traces[t].cfg
Steps(t) == Traces[t].steps

SeqSet(x) == {x[k] : k \in DOMAIN x}
PadEq(f, x) == Len(x) <= Cardinality(DOMAIN f) /\ \A j \in DOMAIN f : f[j] = (IF j + 1 <= Len(x) THEN x[j + 1] ELSE 0)

\* sums that are known (see AddM) must be equal
Other(x, y) == \E k \in DOMAIN x : x[k] >= 0 /\ x[k] # y[k]

CoreDiff(c, t, o) ==
       (IF t.now # o.now THEN {"now"} ELSE {})
  \cup (IF t.arrs # o.arrs THEN {"arrs"} ELSE {})
  \cup (IF [k \in DOMAIN t.q |-> t.q[k].id] # o.q THEN {"q"} ELSE {})
  \cup (IF {<<b.id, b.end>> : b \in t.busy} # SeqSet(o.busy) \/ Len(o.busy) # Cardinality(t.busy)
        THEN {"busy"} ELSE {})
  \cup (IF t.ph # o.ph \/ t.pend # o.pend THEN {"phase"} ELSE {})

CountDiff(c, t, o) ==
       (IF t.arrived # o.arrived THEN {"arrived"} ELSE {})
  \cup (IF t.served # o.served THEN {"served"} ELSE {})
  \cup (IF t.dropped # o.dropped THEN {"dropped"} ELSE {})
  \cup (IF t.taken # o.taken THEN {"taken"} ELSE {})
  \cup (IF InSys(t) # o.insys THEN {"insys"} ELSE {})
  \cup (IF c.n - InService(t) # o.free THEN {"free"} ELSE {})

AuxDiff(c, t, d, o) ==
       CountDiff(c, t, o)
  \cup (IF Other(t.w, o.w) THEN {"w"} ELSE {})
  \cup (IF Other(t.v, o.v) THEN {"v"} ELSE {})
  \cup (IF ~PadEq(t.pt, o.p) THEN {"p"} ELSE {})
  \cup (IF Other(t.bp, o.bp) \/ (t.bc >= 0 /\ t.bc # o.bc) THEN {"bp"} ELSE {})
  \cup (IF o.zerow >= 0 /\ t.zerow # o.zerow THEN {"zerow"} ELSE {})
  \cup (IF <<t.warmT, t.coldT, t.delayT>> # o.pht THEN {"pht"} ELSE {})
  \cup (IF <<t.warmN, t.coldN, t.delayN, t.wac>> # o.phn THEN {"phn"} ELSE {})
  \cup (IF \E x \in DOMAIN t.use : t.use[x] # Len(d[x]) THEN {"draws"} ELSE {})

\* the same history driven through run(N) must end in the same state, with
\* exactly N jobs served (mode 1) or after exactly N steps (mode 0)
RunDiff(t, r, k) ==
    IF r = <<>> THEN {} ELSE
    LET x == r[1] IN
    IF /\ x.now = t.now /\ x.arrs = t.arrs /\ x.arrived = t.arrived /\ x.served = t.served
       /\ x.dropped = t.dropped /\ x.taken = t.taken /\ x.insys = InSys(t)
       /\ x.w = t.w /\ x.v = t.v /\ PadEq(t.pt, x.p)
       /\ (x.mode = 1 => t.served = x.total)
       /\ (x.mode = 0 => k = x.total)
    THEN {} ELSE {"run"}

FinDiff(c, t, f) ==
    IF f = <<>> THEN {} ELSE
       (IF ~PadEq(t.pt, f[1]) THEN {"getp"} ELSE {})
  \cup (IF <<t.warmT, t.coldT, t.delayT>> # f[2] THEN {"getph"} ELSE {})

\* adopt the observed state after a mismatch, so that later steps are still judged
Resync(c, t, d, o) ==
    LET arrOf(x) == IF \E b \in t.busy : b.id = x THEN (CHOOSE b \in t.busy : b.id = x).arr
                    ELSE IF \E k \in DOMAIN t.q : t.q[k].id = x
                         THEN t.q[CHOOSE k \in DOMAIN t.q : t.q[k].id = x].arr
                    ELSE o.now
        leaveOf(x) == IF \E k \in DOMAIN t.q : t.q[k].id = x
                      THEN t.q[CHOOSE k \in DOMAIN t.q : t.q[k].id = x].leave
                      ELSE o.now + At(d.imp, 1)
    IN [t EXCEPT !.now = o.now, !.arrs = o.arrs,
          !.q = [k \in DOMAIN o.q |-> [id |-> o.q[k], arr |-> arrOf(o.q[k]), leave |-> leaveOf(o.q[k])]],
          !.busy = {[id |-> b[1], arr |-> arrOf(b[1]), end |-> b[2]] : b \in SeqSet(o.busy)},
          !.ph = o.ph, !.pend = o.pend,
          !.pst = IF t.ph = o.ph /\ t.pend = o.pend THEN t.pst ELSE o.now,
          !.arrived = o.arrived, !.served = o.served, !.dropped = o.dropped,
          !.taken = o.taken, !.accepted = o.seen,
          !.w = o.w, !.wc = o.wc, !.v = o.v, !.vc = o.vc,
          !.pt = [j \in DOMAIN @ |-> IF j + 1 <= Len(o.p) THEN o.p[j + 1] ELSE 0],
          !.bp = o.bp, !.bc = o.bc,
          !.bst = IF Len(o.busy) = c.n /\ Cardinality(t.busy) < c.n THEN o.now ELSE @,
          !.zerow = o.zerow,
          !.warmT = o.pht[1], !.coldT = o.pht[2], !.delayT = o.pht[3],
          !.warmN = o.phn[1], !.coldN = o.phn[2], !.delayN = o.phn[3], !.wac = o.phn[4]]

-----------------------------------------------------------------------------
Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ s = InitState(Cfg(tr), Traces[tr].cap, Traces[tr].arrs)
        /\ bad = IF Traces[tr].d0 = Traces[tr].arrs THEN {} ELSE {<<"arrs", 0>>, <<"draws", 0>>}
        /\ rs = 0

Tag(S) == {<<x, i>> : x \in {y \in S : \A z \in bad : z[1] # y}}

Next ==
    /\ i <= Len(Steps(tr)) /\ rs < 9
    /\ LET c == Cfg(tr)
           e == Steps(tr)[i]
           cand == Succ(c, s, e.d)
           good == {t \in cand : CoreDiff(c, t, e.o) = {}}
           Score(t) == Cardinality(CoreDiff(c, t, e.o)) * 100 + Cardinality(AuxDiff(c, t, e.d, e.o))
           Best(S) == CHOOSE t \in S : \A u \in S : Score(t) <= Score(u)
       IN  IF good # {}
           THEN LET t == Best(good)
                IN  /\ s' = t
                    /\ bad' = bad \cup Tag(AuxDiff(c, t, e.d, e.o) \cup FinDiff(c, t, e.fin)
                                        \cup RunDiff(t, e.run, i))
                                  \cup (IF rs = 0 /\ ~Inv(c, t) THEN {<<"INV", i>>} ELSE {})
                    /\ rs' = rs
           ELSE IF e.o.ph = "crash"
           THEN bad' = bad \cup Tag({"crash"}) /\ s' = s /\ rs' = 9
           ELSE /\ bad' = bad \cup Tag(IF cand = {} THEN {"noevent"}
                                       ELSE CoreDiff(c, Best(cand), e.o)
                                            \cup CountDiff(c, Best(cand), e.o))
                /\ IF rs < ResyncMax /\ e.o.ph \in {"none", "warm", "cold", "delay"}
                   THEN s' = Resync(c, s, e.d, e.o) /\ rs' = rs + 1
                   ELSE s' = s /\ rs' = 9
    /\ i' = i + 1
    /\ UNCHANGED tr

Done == (i > Len(Steps(tr)) \/ rs >= 9)
          => PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> i - 1, ev |-> s.ev, bad |-> bad]))

Spec == Init /\ [][Next]_vars
=============================================================================
