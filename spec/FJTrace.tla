------------------------------- MODULE FJTrace --------------------------------
(* Conformance of recorded fork-join / split-join histories with FJ.        *)
EXTENDS FJ, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s, bad, rs
vars == <<tr, i, s, bad, rs>>
Cfg(t) == Traces[t].cfg
Steps(t) == Traces[t].steps
SeqSet(x) == {x[k] : k \in DOMAIN x}
PadEq(f, x) == \A j \in DOMAIN f : f[j] = (IF j + 1 <= Len(x) THEN x[j + 1] ELSE 0)
\* observed pairs <<task, time>> as a bag against specification records
BagEq(S, obs, F(_)) ==
    /\ Cardinality(S) = Len(obs)
    /\ \A y \in S : Cardinality({z \in S : F(z) = F(y)}) = Cardinality({k \in DOMAIN obs : obs[k] = F(y)})
Lines(t) == [k \in DOMAIN t.lines |-> [j \in DOMAIN t.lines[k] |-> t.lines[k][j].t]]
CoreDiff(c, t, o) ==
       (IF t.now # o.now THEN {"now"} ELSE {})
  \cup (IF t.arr # o.arr THEN {"arrs"} ELSE {})
  \cup (IF Lines(t) # o.lines THEN {"lines"} ELSE {})
  \cup (IF ~BagEq(t.busy, o.busy, LAMBDA y : IF c.kind = "fj" THEN <<y.x, y.t, y.end>> ELSE <<0, y.t, y.end>>)
        THEN {"busy"} ELSE {})
  \cup (IF ~BagEq(t.pend, o.pend, LAMBDA y : <<y.t, y.at>>) THEN {"pend"} ELSE {})
CountDiff(c, t, o) ==
       (IF t.arrived # o.arrived \/ t.served # o.served THEN {"counts"} ELSE {})
  \cup (IF InSys(t) # o.insys THEN {"insys"} ELSE {})
  \cup (IF Subs(t) # o.subs THEN {"subs"} ELSE {})
  \cup (IF o.free # c.n - Cardinality(t.busy) THEN {"free"} ELSE {})
AuxDiff(c, t, d, o) ==
       CountDiff(c, t, o)
  \cup (IF t.v # o.v THEN {"v"} ELSE {})
  \cup (IF ~PadEq(t.pt, o.p) THEN {"p"} ELSE {})
  \cup (IF t.used # Len(d.svc) \/ (IF t.ev = "arrival" THEN 1 ELSE 0) # Len(d.arr) THEN {"draws"} ELSE {})
FinDiff(t, f) == IF f # <<>> /\ ~PadEq(t.pt, f[1]) THEN {"getp"} ELSE {}
RunDiff(t, r, k) ==
    IF r = <<>> THEN {} ELSE
    LET x == r[1] IN
    IF x.now = t.now /\ x.arr = t.arr /\ x.served = t.served /\ x.v = t.v
       /\ (x.mode = 1 => t.served = x.total) /\ (x.mode = 0 => k = x.total) THEN {} ELSE {"run"}
Init == tr \in DOMAIN Traces /\ i = 1 /\ s = InitState(Cfg(tr), Traces[tr].cap, Traces[tr].arr) /\ rs = 0
        /\ bad = IF Traces[tr].d0 = <<Traces[tr].arr>> THEN {} ELSE {<<"arrs", 0>>, <<"draws", 0>>}
Tag(S) == {<<x, i>> : x \in {y \in S : \A z \in bad : z[1] # y}}
Next ==
    /\ i <= Len(Steps(tr)) /\ rs = 0
    /\ LET c == Cfg(tr)
           e == Steps(tr)[i]
           cand == Succ(c, s, e.d)
           good == {t \in cand : CoreDiff(c, t, e.o) = {}}
           Score(t) == Cardinality(CoreDiff(c, t, e.o)) * 100 + Cardinality(AuxDiff(c, t, e.d, e.o))
           Best(S) == CHOOSE t \in S : \A u \in S : Score(t) <= Score(u)
       IN  IF e.crash THEN bad' = bad \cup Tag({"crash"}) /\ s' = s /\ rs' = 1
           ELSE IF good # {}
           THEN LET t == Best(good)
                IN  /\ s' = t /\ rs' = rs
                    /\ bad' = bad \cup Tag(AuxDiff(c, t, e.d, e.o) \cup FinDiff(t, e.fin) \cup RunDiff(t, e.run, i))
                                  \cup (IF ~Inv(c, t) THEN {<<"INV", i>>} ELSE {})
           ELSE /\ bad' = bad \cup Tag(CoreDiff(c, Best(cand), e.o) \cup CountDiff(c, Best(cand), e.o))
                /\ s' = s /\ rs' = 1
    /\ i' = i + 1 /\ UNCHANGED tr
Done == (i > Len(Steps(tr)) \/ rs = 1)
          => PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> i - 1, bad |-> bad]))
Spec == Init /\ [][Next]_vars
=============================================================================
