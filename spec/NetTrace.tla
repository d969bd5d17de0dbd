------------------------------- MODULE NetTrace -------------------------------
(* Conformance of recorded priority-queue and network histories with Net.   *)
EXTENDS Net, TLC, Json, IOUtils
Raw == JsonDeserialize(IOEnv.TRACES)
SeqSet(x) == {x[k] : k \in DOMAIN x}
\* JSON has no sets: entry/route come as sequences
MkCfg(x) == [K |-> x.K, M |-> x.M, node |-> x.node, cls |-> x.cls, warm |-> x.warm,
             entry |-> [r \in 1..x.K |-> SeqSet(x.entry[r])],
             route |-> [r \in 1..x.K |-> [m \in 1..x.M |-> SeqSet(x.route[r][m])]]]
VARIABLES tr, i, s, bad, rs
vars == <<tr, i, s, bad, rs>>
Cfg(t) == MkCfg(Raw[t].cfg)
Steps(t) == Raw[t].steps
PadEq(f, x) == \A j \in DOMAIN f : f[j] = (IF j + 1 <= Len(x) THEN x[j + 1] ELSE 0)
Ids(q) == [k \in DOMAIN q |-> q[k].id]

CoreDiff(c, t, o) ==
       (IF t.now # o.now THEN {"now"} ELSE {})
  \cup (IF t.arrs # o.arrs THEN {"arrs"} ELSE {})
  \cup (IF \E m \in 1..c.M : [k \in 1..c.K |-> Ids(t.nd[m].lines[k])] # o.nd[m].lines THEN {"lines"} ELSE {})
  \cup (IF \E m \in 1..c.M : {b.id : b \in t.nd[m].busy} # {b[1] : b \in SeqSet(o.nd[m].busy)} THEN {"serving"}
        ELSE IF \E m \in 1..c.M : {<<b.id, b.end>> : b \in t.nd[m].busy} # SeqSet(o.nd[m].busy)
                                  \/ Len(o.nd[m].busy) # Cardinality(t.nd[m].busy) THEN {"ends"} ELSE {})

CountDiff(c, t, o) ==
       (IF \E m \in 1..c.M : t.nd[m].arrived # o.nd[m].arrived \/ t.nd[m].served # o.nd[m].served THEN {"counts"} ELSE {})
  \cup (IF \E m \in 1..c.M : t.nd[m].dropped # o.nd[m].dropped THEN {"dropped"} ELSE {})
  \cup (IF \E m \in 1..c.M : [k \in 1..c.K |-> Present(t.nd[m], k)] # o.nd[m].insys THEN {"insys"} ELSE {})
  \cup (IF \E m \in 1..c.M : c.node[m].n - Cardinality(t.nd[m].busy) # o.nd[m].free THEN {"free"} ELSE {})
  \cup (IF o.net # <<>> /\ (t.served # o.net[1].served \/ t.arrived # o.net[1].arrived
              \/ [r \in 1..c.K |-> t.arrived[r] - t.served[r]] # o.net[1].insys) THEN {"netcounts"} ELSE {})

AuxDiff(c, t, d, o) ==
       CountDiff(c, t, o)
  \cup (IF \E m \in 1..c.M : t.nd[m].taken # o.nd[m].taken THEN {"taken"} ELSE {})
  \cup (IF \E m \in 1..c.M : t.nd[m].w # o.nd[m].w THEN {"w"} ELSE {})
  \cup (IF \E m \in 1..c.M : t.nd[m].v # o.nd[m].v THEN {"v"} ELSE {})
  \cup (IF \E m \in 1..c.M : \E k \in 1..c.K : ~PadEq(t.nd[m].pt[k], o.nd[m].p[k]) THEN {"p"} ELSE {})
  \cup (IF o.net # <<>> /\ t.vN # o.net[1].v THEN {"vnet"} ELSE {})
  \cup (IF o.net # <<>> /\ t.wN # o.net[1].w THEN {"wnet"} ELSE {})
  \cup (IF \/ \E r \in 1..c.K : t.use.arr[r] # Len(d.arr[r]) \/ t.use.warm[r] # Len(d.warm[r])
           \/ \E m \in 1..c.M : \E r \in 1..c.K : t.use.svc[m][r] # Len(d.svc[m][r]) THEN {"draws"} ELSE {})

FinDiff(c, t, f) ==
    IF f = <<>> THEN {} ELSE
    IF \E k \in 1..c.K : ~PadEq(t.nd[1].pt[k], f[1][k]) THEN {"getp"} ELSE {}
RunDiff(c, t, r, k) ==
    IF r = <<>> THEN {} ELSE
    LET x == r[1] IN
    IF x.now = t.now /\ x.arrs = t.arrs /\ x.served = t.served
       /\ (x.mode = 1 => SumFun(t.served) = x.total) /\ (x.mode = 0 => k = x.total)
    THEN {} ELSE {"run"}

Init == /\ tr \in DOMAIN Raw /\ i = 1 /\ s = InitState(Cfg(tr), Raw[tr].cap, Raw[tr].arrs) /\ rs = 0
        \* one first interval per class, drawn once
        /\ bad = IF Raw[tr].d0 = [r \in 1..Cfg(tr).K |-> <<Raw[tr].arrs[r]>>] THEN {} ELSE {<<"arrs", 0>>, <<"draws", 0>>}
Tag(S) == {<<x, i>> : x \in {y \in S : \A z \in bad : z[1] # y}}
Next ==
    /\ i <= Len(Steps(tr)) /\ rs = 0
    /\ LET c == Cfg(tr)
           e == Steps(tr)[i]
           cand == Succ(c, s, e.d)
           good == {t \in cand : CoreDiff(c, t, e.o) = {}}
           Score(t) == Cardinality(CoreDiff(c, t, e.o)) * 100 + Cardinality(AuxDiff(c, t, e.d, e.o))
           Best(S) == CHOOSE t \in S : \A u \in S : Score(t) <= Score(u)
       IN  IF e.crash THEN bad' = bad \cup Tag({"crash"}) /\ s' = s /\ rs' = 1
           ELSE IF good # {}
           THEN LET t == Best(good)
                IN  /\ s' = t /\ rs' = rs
                    /\ bad' = bad \cup Tag(AuxDiff(c, t, e.d, e.o) \cup FinDiff(c, t, e.fin) \cup RunDiff(c, t, e.run, i))
                                  \cup (IF ~Inv(c, t) THEN {<<"INV", i>>} ELSE {})
           ELSE /\ bad' = bad \cup Tag(IF cand = {} THEN {"noevent"}
                                       ELSE CoreDiff(c, Best(cand), e.o) \cup CountDiff(c, Best(cand), e.o))
                /\ s' = s /\ rs' = 1
    /\ i' = i + 1 /\ UNCHANGED tr
Done == (i > Len(Steps(tr)) \/ rs = 1)
          => PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> i - 1, bad |-> bad]))
Spec == Init /\ [][Next]_vars
=============================================================================
