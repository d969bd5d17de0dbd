-------------------------------- MODULE QSMC --------------------------------
(* Exhaustive exploration of QS within a bound: every draw from V, every    *)
(* resolution of simultaneous events, up to A arrivals.  Complete           *)
(* behaviours are printed as input scripts (EMIT) and replayed into the     *)
(* implementation by the harness.                                           *)
EXTENDS QS, TLC, Json

CONSTANTS Cfgs,      \* set of configurations
          V,         \* set of sampled durations
          A,         \* arrivals explored
          BMax,      \* largest batch
          Emit       \* print behaviours?

VARIABLES c, s, h

vars == <<c, s, h>>
Cap == A * BMax + 2

\* draws offered to a step; only the used prefix is recorded
DrawSpace(cc) ==
    LET one == {<<x>> : x \in V}
        no  == {<<>>}
    IN  [arr : one,
         svc : IF cc.n = 1 THEN one ELSE {<<x, y>> : x \in V, y \in V},
         warm : IF cc.warm THEN one ELSE no,
         cold : IF cc.cold THEN one ELSE no,
         delay : IF cc.delay THEN one ELSE no,
         imp : IF cc.kind = "imp" THEN one ELSE no,
         b : IF cc.kind = "batch" THEN 1..BMax ELSE {1}]

Streams == {"arr", "svc", "warm", "cold", "delay", "imp"}
Record(hh, d, u) == [x \in Streams |-> hh[x] \o SubSeq(d[x], 1, u[x])]

Init == /\ c \in Cfgs
        /\ \E x \in (IF c.kind = "finite"
                     THEN {f \in [1..c.m -> V] : \A i \in 1..(c.m - 1) : f[i] <= f[i + 1]}
                     ELSE {<<y>> : y \in V}) :
              /\ s = InitState(c, Cap, x)
              /\ h = [z \in Streams \cup {"b"} |-> IF z = "arr" THEN x ELSE <<>>]

Step == \E d \in DrawSpace(c) : \E t \in Succ(c, s, d) :
          /\ s' = t
          /\ h' = Record(h, d, t.use) @@
                  [b |-> IF c.kind = "batch" /\ t.ev = "arrival" THEN Append(h.b, d.b) ELSE h.b]
          /\ UNCHANGED c

Next == s.arrived < A /\ Step

Spec == Init /\ [][Next]_vars

Invariant == Inv(c, s)
EmitOK == (Emit /\ s.arrived >= A)
              => PrintT("EMIT " \o ToJson([cfg |-> c, h |-> h]))
\* no state other than a completed exploration is stuck
Live == s.arrived < A => PendingTimes(c, s) # {}

\* Refusal only when full, nobody served out of turn, phases only along the protocol
StepOK ==
    [][ /\ (s'.dropped - s'.reneged) > (s.dropped - s.reneged)
             => Len(s'.q) = c.buf /\ s'.ev = "arrival"
        /\ s'.now >= s.now /\ s'.now = SetMin(PendingTimes(c, s))
        /\ s.ph # s'.ph =>
             \/ s.ph = "none" /\ s'.ph \in {"warm", "cold", "delay"}
             \/ s.ph = "delay" /\ s'.ph \in {"none", "cold"}
             \/ s.ph = "cold" /\ s'.ph \in {"none", "warm"}
             \/ s.ph = "warm" /\ s'.ph = "none"
        /\ (s.ph = "cold" /\ s'.ph = "warm") => s.q # <<>>
        /\ (s.ph = "delay" /\ s'.ph = "none") => s'.ev = "arrival"
        /\ \A b \in s.busy : b \in s'.busy \/ s'.now = b.end
      ]_vars
=============================================================================
