------------------------------- MODULE Stages --------------------------------
(* Durations made of exponential stages.  A configuration lists parts, each *)
(* a phase-type law (init, out as in Markov); mode "seq": the parts run one *)
(* after the other (a sum), mode "par": they run side by side and the       *)
(* duration ends when need of them are done (maximum, order statistic).     *)
(* TLC enumerates the stages and prints each with its transitions.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.CFGS)
VARIABLES ci, s
vars == <<ci, s>>
C == Cfgs[ci]

(* s.x[i]: 0 = part i done, -1 = not begun, otherwise its stage; s.b: begun? *)
Fin == [x |-> <<>>]
N(c) == Len(c.parts)
Done(c, x) == Cardinality({i \in 1..N(c) : x[i] = 0})
Over(c, x) == Done(c, x) >= c.need
Norm(c, x) == IF Over(c, x) THEN Fin ELSE [x |-> x]

\* all ways of starting part i: [x, f]
StartPart(c, w, i) == { [x |-> [w.x EXCEPT ![i] = c.parts[i].init[q][1]], f |-> w.f \o c.parts[i].init[q][2]] :
                        q \in DOMAIN c.parts[i].init }
RECURSIVE StartAll(_, _, _)
StartAll(c, W, i) == IF i > N(c) THEN W ELSE StartAll(c, UNION {StartPart(c, w, i) : w \in W}, i + 1)

\* the beginning of the duration is a state of its own, left at rate 1 (weight only)
Begin == [x |-> <<-2>>]
Opening(c) == LET w0 == [x |-> [i \in 1..N(c) |-> -1], f |-> <<>>]
              IN  IF c.mode = "par" THEN StartAll(c, {w0}, 1) ELSE StartPart(c, w0, 1)

After(c, x, i, f) ==   \* part i has just completed
    LET d == [x EXCEPT ![i] = 0]
    IN  IF c.mode = "seq" /\ i < N(c) THEN StartPart(c, [x |-> d, f |-> f], i + 1) ELSE {[x |-> d, f |-> f]}

Trans(c, t) ==
    IF t = Fin THEN {}
    ELSE IF t = Begin THEN { [t |-> Norm(c, w.x), m |-> 1, f |-> w.f, ev |-> "begin"] : w \in Opening(c) }
    ELSE UNION { IF t.x[i] <= 0 THEN {} ELSE
                 UNION { LET o == c.parts[i].out[t.x[i]][j] IN
                         IF o[1] # 0 THEN {[t |-> [x |-> [t.x EXCEPT ![i] = o[1]]], m |-> 1, f |-> o[2], ev |-> <<i, t.x[i], j>>]}
                         ELSE { [t |-> Norm(c, w.x), m |-> 1, f |-> w.f, ev |-> <<i, t.x[i], j>>] : w \in After(c, t.x, i, o[2]) }
                         : j \in DOMAIN c.parts[i].out[t.x[i]] }
                 : i \in 1..N(c) }

Init == ci \in DOMAIN Cfgs /\ s = Begin
Next == \E e \in Trans(C, s) : s' = e.t /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Moving == s \notin {Fin, Begin}
TypeOK == Moving => \A i \in 1..N(C) : s.x[i] \in -1..Len(C.parts[i].out)
OneAtATime == (Moving /\ C.mode = "seq") => Cardinality({i \in 1..N(C) : s.x[i] > 0}) = 1
AllRun == (Moving /\ C.mode = "par") => \A i \in 1..N(C) : s.x[i] >= 0
NotOver == Moving => ~Over(C, s.x)
Alive == s # Fin => Trans(C, s) # {}
(* every completion brings the end nearer: no transition undoes a done part *)
Monotone == Moving => \A e \in Trans(C, s) : e.t = Fin \/ (\A i \in 1..N(C) : s.x[i] = 0 => e.t.x[i] = 0)
Emit == PrintT("ST " \o ToJson([c |-> ci, s |-> s, out |-> Trans(C, s)]))
=============================================================================
