---------------------------- MODULE SamplerTrace -----------------------------
(* Conformance: a recorded history of draws by the real samplers (states of  *)
(* all generators numbered by content, values numbered by content).          *)
EXTENDS Sampler, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, gs, facts, bad
vars == <<tr, k, gs, facts, bad>>
D(t) == Cases[t].draws
Cur == D(tr)[k]
Init == tr \in DOMAIN Cases /\ k = 1 /\ gs = Cases[tr].init /\ facts = {} /\ bad = {}
Miss == {c \in {"isolation", "reproducible", "own", "constant", "reseed"} :
    \/ c = "isolation" /\ Cur.op = "draw" /\ ~Others(gs, Cur.after, Cur.g)
    \/ c = "reproducible" /\ Cur.op = "draw" /\ ~Agrees(facts, Cur.law, gs[Cur.g], Cur.val, Cur.after[Cur.g])
    \/ c = "own" /\ Cur.op = "draw" /\ Cur.const = 0 /\ ~Moves(FALSE, gs[Cur.g], Cur.after[Cur.g])
    \/ c = "constant" /\ Cur.op = "draw" /\ Cur.const = 1 /\ (~Moves(TRUE, gs[Cur.g], Cur.after[Cur.g]) \/ Cur.val # Cur.law)
    \/ c = "reseed" /\ Cur.op = "reseed" /\ ~Others(gs, Cur.after, Cur.g) }
Next ==
    /\ k <= Len(D(tr))
    /\ bad' = bad \cup {<<c, k>> : c \in Miss}
    /\ gs' = Cur.after
    /\ facts' = IF Cur.op = "draw" THEN Learn(facts, Cur.law, gs[Cur.g], Cur.val, Cur.after[Cur.g]) ELSE facts
    /\ k' = k + 1
    /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Final == bad \cup (IF Cases[tr].err # "" THEN {<<"crash", k>>} ELSE {})
Done == k > Len(D(tr)) => PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> k - 1, bad |-> Final]))
=============================================================================
