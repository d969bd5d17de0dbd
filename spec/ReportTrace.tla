------------------------------ MODULE ReportTrace -----------------------------
(* Conformance: a case also carries what the implementation printed: title   *)
(* and rows (got).  The rows are compared one by one with the printing of    *)
(* the specification.                                                        *)
EXTENDS Report, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, p, bad
vars == <<tr, p, bad>>
C == Cases[tr]
Init == tr \in DOMAIN Cases /\ p = Begin(Cases[tr])
        /\ bad = IF Cases[tr].err # "" THEN {<<"crash", 0>>} ELSE IF Cases[tr].title # Begin(Cases[tr]).title THEN {<<"title", 0>>} ELSE {}
Next == /\ More(C, p) /\ C.err = ""
        /\ p' = Print(C, p)
        /\ LET k == Len(p'.out)
           IN  bad' = bad \cup (IF k > Len(C.got) THEN {<<"missing", k>>} ELSE
                                (IF C.got[k][1] # p'.out[k][1] THEN {<<"label", k>>} ELSE {})
                           \cup (IF C.got[k][2] # p'.out[k][2] THEN {<<"calc", k>>} ELSE {})
                           \cup (IF C.got[k][3] # p'.out[k][3] THEN {<<"sim", k>>} ELSE {}))
        /\ UNCHANGED tr
Final == bad \cup (IF Len(C.got) > Len(p.out) THEN {<<"extra", Len(p.out)>>} ELSE {})
Done == (~More(C, p) \/ C.err # "") =>
            PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> Len(p.out), bad |-> Final]))
Spec == Init /\ [][Next]_vars
=============================================================================
