------------------------------- MODULE GraphTrace -----------------------------
(* Conformance: a case has the matrix (m), the edges (got: <<from, to,       *)
(* label>>), the places shown (places; -1 none reported) and the coloured    *)
(* places of the graph the implementation made.                              *)
EXTENDS Graph, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, g
C == Cases[tr]
Set(q) == {q[i] : i \in DOMAIN q}
Ends(E) == {e[1] : e \in E} \cup {e[2] : e \in E}
Bad == IF C.err # "" THEN {"crash"} ELSE
       LET got == Set(C.got) pairs(E) == {<<e[1], e[2]>> : e \in E}
       IN  (IF pairs(got) # pairs(g.edges) THEN {"edges"} ELSE IF got # g.edges THEN {"label"} ELSE {})
           \cup (IF Len(C.got) # Cardinality(got) THEN {"twice"} ELSE {})
           \cup (IF Set(C.places) # (IF C.engine = "graphviz" THEN Places(C.m) ELSE Ends(g.edges)) THEN {"places"} ELSE {})
           \cup (IF Set(C.coloured) # (IF C.colour = 1 THEN {0, Len(C.m)} ELSE {}) THEN {"colour"} ELSE {})
Init == tr \in DOMAIN Cases /\ g = Begin(Cases[tr].m)
Next == More(C.m, g) /\ g' = Draw(C.m, g) /\ UNCHANGED tr
Done == ~More(C.m, g) => PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> g.at - 1, bad |-> {<<b, g.at - 1>> : b \in Bad}]))
Spec == Init /\ [][Next]_<<tr, g>>
===============================================================================
