----------------------------- MODULE ResultsTrace ------------------------------
(* Recorded histories of the real collection: each line holds the table, the      *)
(* operations and both views as the implementation answered.                      *)
EXTENDS Results, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Check == LET e == Both(Trace[l].tab, Trace[l].ops)
         IN IF e = Trace[l].obs THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> e]))
===============================================================================
