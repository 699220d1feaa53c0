------------------------------ MODULE ReportTrace -------------------------------
(* Each line of the trace is a set of results with what was read back from each   *)
(* of its reports.                                                                *)
EXTENDS Report, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Check == LET t == Trace[l]
             bad == {f \in DOMAIN t.obs : Doc(t.run, f) # t.obs[f]}
         IN IF bad = {} THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> [f \in bad |-> Doc(t.run, f)]]))
=================================================================================
