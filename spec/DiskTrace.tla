------------------------------- MODULE DiskTrace --------------------------------
(* Each line of the trace is a run with the exit status, the destination of the   *)
(* report and the files that differ after it.                                     *)
EXTENDS Disk, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Check == LET e == Outcome(Trace[l].run)
         IN IF e = Trace[l].obs THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> e]))
=================================================================================
