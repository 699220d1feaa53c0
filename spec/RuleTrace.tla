------------------------------ MODULE RuleTrace ------------------------------
(* Validates recorded applications of rules: each line of the trace holds the   *)
(* program a rule was applied to and the violations the implementation          *)
(* reported, and is accepted exactly when the specification reports the same.   *)
EXTENDS Verdicts, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Range2(s) == {s[i] : i \in 1..Len(s)}
Check == LET ln == Trace[l]
             e == Expected(ln)
             o == {<<x[1], x[2], x[3]>> : x \in Range2(ln.obs)}
         IN IF e = o /\ Cardinality(e) = Len(ln.obs) THEN TRUE
            ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> e]))
=============================================================================
