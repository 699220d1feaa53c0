--------------------------- MODULE SuppressTrace -----------------------------
(* Validates recorded runs: each line holds the compilations of a run (one view *)
(* each: declarations, comment lines, verdicts without suppression) and what    *)
(* was reported with the suppressions in place.                                 *)
EXTENDS Suppress, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
RECURSIVE CatUpTo(_, _)
CatUpTo(F, n) == IF n = 0 THEN <<>> ELSE CatUpTo(F, n - 1) \o F[n]
Left(w) == LET r == Remaining(w.ds, RangeOf(w.cs), w.vs) IN [i \in 1..Len(r) |-> r[i].id]
Expected(ln) == LET F == [k \in 1..Len(ln.views) |-> Left(ln.views[k])] IN CatUpTo(F, Len(F))
Count(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
Check == LET ln == Trace[l]
             e == Expected(ln)
         IN IF Len(e) = Len(ln.obs) /\ \A i \in 1..Len(e) : Count(e, e[i]) = Count(ln.obs, e[i]) THEN TRUE
            ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> e]))
=============================================================================
