---------------------------- MODULE ComposeTrace -----------------------------
(* Validates recorded runs: the table holds what the real rules said about each *)
(* block alone; each line of the trace is a run with its report.                *)
EXTENDS Compose, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == ndJsonDeserialize(IOEnv.TABLE)     (* one line per threshold class: t[block][rule] *)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Count(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
Same(a, b) == Len(a) = Len(b) /\ (a = b \/ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i]))
RECURSIVE Differs(_, _, _, _)
(* the first group (in report order) that is not as expected; 0 if there is none.  The order of verdicts within *)
(* the group of a file and a rule is left open.                                                                 *)
Differs(ks, o, k, at) ==
    IF k > Len(ks) THEN (IF at = Len(o) THEN 0 ELSE k)
    ELSE LET n == Len(ks[k])
         IN IF at + n <= Len(o) /\ Same(ks[k], SubSeq(o, at + 1, at + n)) THEN Differs(ks, o, k + 1, at + n) ELSE k
At(ks, n) == Len(CatUpTo(ks, n))
Check == LET ln == Trace[l]
             ks == Kept(Table[ln.lim].t, ln.files, ln.cmds, ln.rules, ln.dups)
             d == Differs(ks, ln.obs, 1, 0)
         IN IF d = 0 /\ (ln.again = ln.obs \/ ~ln.twice) THEN TRUE
            ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> IF d = 0 THEN [k |-> 0, want |-> <<>>, at |-> 0]
                                                         ELSE [k |-> d, want |-> IF d > Len(ks) THEN <<>> ELSE ks[d], at |-> At(ks, d - 1)]]))
=============================================================================
