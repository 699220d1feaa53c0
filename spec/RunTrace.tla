------------------------------- MODULE RunTrace --------------------------------
(* Recorded runs against Run: trace t is accepted when some behaviour of the     *)
(* scenario produces exactly its events in order and then its outcome.           *)
EXTENDS RunLaws, Json, IOUtils
VARIABLES t, l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == "DIAG" \in DOMAIN IOEnv
Init == t \in 1..Len(Trace) /\ l = 0 /\ st = InitState
Next == \E x \in Succ(Trace[t].sc, st) :
          /\ st' = x.st
          /\ t' = t
          /\ IF x.ev = <<>> THEN l' = l
             ELSE /\ l < Len(Trace[t].ev)
                  /\ Trace[t].ev[l + 1] = x.ev[1]
                  /\ l' = l + 1
Accepted == st.ph = "done" /\ l = Len(Trace[t].ev) /\ Outcome(st) = Trace[t].fin
Accept == /\ Accepted => PrintT("@@" \o ToJson([t |-> t, ok |-> TRUE]))
          /\ Diagnose => PrintT("@@" \o ToJson([t |-> t, ok |-> FALSE, l |-> l, ph |-> st.ph,
                exp |-> IF st.ph = "done" THEN Outcome(st) ELSE [next |-> {x.ev : x \in Succ(Trace[t].sc, st)}]]))
Config == ConfigLaw(Trace[t].sc, st)
Select == SelectLaw(Trace[t].sc, st)
Load == LoadLaw(Trace[t].sc, st)
ExitStatus == ExitLaw(Trace[t].sc, st)
Analysis == AnalysisLaw(Trace[t].sc, st)
Views == ViewLaw(Trace[t].sc, st)
===============================================================================
