---------------------------------- MODULE Disk ----------------------------------
(* What a run leaves on disk.  A compile command names files its build would      *)
(* write (its products); oclint compiles the same sources and writes none of      *)
(* them.  The one file a run may touch is its report, and that only in the report *)
(* stage: a run that ends before it leaves an older report as it was.             *)
(*                                                                                *)
(* A case c: rules, reporter - whether they are found; cmds - the compile         *)
(* commands of its sources, each with its kind and its products; glob; analyze;   *)
(* over - whether the violations exceed a limit; out - where the report goes:     *)
(* stdout, or a file that is new, old (exists), or cannot be opened (nodir, dir). *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
Rng(s) == {s[i] : i \in 1..Len(s)}
Stops(k) == k \in {"baddir", "nojob"}
ReportFile == "REPORT"
Opens(c) == c.out \in {"new", "old"}

(* the run: ph - the stage, i - the next command, disk - files that are not as    *)
(* they were, err - whether some compilation failed, to - where the report went   *)
Start == [ph |-> "rules", i |-> 1, disk |-> {}, err |-> FALSE, to |-> "nowhere", rc |-> -1]
End(s, code) == [s EXCEPT !.ph = "done", !.rc = code]
Step(c, s) ==
  CASE s.ph = "rules" -> IF c.rules THEN [s EXCEPT !.ph = "reporter"] ELSE End(s, 1)
    [] s.ph = "reporter" -> IF c.reporter THEN [s EXCEPT !.ph = "compile"] ELSE End(s, 2)
    [] s.ph = "compile" ->
         IF s.i > Len(c.cmds) THEN [s EXCEPT !.ph = "report"]
         ELSE LET m == c.cmds[s.i]
              IN IF Stops(m.kind) THEN End(s, 3)
                 ELSE [s EXCEPT !.i = @ + 1, !.err = @ \/ m.kind = "err"]
    [] s.ph = "report" -> IF c.out = "stdout" THEN [s EXCEPT !.ph = "exit", !.to = "stdout"]
                          ELSE IF Opens(c) THEN [s EXCEPT !.ph = "exit", !.to = "file", !.disk = @ \cup {ReportFile}]
                          ELSE End(s, 4)
    [] s.ph = "exit" -> End(s, IF s.err THEN 6 ELSE IF c.over /\ \E i \in 1..Len(c.cmds) : c.cmds[i].kind = "ok" THEN 5 ELSE 0)
RECURSIVE Run(_, _)
Run(c, s) == IF s.ph = "done" THEN s ELSE Run(c, Step(c, s))
Outcome(c) == LET s == Run(c, Start) IN [rc |-> s.rc, to |-> s.to, changed |-> SetToSeq(s.disk)]
=================================================================================
