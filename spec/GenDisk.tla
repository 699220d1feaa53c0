-------------------------------- MODULE GenDisk ---------------------------------
(* All runs over up to MaxCmds commands of the given products, step by step, with *)
(* the laws as invariants of every step.                                          *)
EXTENDS Disk, Json
CONSTANTS MaxCmds, Products
VARIABLES c, s
Cmds == UNION {[1..n -> [kind : {"ok", "err", "baddir", "nojob"}, prod : Products \cup {""}]] : n \in 0..MaxCmds}
Init == /\ c \in [rules : BOOLEAN, reporter : BOOLEAN, cmds : Cmds, glob : BOOLEAN, analyze : BOOLEAN, over : BOOLEAN,
                  out : {"stdout", "new", "old", "nodir", "dir"}]
        /\ (~c.rules \/ ~c.reporter) => (Len(c.cmds) <= 1 /\ ~(~c.rules /\ ~c.reporter))
        /\ (c.cmds = <<>> => ~c.over)
        /\ s = Start
Next == s.ph # "done" /\ s' = Step(c, s) /\ c' = c
Wanted == {c.cmds[i].prod : i \in 1..Len(c.cmds)}
Laws == /\ s.disk \subseteq {ReportFile} \ Wanted
        /\ (s.disk # {} => s.to = "file" /\ Opens(c) /\ s.ph \in {"exit", "done"})
        /\ (s.ph = "done" => /\ s.rc \in 0..6
                             /\ (s.to # "nowhere" <=> s.rc \in {0, 5, 6})
                             /\ (s.disk = {ReportFile} <=> s.rc \in {0, 5, 6} /\ c.out # "stdout")
                             /\ Outcome(c) = [rc |-> s.rc, to |-> s.to, changed |-> SetToSeq(s.disk)])
(* the report is written at most once, and nothing is undone *)
Monotone == [][s.disk \subseteq s'.disk /\ (s.to # "nowhere" => s'.to = s.to)]_<<c, s>>
Emit == s = Start => PrintT("@@" \o ToJson(c))
=================================================================================
