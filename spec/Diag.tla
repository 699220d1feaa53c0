-------------------------------- MODULE Diag ---------------------------------
(* What the compiler says about a file, and where a run of oclint reports it.    *)
(*                                                                               *)
(* A file is a sequence of items, one line each:                                 *)
(*   [k kind, n name, l line, c column of the complaint, h included file,        *)
(*    g warning group of a pragma]                                               *)
(* A command is a file with flags.  Emitted(files, cmd) is the sequence of       *)
(* diagnostics of one compilation; Reported(run) are the lists of the report.    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Sel(s, P(_)) == SelectSeq(s, P)

(* ---- kinds of items -------------------------------------------------------- *)
Group(k) == CASE k \in {"warn"} -> "#warnings" [] k \in {"const", "macro", "marg", "nested"} -> "constant-conversion"
              [] k = "unused" -> "unused-variable" [] k = "late" -> "unused-function" [] k = "paren" -> "parentheses" [] OTHER -> ""
Warns(k) == Group(k) # ""
Errs(k) == k \in {"errd", "undecl", "redef"}
OnByDefault(g) == g \in {"#warnings", "constant-conversion", "parentheses"}
Message(it) == CASE it.k = "warn" -> it.n
                 [] it.k \in {"const", "macro", "marg", "nested"} -> "implicit conversion from 'int' to 'char' changes value from 300 to 44"
                 [] it.k = "unused" -> "unused variable '" \o it.n \o "'"
                 [] it.k = "late" -> "unused function '" \o it.n \o "'"
                 [] it.k = "paren" -> "using the result of an assignment as a condition without parentheses"
                 [] it.k = "errd" -> it.n
                 [] it.k = "undecl" -> "use of undeclared identifier 'undeclared_" \o it.n \o "'"
                 [] it.k = "redef" -> "redefinition of '" \o it.n \o "' with a different type: 'float' vs 'int'"
                 [] it.k = "fatal" -> "'missing.h' file not found"
                 [] it.k \in {"bug", "hbug"} -> "Division by zero [core.DivideZero]"
(* the explanations that come with a complaint *)
Notes(k) == CASE k = "redef" -> 1 [] k = "paren" -> 2 [] OTHER -> 0

(* ---- flags: records [wall, w, werror, fatal, sys: BOOLEAN, limit: number (0: none), off, up: sets (as sequences) of groups] *)
(* severity of a complaint of group g, pragmas (group -> "", "ignored", "warning", "error"), in a system header? *)
Severity(fl, prag, sys, g) ==
  LET listed == {i \in 1..Len(prag) : prag[i].g = g}
      p == IF listed = {} THEN "" ELSE prag[CHOOSE i \in listed : \A j \in listed : j <= i].v
      cmd == IF g \in Rng(fl.up) THEN "error" ELSE IF g \in Rng(fl.off) THEN "ignored"
             ELSE IF OnByDefault(g) \/ fl.wall THEN "warning" ELSE "ignored"
      raw == IF p # "" THEN p ELSE cmd
  IN IF raw = "ignored" \/ fl.w \/ (sys /\ ~fl.sys /\ g # "#warnings") THEN "ignored"
     ELSE IF p # "" THEN p                       \* what a pragma says is not promoted further
     ELSE IF raw = "error" \/ fl.werror THEN (IF fl.fatal THEN "fatal" ELSE "error") ELSE "warning"

(* ---- one compilation ----------------------------------------------------------- *)
(* s: out (emitted so far), dead (a fatal error was seen), nerr, real (an error that is not a promoted warning),
   prag (pragmas in force), stack (saved by push), seen (files already included), late, early: errors before the end *)
Start == [out |-> <<>>, dead |-> FALSE, nerr |-> 0, real |-> FALSE, prag |-> <<>>, stack |-> <<>>, seen |-> {}, late |-> <<>>, early |-> 0]
D(lv, f, it) == [lv |-> lv, f |-> f, l |-> it.l, c |-> it.c, m |-> Message(it)]
TooMany == [lv |-> "fatal", f |-> "", l |-> 0, c |-> 0, m |-> "too many errors emitted, stopping now"]
Emit1(fl, s, lv, f, it) ==
  IF lv = "ignored" \/ s.dead THEN s
  ELSE IF lv = "error" /\ fl.limit > 0 /\ s.nerr >= fl.limit THEN [s EXCEPT !.out = @ \o <<TooMany>>, !.dead = TRUE, !.nerr = @ + 1]
  ELSE [s EXCEPT !.out = @ \o <<D(lv, f, it)>> \o [i \in 1..Notes(it.k) |-> [D("note", f, it) EXCEPT !.m = "note"]],
                 !.dead = lv = "fatal", !.nerr = @ + (IF lv \in {"error", "fatal"} THEN 1 ELSE 0)]
RECURSIVE Walk(_, _, _, _, _, _)
Item(files, names, fl, s, x, sys) ==
  LET it == files[x[1]][x[2]]  f == names[x[1]] IN
  CASE it.k \in {"inc", "sinc"} -> IF it.h \in s.seen THEN s
                                   ELSE Walk(files, names, fl, [s EXCEPT !.seen = @ \cup {it.h}], it.h, sys \/ it.k = "sinc")
    [] it.k = "late" -> [s EXCEPT !.late = Append(@, [f |-> f, it |-> it, lv |-> Severity(fl, s.prag, sys, "unused-function")])]
    [] it.k = "push" -> [s EXCEPT !.stack = Append(@, s.prag)]
    [] it.k = "pop" -> IF s.stack = <<>> THEN s ELSE [s EXCEPT !.prag = s.stack[Len(s.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] it.k \in {"ignored", "warning", "error"} -> [s EXCEPT !.prag = Append(@, [g |-> it.g, v |-> it.k])]
    [] it.k = "fatal" -> [Emit1(fl, s, "fatal", f, it) EXCEPT !.real = TRUE]
    [] Errs(it.k) -> [Emit1(fl, s, IF fl.fatal THEN "fatal" ELSE "error", f, it) EXCEPT !.real = TRUE]
    [] Warns(it.k) -> Emit1(fl, s, Severity(fl, s.prag, sys, Group(it.k)), f, it)
    [] OTHER -> s
Walk(files, names, fl, s, n, sys) ==
  FoldLeft(LAMBDA a, i : Item(files, names, fl, a, <<n, i>>, sys), s, [i \in 1..Len(files[n]) |-> i])
Compiled(files, names, cmd) ==
  LET s == Walk(files, names, cmd.fl, Start, cmd.main, FALSE)
  IN IF s.nerr > 0 \/ s.real THEN [s EXCEPT !.early = s.nerr] ELSE FoldLeft(LAMBDA a, x : Emit1(cmd.fl, a, x.lv, x.f, x.it), [s EXCEPT !.early = s.nerr], s.late)
Emitted(files, names, cmd) == Compiled(files, names, cmd).out
IsErr(d) == d.lv \in {"error", "fatal"}
IsWarn(d) == d.lv = "warning"
HasErr(files, names, cmd) == \E i \in 1..Len(Emitted(files, names, cmd)) : IsErr(Emitted(files, names, cmd)[i])

(* ---- the analyzer: its findings in the functions of the main file, by place ----- *)
Place(d) == [f |-> d.f, l |-> d.l, c |-> d.c, m |-> d.m]
Findings(files, names, cmd, hdr) ==
  IF Compiled(files, names, cmd).real THEN <<>>
  ELSE LET f == files[cmd.main]
           far == Sel(f, LAMBDA it : it.k = "hbug")
       IN (IF far = <<>> THEN <<>> ELSE <<[f |-> hdr.f, l |-> hdr.l, c |-> hdr.c, m |-> Message(far[1])]>>)
          \o [i \in 1..Len(Sel(f, LAMBDA it : it.k = "bug")) |-> Place(D("bug", names[cmd.main], Sel(f, LAMBDA it : it.k = "bug")[i]))]

(* ---- the report of a run: run = [dup, analyze, files, names, cmds, hdr] ----------- *)
Once(dup, s) == IF dup THEN s ELSE LET first == {i \in 1..Len(s) : \A j \in 1..(i - 1) : s[j] # s[i]}
                                       ix == SetToSortSeq(first, <) IN [i \in 1..Len(ix) |-> s[ix[i]]]
Places(s) == [i \in 1..Len(s) |-> Place(s[i])]
Gotos(r, cmd) == LET g == Sel(r.files[cmd.main], LAMBDA it : it.k = "goto")
                 IN IF HasErr(r.files, r.names, cmd) THEN <<>>
                    ELSE [i \in 1..Len(g) |-> [f |-> r.names[cmd.main], l |-> g[i].l, c |-> g[i].c, m |-> ""]]
Reported(r) ==
  LET all == Flat([k \in 1..Len(r.cmds) |-> Emitted(r.files, r.names, r.cmds[k])])
  IN [errors |-> Once(r.dup, Places(Sel(all, IsErr))), warnings |-> Once(r.dup, Places(Sel(all, IsWarn))),
      bugs |-> IF r.analyze THEN Once(r.dup, Flat([k \in 1..Len(r.cmds) |-> Findings(r.files, r.names, r.cmds[k], r.hdr)])) ELSE <<>>,
      v |-> Once(r.dup, Flat([k \in 1..Len(r.cmds) |-> Gotos(r, r.cmds[k])])),
      rc |-> IF \E i \in 1..Len(all) : IsErr(all[i]) THEN 6
             ELSE IF \E k \in 1..Len(r.cmds) : Gotos(r, r.cmds[k]) # <<>> THEN 5 ELSE 0]
=============================================================================
