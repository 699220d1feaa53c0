--------------------------------- MODULE Run ---------------------------------
(* One run of oclint, from the command line to the exit status.                 *)
(*                                                                              *)
(* A scenario sc says what the run finds: configuration layers, directories of  *)
(* rule libraries, reporters, sources with their compile commands.  The state   *)
(* st of a run advances through the phases                                      *)
(*   args, config, load, reporter, process (compile / analyse), report, done.   *)
(* Succ(sc, st) is the set of possible next steps, each with the event that an  *)
(* observer of the plug-ins sees (<<>> when there is none).  The order in which *)
(* the entries of a directory are found is open; everything else is determined. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Last2(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Sel(s, P(_)) == SelectSeq(s, P)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

-------------------------------------------------------------------------------
(* Identifiers *)
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
IsLower(c) == c \in Rng(Lower)
IsUpper(c) == c \in Rng(Upper)
IsAlpha(c) == IsLower(c) \/ IsUpper(c)
ToUpper(c) == IF IsLower(c) THEN Upper[CHOOSE i \in 1..26 : Lower[i] = c] ELSE c
Str(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)
(* every letter that starts a run of letters is a capital; the rest is kept; everything else goes *)
CamelCase(cs) ==
  Str(Flat([i \in 1..Len(cs) |->
     IF ~IsAlpha(cs[i]) THEN <<>>
     ELSE IF i = 1 \/ ~IsAlpha(cs[i - 1]) THEN <<ToUpper(cs[i])>> ELSE <<cs[i]>>]))
Identifier(r) == IF r.id # "" THEN r.id ELSE CamelCase(r.name)
RuleName(r) == Str(r.name)

-------------------------------------------------------------------------------
(* Sources.  Line 1 includes a header whose only content is a macro naming the  *)
(* number of rule applications finished before the compilation; line 2 declares *)
(* a variable of that name; line 3 includes a header of declarations.           *)
DeclName(d) == d.n \o "_" \o FoldLeft(LAMBDA a, t : a \o t \o "_", "", d.tags)
StampName(n) == "stamp_" \o ToString(n)
HasLine(k) == k \in {"err", "fatal", "warn", "hwarn"}
CmdLines(c, k) == <<[len |-> 12, d |-> <<>>]>>                                     \* #if CMD == k
   \o (CASE c.kind = "err" -> <<[len |-> 9, d |-> <<>>]>>                          \* #error ek
         [] c.kind = "warn" -> <<[len |-> 11, d |-> <<>>]>>                        \* #warning wk
         [] c.kind = "fatal" -> <<[len |-> 20, d |-> <<>>]>>                       \* #include "missing.h"
         [] c.kind = "hwarn" -> <<[len |-> 20, d |-> <<>>]>>                       \* #include "warnhdr.h"
         [] OTHER -> <<>>)
   \o [i \in 1..Len(c.decls) |-> [len |-> 5 + Len(DeclName(c.decls[i])), d |-> <<c.decls[i]>>]]
   \o <<[len |-> 6, d |-> <<>>]>>                                                  \* #endif
Lines(src) == <<[len |-> 18, d |-> <<>>], [len |-> 10, d |-> <<>>], [len |-> 19, d |-> <<>>]>>
              \o Flat([k \in 1..Len(src.cmds) |-> CmdLines(src.cmds[k], k)])
BlockStart(src, k) == 3 + SumSeq([j \in 1..(k - 1) |-> Len(CmdLines(src.cmds[j], j))])   \* lines before "#if CMD == k"
DeclLine(src, k, i) == BlockStart(src, k) + 1 + (IF HasLine(src.cmds[k].kind) THEN 1 ELSE 0) + i
FileName(sc, s) == "s" \o ToString(s) \o "." \o sc.srcs[s].lang
LangOf(src) == CASE src.lang = "c" -> "C" [] src.lang = "cpp" -> "CXX" [] OTHER -> "OBJC"

Commands(sc) == Flat([s \in 1..Len(sc.srcs) |-> [k \in 1..Len(sc.srcs[s].cmds) |-> [s |-> s, k |-> k]]])
CmdOf(sc, c) == sc.srcs[c.s].cmds[c.k]
Compiles(kind) == kind \in {"ok", "warn", "hwarn"}
Unusable(kind) == kind \in {"baddir", "nojob"}

(* what a rule reports for one compile command when it is asked to *)
Times(d, tag) == Cardinality({i \in 1..Len(d.tags) : d.tags[i] = tag})
Rep(n, x) == [i \in 1..n |-> x]
Viol(sc, r, s, l, c, ec, m) == [r |-> RuleName(r), cat |-> r.cat, prio |-> r.prio, p |-> FileName(sc, s),
                                l |-> l, c |-> c, el |-> l, ec |-> ec, m |-> m]
ByDecl(sc, r, c, ec) ==
  LET src == sc.srcs[c.s]
      ds == CmdOf(sc, c).decls
  IN Flat([i \in 1..Len(ds) |-> Rep(Times(ds[i], r.tag), Viol(sc, r, c.s, DeclLine(src, c.k, i), 1, ec, r.tag \o " in " \o DeclName(ds[i])))])
ByLine(sc, r, c) ==
  LET ls == Lines(sc.srcs[c.s])
  IN Flat([i \in 1..Len(ls) |-> IF ls[i].d = <<>> THEN <<>>
                                ELSE Rep(Times(ls[i].d[1], r.tag), Viol(sc, r, c.s, i, 1, ls[i].len, r.tag \o " in line"))])
Found(sc, r, c) == CASE r.kind \in {"visitor", "matcher"} -> ByDecl(sc, r, c, 5)
                     [] r.kind = "plain" -> ByDecl(sc, r, c, 2)
                     [] r.kind = "reader" -> ByLine(sc, r, c)
                     [] OTHER -> <<>>
(* only rules over the syntax tree declare languages *)
Supports(sc, r, c) == r.kind \in {"visitor", "matcher"} => LangOf(sc.srcs[c.s]) \in Rng(r.langs)

-------------------------------------------------------------------------------
(* Configuration *)
Fields == {"out", "type", "p1", "p2", "p3", "glob", "dup"}
NoSettings == [f \in Fields |-> <<>>]
Default == [out |-> <<"stdout">>, type |-> <<"text">>, p1 |-> <<0>>, p2 |-> <<10>>, p3 |-> <<20>>, glob |-> <<FALSE>>, dup |-> <<FALSE>>]
FileLayers == 1..3
CL == 4
Get(st, f) == IF st.set[f] # <<>> THEN st.set[f][1] ELSE Default[f][1]
Put(rc, k, v) == {p \in rc : p[1] # k} \cup {<<k, v>>}

InitState ==
  [ph |-> "args", i |-> 1, set |-> NoSettings, rc |-> {}, paths |-> <<>>, en |-> {}, dis |-> {},
   todo |-> {}, loaded |-> {}, rules |-> <<>>, rep |-> "", sel |-> <<>>, listing |-> <<>>,
   cmds |-> <<>>, ctx |-> <<>>, ci |-> 1, ri |-> 1, di |-> 0, cur |-> <<>>, apps |-> 0,
   skipped |-> <<>>, sets |-> <<>>, errors |-> <<>>, warnings |-> <<>>, report |-> <<>>, dest |-> "", exceeded |-> <<>>, rc0 |-> -1]

Ev(e, r, x) == <<[e |-> e, r |-> r, x |-> x]>>
S(st) == [ev |-> <<>>, st |-> st]
Exit(st, code) == S([st EXCEPT !.ph = "done", !.rc0 = code])

Args(sc, st) == {IF sc.badargs THEN Exit(st, 7)
                 ELSE S([st EXCEPT !.ph = "config", !.set = sc.lay[CL].set, !.paths = sc.lay[CL].paths])}

(* one layer: thresholds, search paths, enabled then disabled rules, settings the command line has not set *)
EnableAll(st, ids) == [st EXCEPT !.en = @ \cup Rng(ids), !.dis = @ \ Rng(ids)]
DisableAll(st, ids) == [st EXCEPT !.dis = @ \cup Rng(ids), !.en = @ \ Rng(ids)]
ConfigLayer(sc, st) ==
  LET y == sc.lay[st.i]
      st1 == [st EXCEPT !.rc = FoldLeft(LAMBDA a, p : Put(a, p[1], p[2]), @, y.rc),
                        !.paths = IF st.i = CL THEN @ ELSE @ \o y.paths,
                        !.set = IF st.i = CL THEN @
                                ELSE [f \in Fields |-> IF y.set[f] # <<>> /\ sc.lay[CL].set[f] = <<>> THEN y.set[f] ELSE @[f]]]
      st2 == DisableAll(EnableAll(st1, y.en), y.dis)
  IN {S(IF st.i < CL THEN [st2 EXCEPT !.i = @ + 1]
        ELSE [st2 EXCEPT !.ph = "dir", !.i = 0, !.paths = IF @ = <<>> THEN <<sc.defdir>> ELSE @])}

(* the libraries of one directory, in any order *)
LibsOf(sc, d) == IF d = 0 \/ ~sc.dirs[d].ok THEN {} ELSE {<<d, j>> : j \in 1..Len(sc.dirs[d].libs)}
LibName(x) == "lib" \o ToString(x[1]) \o "_" \o ToString(x[2]) \o ".so"
OpenDir(sc, st) ==
  {S(IF st.i >= Len(st.paths) THEN (IF st.rules = <<>> THEN [st EXCEPT !.ph = "done", !.rc0 = 1]
                                    ELSE [st EXCEPT !.ph = "reporter", !.todo = IF sc.reps.ok THEN 1..Len(sc.reps.libs) ELSE {}])
     ELSE [st EXCEPT !.ph = "lib", !.i = @ + 1, !.todo = LibsOf(sc, st.paths[st.i + 1])])}
LoadLib(sc, st) ==
  IF st.todo = {} THEN {S([st EXCEPT !.ph = "dir"])}
  ELSE {LET lib == sc.dirs[x[1]].libs[x[2]]
            rest == [st EXCEPT !.todo = @ \ {x}]
        IN IF ~lib.ok THEN Exit(st, 1)
           ELSE IF x \in st.loaded THEN S(rest)
           ELSE [ev |-> Ev("load", LibName(x), ""),
                 st |-> [rest EXCEPT !.loaded = @ \cup {x}, !.rules = @ \o lib.rules]] : x \in st.todo}
(* reporters are looked at in any order until one has the requested name *)
LoadReporter(sc, st) ==
  IF st.todo = {} THEN {Exit(st, 2)}
  ELSE {LET lib == sc.reps.libs[j]
        IN IF ~lib.ok THEN Exit(st, 2)
           ELSE IF lib.name = Get(st, "type") THEN S([st EXCEPT !.ph = "select", !.rep = lib.name])
           ELSE S([st EXCEPT !.todo = @ \ {j}]) : j \in st.todo}

Selected(st, r) == (st.en = {} \/ Identifier(r) \in st.en) /\ Identifier(r) \notin st.dis
SelectRules(sc, st) ==
  LET sel == Sel(st.rules, LAMBDA r : Selected(st, r))
  IN {S([st EXCEPT !.ph = "compile", !.sel = sel,
                   !.listing = IF sc.list THEN [i \in 1..Len(sel) |-> Identifier(sel[i])] ELSE <<>>,
                   !.skipped = [i \in 1..Len(Sel([s \in 1..Len(sc.srcs) |-> s], LAMBDA s : sc.srcs[s].cmds = <<>>)) |->
                                  FileName(sc, Sel([s \in 1..Len(sc.srcs) |-> s], LAMBDA s : sc.srcs[s].cmds = <<>>)[i])],
                   !.cmds = Commands(sc)])}

(* compile the next command; the analysis starts when the batch is complete *)
Diag(sc, c, l, m) == <<[p |-> FileName(sc, c.s), l |-> l, m |-> m]>>
Compile(sc, st) ==
  IF st.cmds = <<>> THEN {S([st EXCEPT !.ph = IF st.ctx = <<>> THEN "report" ELSE "analyse", !.ci = 1, !.ri = 1, !.di = 0])}
  ELSE LET c == Head(st.cmds)
           cmd == CmdOf(sc, c)
           l == BlockStart(sc.srcs[c.s], c.k) + 2
           st1 == [st EXCEPT !.cmds = Tail(@),
                     !.errors = @ \o (CASE cmd.kind = "err" -> Diag(sc, c, l, "e" \o ToString(c.k))
                                        [] cmd.kind = "fatal" -> Diag(sc, c, l, "'missing.h' file not found")
                                        [] OTHER -> <<>>),
                     !.warnings = @ \o (CASE cmd.kind = "warn" -> Diag(sc, c, l, "w" \o ToString(c.k))
                                          [] cmd.kind = "hwarn" -> <<[p |-> "warnhdr.h", l |-> 1, m |-> "hw"]>>
                                          [] OTHER -> <<>>),
                     !.ctx = IF Compiles(cmd.kind) THEN Append(@, [c |-> c, stamp |-> st.apps]) ELSE @]
       IN IF Unusable(cmd.kind) THEN {Exit(st, 3)}
          ELSE {S(IF Get(st, "glob") THEN st1
                  ELSE IF st1.ctx = <<>> THEN st1 ELSE [st1 EXCEPT !.ph = "analyse", !.ci = 1, !.ri = 1, !.di = 0])}

(* the events of one application of a rule, in order, and what it reports *)
Visited(sc, x) == <<StampName(x.stamp)>> \o [i \in 1..Len(CmdOf(sc, x.c).decls) |-> DeclName(CmdOf(sc, x.c).decls[i])]
Value(st, k) == LET v == {p \in st.rc : p[1] = k} IN IF v = {} THEN "<none>" ELSE (CHOOSE p \in v : TRUE)[2]
Inside(sc, st, r, x) ==
  CASE r.kind \in {"visitor", "matcher"} -> [i \in 1..Len(Visited(sc, x)) |-> Ev("visit", RuleName(r), Visited(sc, x)[i])]
    [] r.kind = "reader" -> LET ls == Lines(sc.srcs[x.c.s])
                            IN [i \in 1..Len(ls) |-> Ev("line", RuleName(r), ToString(i) \o ":" \o ToString(ls[i].len))]
    [] r.kind = "conf" -> [i \in 1..Len(r.keys) |-> Ev("conf", RuleName(r), r.keys[i] \o "=" \o Value(st, r.keys[i]))]
    [] OTHER -> <<>>
(* violations are told apart by the rule itself, not by its name *)
By(j, vs) == [i \in 1..Len(vs) |-> [k |-> j, v |-> vs[i]]]
Analyse(sc, st) ==
  IF st.ci > Len(st.ctx) THEN {S([st EXCEPT !.ph = "compile", !.ctx = <<>>])}
  ELSE IF st.ri > Len(st.sel)
  THEN {S([st EXCEPT !.sets = Append(@, st.cur), !.cur = <<>>, !.ci = @ + 1, !.ri = 1, !.di = 0])}
  ELSE LET r == st.sel[st.ri]
           x == st.ctx[st.ci]
           inner == Inside(sc, st, r, x)
           file == FileName(sc, x.c.s)
       IN IF ~Supports(sc, r, x.c) THEN {S([st EXCEPT !.ri = @ + 1])}
          ELSE {IF st.di = 0 THEN [ev |-> Ev("setup", RuleName(r), file), st |-> [st EXCEPT !.di = 1]]
                ELSE IF st.di <= Len(inner) THEN [ev |-> inner[st.di], st |-> [st EXCEPT !.di = @ + 1]]
                ELSE [ev |-> Ev("teardown", RuleName(r), file),
                      st |-> [st EXCEPT !.di = 0, !.ri = @ + 1, !.apps = @ + 1, !.cur = @ \o By(st.ri, Found(sc, r, x.c))]]}

(* the result views *)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET u == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rng(u) THEN u ELSE Append(u, s[Len(s)])
View(st, s) == IF Get(st, "dup") THEN s ELSE Uniq(s)
Raw(st) == Flat(st.sets)
Plain(s) == [i \in 1..Len(s) |-> s[i].v]
Viols(st) == Plain(View(st, Raw(st)))
Prio(st, p) == Cardinality({i \in 1..Len(Viols(st)) : Viols(st)[i].prio = p})
Dirty(st) == Cardinality({st.sets[i][1].v.p : i \in {j \in 1..Len(st.sets) : st.sets[j] # <<>>}})
Report(st) ==
  LET vs == Viols(st)
      es == View(st, st.errors)
      ws == View(st, st.warnings)
  IN [name |-> st.rep, files |-> Len(st.sets), dirty |-> Dirty(st), n |-> Len(vs),
      p1 |-> Prio(st, 1), p2 |-> Prio(st, 2), p3 |-> Prio(st, 3),
      violations |-> vs, errors |-> es, warnings |-> ws]

CannotOpen(o) == o \in {"nodir", "isdir"}
CannotWrite(o) == o = "full"
WriteReport(sc, st) ==
  LET o == Get(st, "out")
  IN {IF CannotOpen(o) \/ CannotWrite(o) THEN Exit(st, 4)
      ELSE S([st EXCEPT !.ph = "exit", !.dest = o, !.report = <<Report(st)>>])}
Exceeds(st) == Prio(st, 1) > Get(st, "p1") \/ Prio(st, 2) > Get(st, "p2") \/ Prio(st, 3) > Get(st, "p3")
Finish(sc, st) ==
  {IF st.errors # <<>> THEN Exit(st, 6)
   ELSE IF Exceeds(st)
   THEN Exit([st EXCEPT !.exceeded = <<Prio(st, 1), Get(st, "p1"), Prio(st, 2), Get(st, "p2"), Prio(st, 3), Get(st, "p3")>>], 5)
   ELSE Exit(st, 0)}

Succ(sc, st) ==
  CASE st.ph = "args" -> Args(sc, st)
    [] st.ph = "config" -> ConfigLayer(sc, st)
    [] st.ph = "dir" -> OpenDir(sc, st)
    [] st.ph = "lib" -> LoadLib(sc, st)
    [] st.ph = "reporter" -> LoadReporter(sc, st)
    [] st.ph = "select" -> SelectRules(sc, st)
    [] st.ph = "compile" -> Compile(sc, st)
    [] st.ph = "analyse" -> Analyse(sc, st)
    [] st.ph = "report" -> WriteReport(sc, st)
    [] st.ph = "exit" -> Finish(sc, st)
    [] OTHER -> {}

(* what remains visible when the process has ended *)
Outcome(st) == [rc |-> st.rc0, listing |-> st.listing, skipped |-> st.skipped, dest |-> st.dest,
                report |-> st.report, exceeded |-> st.exceeded]
===============================================================================
