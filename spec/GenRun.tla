-------------------------------- MODULE GenRun ---------------------------------
(* Scenario families: TLC runs every scenario of a family in every order of the  *)
(* directory entries, checks the laws, and prints the scenario.                   *)
EXTENDS RunLaws, Json
CONSTANT Family
VARIABLES nr, st, log     \* the scenario's number, the run, its events

-------------------------------------------------------------------------------
R(kind, name, prio, langs, tag) == [kind |-> kind, name |-> name, id |-> "", cat |-> "cat" \o tag, prio |-> prio, langs |-> langs, tag |-> tag, keys |-> <<>>]
All3 == <<"C", "CXX", "OBJC">>
Conf(keys) == [R("conf", <<"c","o","n","f">>, 3, All3, "nothing") EXCEPT !.keys = keys]
RX == R("visitor", <<"e","x">>, 1, All3, "x")
RY == R("matcher", <<"t","w","o"," ","y">>, 2, All3, "y")
RZ == R("reader", <<"z","-","l","i","n","e">>, 3, All3, "z")
RP == R("plain", <<"p","l","a","i","n">>, 3, All3, "z")
RC == R("visitor", <<"o","n","l","y"," ","c">>, 2, <<"C">>, "x")
RM == R("matcher", <<"o","b","j">>, 1, <<"CXX", "OBJC">>, "y")
Lib(rules) == [ok |-> TRUE, rules |-> rules]
BadLib == [ok |-> FALSE, rules |-> <<>>]
Dir(libs) == [ok |-> TRUE, libs |-> libs]
NoDir == [ok |-> FALSE, libs |-> <<>>]
NoLayer == [kind |-> "absent", pad |-> 0, set |-> NoSettings, rc |-> <<>>, paths |-> <<>>, en |-> <<>>, dis |-> <<>>]
File(set) == [NoLayer EXCEPT !.kind = "file", !.set = set]
RepLib(n) == [ok |-> TRUE, name |-> n]
Reps == [ok |-> TRUE, libs |-> <<RepLib("text"), RepLib("alpha"), RepLib("beta")>>]
D(n, tags) == [n |-> n, tags |-> tags]
Cmd(kind, decls) == [kind |-> kind, decls |-> decls]
Src(lang, cmds) == [lang |-> lang, cmds |-> cmds]
Base == [badargs |-> FALSE, lay |-> <<NoLayer, NoLayer, NoLayer, NoLayer>>, list |-> FALSE,
         dirs |-> <<Dir(<<Lib(<<RX, RY>>), Lib(<<RZ>>)>>)>>, defdir |-> 1, reps |-> Reps,
         srcs |-> <<Src("c", <<Cmd("ok", <<D("d", <<"x">>), D("e", <<"y", "x">>)>>)>>)>>]
SetCL(s, f, v) == [s EXCEPT !.lay[CL].set[f] = <<v>>]
SetL(s, i, f, v) == [s EXCEPT !.lay[i].set[f] = <<v>>, !.lay[i].kind = IF i = CL THEN "absent" ELSE "file"]

-------------------------------------------------------------------------------
(* exit: every combination of what each stage meets *)
ExitArgs == {"good", "bad"}
ExitRules == {"one", "two", "empty", "missing", "bad", "badplus", "norules"}
ExitReps == {"text", "none", "missing"}
ExitProc == {"ok", "warn", "err", "fatal", "baddir", "nojob", "okerr", "okbaddir", "nocmd"}
ExitOut == {"stdout", "file", "nodir", "full"}
ExitViol == {"few", "many"}
ExitScenario(a, r, p, c, o, v) ==
  LET ds == IF v = "few" THEN <<D("d", <<"y", "z">>)>> ELSE <<D("d", <<"x">>)>>
      k(x) == Cmd(x, ds)
      s1 == [Base EXCEPT !.badargs = (a = "bad"),
        !.dirs = CASE r = "one" -> <<Dir(<<Lib(<<RX, RY, RZ>>)>>)>>
                   [] r = "two" -> <<Dir(<<Lib(<<RX>>), Lib(<<RY, RZ>>)>>)>>
                   [] r = "empty" -> <<Dir(<<>>)>>
                   [] r = "missing" -> <<NoDir>>
                   [] r = "bad" -> <<Dir(<<BadLib>>)>>
                   [] r = "badplus" -> <<Dir(<<Lib(<<RX, RY, RZ>>), BadLib>>)>>
                   [] r = "norules" -> <<Dir(<<Lib(<<>>)>>)>>,
        !.reps = CASE p = "text" -> Reps
                   [] p = "none" -> [Reps EXCEPT !.libs = <<RepLib("alpha")>>]
                   [] p = "missing" -> [Reps EXCEPT !.ok = FALSE],
        !.srcs = CASE c = "okerr" -> <<Src("c", <<k("ok")>>), Src("cpp", <<k("err")>>)>>
                   [] c = "okbaddir" -> <<Src("c", <<k("ok")>>), Src("cpp", <<k("baddir")>>)>>
                   [] c = "nocmd" -> <<Src("c", <<>>)>>
                   [] OTHER -> <<Src("c", <<k(c)>>)>>]
  IN SetCL(s1, "out", o)
ExitFamily == {ExitScenario(a, r, p, c, o, v) : a \in ExitArgs, r \in ExitRules, p \in ExitReps, c \in ExitProc, o \in ExitOut, v \in ExitViol}
(* stages after a failing one are varied less: one failing stage at a time, or two *)
ExitQuick == {ExitScenario(a, r, p, c, o, v) :
               a \in {"good"}, r \in {"one"}, p \in {"text"}, c \in ExitProc, o \in ExitOut \cup {"isdir"}, v \in ExitViol}
        \cup {ExitScenario(a, r, p, c, o, v) :
               a \in {"good"}, r \in ExitRules, p \in ExitReps, c \in {"ok", "err", "baddir"}, o \in {"stdout", "nodir"}, v \in {"few"}}
        \cup {ExitScenario("bad", r, p, c, "stdout", "few") : r \in {"one", "bad"}, p \in {"text", "none"}, c \in {"ok", "err"}}
        \cup {[ExitScenario("good", "one", "text", c, o, v) EXCEPT !.lay[CL].set.glob = <<TRUE>>] : c \in ExitProc, o \in {"stdout", "full"}, v \in ExitViol}
(* thresholds: n violations of one priority against a limit, with duplicates *)
LimitScenario(p, m, n, d, layer) ==
  LET tag == CASE p = 1 -> "x" [] p = 2 -> "y" [] p = 3 -> "z"
      f == CASE p = 1 -> "p1" [] p = 2 -> "p2" [] p = 3 -> "p3"
      s1 == [Base EXCEPT !.srcs = <<Src("c", <<Cmd("ok", [i \in 1..n |-> D("d" \o ToString(i), IF d > 0 THEN <<tag, tag>> ELSE <<tag>>)])>>)>>]
      s2 == IF d = 2 THEN SetCL(s1, "dup", TRUE) ELSE s1
  IN IF m = 99 THEN s2 ELSE SetL(s2, layer, f, m)
LimitFamily == {LimitScenario(p, m, n, d, layer) : p \in 1..3, m \in {0, 1, 2, 3}, n \in 0..4, d \in 0..2, layer \in {2, 4}}
          \cup {LimitScenario(1, 99, n, d, 4) : n \in 0..1, d \in 0..2}
          \cup {LimitScenario(2, 99, n, d, 4) : n \in {5, 6, 10, 11}, d \in 0..2}
          \cup {LimitScenario(3, 99, n, d, 4) : n \in {10, 11, 20, 21}, d \in 0..2}
          \cup {LimitScenario(p, -1, 0, 0, 4) : p \in 1..3}

-------------------------------------------------------------------------------
(* config: every pattern of unset / two values over the three files and the      *)
(* command line, for every setting, in several combinations of the settings       *)
Values(f) == CASE f = "out" -> <<"file1", "file2", "file3", "file4">> [] f = "type" -> <<"alpha", "beta", "text", "gamma">>
               [] f = "p1" -> <<1, 2, 3, 0>> [] f = "p2" -> <<1, 0, 4, 10>> [] f = "p3" -> <<3, 20, 1, 0>>
               [] f \in {"glob", "dup"} -> <<TRUE, FALSE, TRUE, FALSE>>
FieldSeq == <<"out", "type", "p1", "p2", "p3", "glob", "dup">>
Digit(n, b, i) == (n \div (b ^ i)) % b
(* pattern 0..80: per layer unset, the first or the second value *)
PatternOf(m, j, q) == ((m * (1 + ((2 * j * q) % 79))) + (17 * j * q)) % 81
ConfigScenario(m, q) ==
  LET pick(i, f, j) == LET v == Digit(PatternOf(m, j, q), 3, i - 1)
                       IN IF v = 0 THEN <<>> ELSE <<Values(f)[1 + (((v - 1) + i + q) % 4)]>>
      lay(i) == LET set == [f \in Fields |-> pick(i, f, CHOOSE j \in 1..7 : FieldSeq[j] = f)]
                    kv == Flat([k \in 1..3 |-> LET v == Digit(PatternOf(m, 7 + k, q), 3, i - 1)
                                               IN IF v = 0 THEN <<>> ELSE <<<<"K" \o ToString(k), ToString(10 * i + v)>>>>])
                    empty == (\A f \in Fields : set[f] = <<>>) /\ kv = <<>>
                IN [NoLayer EXCEPT !.set = set, !.rc = IF (m + i) % 4 = 0 THEN kv \o kv ELSE kv,
                                   !.kind = IF empty THEN (CASE (m + i + q) % 3 = 0 -> "empty" [] (m + i + q) % 3 = 1 -> "blank" [] OTHER -> "absent") ELSE "file",
                                   !.pad = CASE (m + q + i) % 5 = 1 -> 4096 [] (m + q + i) % 5 = 3 -> 20000 [] (m + q + i) % 7 = 2 -> 65536 [] OTHER -> 0]
  IN [Base EXCEPT !.lay = <<lay(1), lay(2), lay(3), lay(4)>>,
                  !.dirs = <<Dir(<<Lib(<<RX, RY, RZ, Conf(<<"K1", "K2", "K3">>)>>)>>)>>,
                  !.reps = [Reps EXCEPT !.libs = @ \o <<RepLib("gamma")>>],
                  !.srcs = <<Src("c", <<Cmd("ok", [i \in 1..5 |-> D("d" \o ToString(i), <<"x", "x", "y", "z">>)])>>),
                             Src("cpp", <<Cmd("ok", <<>>)>>)>>]
ConfigFamily(Q) == {ConfigScenario(m, q) : m \in 0..80, q \in 1..Q}
(* search paths: which layers add which directories *)
PathScenario(a, b, c, d) ==
  [Base EXCEPT !.dirs = <<Dir(<<Lib(<<RX>>)>>), Dir(<<Lib(<<RY>>), Lib(<<RP>>)>>), Dir(<<Lib(<<RZ>>)>>), NoDir>>,
               !.lay = <<[NoLayer EXCEPT !.paths = a, !.kind = IF a = <<>> THEN "absent" ELSE "file"],
                         [NoLayer EXCEPT !.paths = b, !.kind = IF b = <<>> THEN "absent" ELSE "file"],
                         [NoLayer EXCEPT !.paths = c, !.kind = IF c = <<>> THEN "absent" ELSE "file"],
                         [NoLayer EXCEPT !.paths = d]>>,
               !.list = TRUE,
               !.srcs = <<Src("c", <<Cmd("ok", <<D("d", <<"x", "y", "z">>)>>)>>)>>]
PathFamily == {PathScenario(a, b, c, d) : a \in {<<>>, <<1>>, <<2>>}, b \in {<<>>, <<2>>, <<3, 1>>}, c \in {<<>>, <<3>>, <<4>>}, d \in {<<>>, <<2>>, <<3, 2>>}}

-------------------------------------------------------------------------------
(* select: every history of requests for a rule over the four layers *)
SelRules == <<RX, RY, [RZ EXCEPT !.id = "TheZ"]>>
SelIds == <<"Ex", "TwoY", "TheZ">>
SelectScenario(m, q) ==
  LET ask(i, j) == CASE j = 1 -> Digit(m, 4, i - 1)
                     [] j = 2 -> (CASE q = 0 -> 0 [] OTHER -> Digit((m * (2 * q + 1) + 37 * q) % 256, 4, i - 1))
                     [] j = 3 -> (CASE q < 2 -> 0 [] OTHER -> Digit((m * (4 * q + 1) + 101) % 256, 4, i - 1))
      extra(i, b) == IF (m + i + q) % 5 = b THEN <<"NoSuchRule", "ex", "Ex ", "ZLine">> ELSE <<>>
      req(i, bit) == Flat([j \in 1..3 |-> IF Digit(ask(i, j), 2, bit) = 1 THEN <<SelIds[j]>> ELSE <<>>])
      lay(i) == [NoLayer EXCEPT !.en = req(i, 0) \o (IF q = 3 THEN extra(i, 1) ELSE <<>>),
                                !.dis = req(i, 1) \o extra(i, 2), !.kind = "file"]
  IN [Base EXCEPT !.lay = <<lay(1), lay(2), lay(3), lay(4)>>, !.list = (m % 2 = 0),
                  !.dirs = <<Dir(<<Lib(SelRules)>>)>>,
                  !.srcs = <<Src("c", <<Cmd("ok", <<D("d", <<"x", "y", "z">>)>>)>>)>>]
SelectFamily(Q) == {SelectScenario(m, q) : m \in 0..255, q \in 0..Q}
(* identifiers: every name over an alphabet *)
NameSet(n) == UNION {[1..k -> {"a", "B", "1", " ", "-"}] : k \in 1..n}
Names(n) == SetToSeq(NameSet(n))
IdScenario(n) ==
  [Base EXCEPT !.list = TRUE, !.srcs = <<Src("c", <<Cmd("err", <<>>)>>)>>,
               !.dirs = <<Dir(<<Lib([i \in 1..Len(Names(n)) |-> R("plain", Names(n)[i], 3, All3, "x")])>>)>>]
IdFamily(n) == {IdScenario(n)}

-------------------------------------------------------------------------------
(* process: lists of compile commands of every kind, languages, both modes *)
ProcKinds == {"ok", "warn", "hwarn", "err", "fatal", "baddir", "nojob"}
ProcDecls(i) == CASE i = 1 -> <<D("a", <<"x", "y">>), D("b", <<>>), D("c", <<"z">>)>>
                  [] i = 2 -> <<>>
                  [] i = 3 -> <<D("d", <<"y", "x", "z", "x">>)>>
                  [] i = 4 -> <<D("f", <<"x">>), D("g", <<"y">>)>>
ProcRules == <<Dir(<<Lib(<<RC, RX>>), Lib(<<RY, RM, RZ>>), Lib(<<RP>>)>>)>>
ProcOne(lang, k1, g) ==
  [Base EXCEPT !.dirs = ProcRules, !.srcs = <<Src(lang, <<Cmd(k1, ProcDecls(1))>>)>>, !.lay[CL].set.glob = <<g>>]
ProcTwo(l1, l2, k1, k2, g) ==
  [Base EXCEPT !.dirs = ProcRules, !.srcs = <<Src(l1, <<Cmd(k1, ProcDecls(1))>>), Src(l2, <<Cmd(k2, ProcDecls(3))>>)>>, !.lay[CL].set.glob = <<g>>]
ProcMulti(l1, l2, k1, k2, k3, g) ==
  [Base EXCEPT !.dirs = ProcRules,
     !.srcs = <<Src(l1, <<Cmd(k1, ProcDecls(1)), Cmd(k2, ProcDecls(4))>>), Src(l2, <<Cmd(k3, ProcDecls(3))>>)>>, !.lay[CL].set.glob = <<g>>]
ProcMany(ks, g, d) ==
  [Base EXCEPT !.dirs = ProcRules, !.lay[CL].set.glob = <<g>>, !.lay[CL].set.dup = <<d>>,
     !.srcs = [i \in 1..Len(ks) |-> Src(CASE i = 1 -> "mm" [] i = 2 -> "c" [] i = 3 -> "cpp" [] OTHER -> "m", <<Cmd(ks[i], ProcDecls(i))>>)]]
ProcFamily(deep) ==
     {ProcOne(l, k, g) : l \in {"c", "cpp", "m", "mm"}, k \in ProcKinds, g \in BOOLEAN}
  \cup {ProcTwo(l[1], l[2], k1, k2, g) : l \in (IF deep THEN {"c", "cpp", "m"} \X {"c", "cpp", "m"} ELSE {<<"c", "cpp">>, <<"m", "c">>}), k1 \in ProcKinds, k2 \in ProcKinds, g \in BOOLEAN}
  \cup {ProcMulti("c", "mm", k1, k2, k3, g) : k1 \in {"ok", "warn", "err"}, k2 \in {"ok", "hwarn", "fatal", "baddir"}, k3 \in {"ok", "err", "nojob"}, g \in BOOLEAN}
  \cup {ProcMany(ks, g, d) : ks \in [1..4 -> IF deep THEN {"ok", "hwarn", "err"} ELSE {"ok", "err"}], g \in BOOLEAN, d \in BOOLEAN}
  \cup {[Base EXCEPT !.srcs = <<Src("c", <<>>), Src("cpp", <<>>)>>, !.lay[CL].set.glob = <<g>>] : g \in BOOLEAN}

-------------------------------------------------------------------------------
(* plugs: layouts of rule and reporter directories *)
Layout(n) == CASE n = 1 -> <<Dir(<<Lib(<<RX>>)>>), Dir(<<Lib(<<RY>>), Lib(<<RZ>>)>>)>>
               [] n = 2 -> <<Dir(<<>>), Dir(<<Lib(<<RY, RX>>)>>)>>
               [] n = 3 -> <<NoDir, Dir(<<Lib(<<RX>>), Lib(<<>>), Lib(<<RP>>)>>)>>
               [] n = 4 -> <<Dir(<<Lib(<<RX>>)>>), NoDir>>
               [] n = 5 -> <<Dir(<<Lib(<<RX>>), BadLib>>), Dir(<<Lib(<<RY>>)>>)>>
               [] n = 6 -> <<Dir(<<Lib(<<RX>>)>>), Dir(<<BadLib>>)>>
               [] n = 7 -> <<Dir(<<Lib(<<>>)>>), Dir(<<>>)>>
               [] n = 8 -> <<NoDir, NoDir>>
               [] n = 9 -> <<Dir(<<Lib(<<RX>>), Lib(<<RX>>)>>), Dir(<<Lib(<<RY>>), Lib(<<RX>>), Lib(<<RZ>>)>>)>>
RepLayout(n) == CASE n = 1 -> <<RepLib("text")>>
                  [] n = 2 -> <<RepLib("alpha"), RepLib("text"), RepLib("beta"), RepLib("textx"), RepLib("Text")>>
                  [] n = 3 -> <<RepLib("alpha"), RepLib("beta")>>
                  [] n = 4 -> <<>>
                  [] n = 5 -> <<RepLib("alpha"), [ok |-> FALSE, name |-> ""]>>
PlugScenario(n, p, rn, ty, o, ok) ==
  LET s1 == [Base EXCEPT !.dirs = Layout(n), !.lay[CL].paths = p, !.list = TRUE, !.reps = [ok |-> ok, libs |-> RepLayout(rn)],
                         !.srcs = <<Src("c", <<Cmd("ok", <<D("d", <<"x", "y", "z">>), D("e", <<"x">>)>>)>>)>>]
      s2 == IF ty = "" THEN s1 ELSE SetCL(s1, "type", ty)
  IN IF o = "" THEN s2 ELSE SetCL(s2, "out", o)
PlugFamily == {PlugScenario(n, p, 1, "", "", TRUE) : n \in 1..9, p \in {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 1, 2>>}}
         \cup {PlugScenario(n, <<1, 2>>, rn, ty, o, ok) : n \in {1, 9}, rn \in 1..5, ty \in {"", "alpha", "text", "Text", "tex", "beta", "texts", "alpha.text", "ext"}, o \in {"", "file1"}, ok \in {TRUE}}
         \cup {PlugScenario(1, <<2>>, 2, ty, "", FALSE) : ty \in {"", "alpha"}}
         \cup {PlugScenario(1, <<1, 2>>, 2, ty, o, TRUE) : ty \in {"", "alpha"}, o \in {"stdout", "file1", "sub", "abs", "longname", "full", "nodir", "isdir"}}

Scenarios == CASE Family = "exit" -> ExitQuick \cup LimitFamily
               [] Family = "exitfull" -> ExitFamily \cup LimitFamily
               [] Family = "config" -> ConfigFamily(4) \cup PathFamily
               [] Family = "configfull" -> ConfigFamily(40) \cup PathFamily
               [] Family = "select" -> SelectFamily(2) \cup IdFamily(4)
               [] Family = "selectfull" -> SelectFamily(20) \cup IdFamily(5)
               [] Family = "process" -> ProcFamily(FALSE)
               [] Family = "processfull" -> ProcFamily(TRUE)
               [] Family = "plug" -> PlugFamily

ScSeq == SetToSeq(Scenarios)
sc == ScSeq[nr]
Init == nr \in 1..Len(ScSeq) /\ st = InitState /\ log = <<>>
Next == \E x \in Succ(sc, st) : st' = x.st /\ log' = log \o x.ev /\ nr' = nr
Emit == st.ph = "args" => PrintT("@@" \o ToJson(sc))

Config == ConfigLaw(sc, st)
Select == SelectLaw(sc, st)
Load == LoadLaw(sc, st)
ExitStatus == ExitLaw(sc, st)
Analysis == AnalysisLaw(sc, st)
Views == ViewLaw(sc, st)
Life == LifeLaw(sc, st, log)
(* a run always goes on until it is done *)
Ends == st.ph # "done" => Succ(sc, st) # {}
===============================================================================
