------------------------------- MODULE RunLaws --------------------------------
(* The guarantees of a run, stated over the scenario alone, for checking Run.    *)
EXTENDS Run

(* --- configuration: the last layer that sets it; the command line above all --- *)
Settled(sc, f) ==
  LET setters == {i \in FileLayers : sc.lay[i].set[f] # <<>>}
  IN IF sc.lay[CL].set[f] # <<>> THEN sc.lay[CL].set[f][1]
     ELSE IF setters # {} THEN sc.lay[CHOOSE i \in setters : \A j \in setters : j <= i].set[f][1]
     ELSE Default[f][1]
AllRc(sc) == Flat([i \in 1..4 |-> sc.lay[i].rc])
SettledRc(sc, k) == LET all == AllRc(sc)
                        ix == {i \in 1..Len(all) : all[i][1] = k}
                    IN IF ix = {} THEN "<none>" ELSE all[CHOOSE i \in ix : \A j \in ix : j <= i][2]
UsedDirs(sc) == LET given == UNION {Rng(sc.lay[i].paths) : i \in 1..4} IN IF given = {} THEN {sc.defdir} ELSE given
ConfigLaw(sc, st) ==
  st.ph \in {"dir", "done"} /\ st.rc0 # 7 =>
     /\ \A f \in Fields : Get(st, f) = Settled(sc, f)
     /\ \A k \in {p[1] : p \in Rng(AllRc(sc))} \cup {"unset"} : Value(st, k) = SettledRc(sc, k)
     /\ Rng(st.paths) = UsedDirs(sc)

(* --- selection: the last request naming a rule decides for it --- *)
Requests(sc) == Flat([i \in 1..4 |-> [j \in 1..Len(sc.lay[i].en) |-> <<"en", sc.lay[i].en[j]>>]
                                     \o [j \in 1..Len(sc.lay[i].dis) |-> <<"dis", sc.lay[i].dis[j]>>]])
LastRequest(sc, id) == LET q == Requests(sc)
                           ix == {i \in 1..Len(q) : q[i][2] = id}
                       IN IF ix = {} THEN "none" ELSE q[CHOOSE i \in ix : \A j \in ix : j <= i][1]
Wanted(sc, r) ==
  LET named == {q[2] : q \in Rng(Requests(sc))}
      enabled == {id \in named : LastRequest(sc, id) = "en"}
  IN IF enabled # {} THEN Identifier(r) \in enabled ELSE LastRequest(sc, Identifier(r)) # "dis"
SelectLaw(sc, st) ==
  st.ph \in {"compile", "report", "exit"} =>
     /\ st.sel = Sel(st.rules, LAMBDA r : Wanted(sc, r))
     /\ sc.list => st.listing = [i \in 1..Len(st.sel) |-> Identifier(st.sel[i])]

(* --- plug-ins: every library of every used directory, once --- *)
UsedLibs(sc) == UNION {LibsOf(sc, d) : d \in UsedDirs(sc)}
LibAt(sc, x) == sc.dirs[x[1]].libs[x[2]]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
LoadLaw(sc, st) ==
  st.ph \in {"reporter", "select", "report", "exit"} =>
     /\ st.loaded = UsedLibs(sc)
     /\ Len(st.rules) = SumSeq([i \in 1..Cardinality(UsedLibs(sc)) |-> Len(LibAt(sc, SetToSeq(UsedLibs(sc))[i]).rules)])
     /\ \A x \in UsedLibs(sc) : \A r \in Rng(LibAt(sc, x).rules) : r \in Rng(st.rules)

(* --- the exit status: the first stage that fails, or the verdict --- *)
NoRules(sc) == \A x \in UsedLibs(sc) : LibAt(sc, x).rules = <<>>
RepNames(sc) == IF sc.reps.ok THEN {sc.reps.libs[j].name : j \in {k \in 1..Len(sc.reps.libs) : sc.reps.libs[k].ok}} ELSE {}
BadRep(sc) == sc.reps.ok /\ \E j \in 1..Len(sc.reps.libs) : ~sc.reps.libs[j].ok
KindsOf(sc) == {CmdOf(sc, c).kind : c \in Rng(Commands(sc))}
Verdict(sc, st) ==
  IF sc.badargs THEN {7}
  ELSE IF (\E x \in UsedLibs(sc) : ~LibAt(sc, x).ok) \/ NoRules(sc) THEN {1}
  ELSE IF Settled(sc, "type") \notin RepNames(sc) THEN {2}
  ELSE (IF BadRep(sc) THEN {2} ELSE {})
       \cup (IF \E k \in KindsOf(sc) : Unusable(k) THEN {3}
             ELSE IF Settled(sc, "out") \in {"nodir", "isdir", "full"} THEN {4}
             ELSE IF KindsOf(sc) \cap {"err", "fatal"} # {} THEN {6}
             ELSE IF \E p \in 1..3 : Prio(st, p) > Settled(sc, CASE p = 1 -> "p1" [] p = 2 -> "p2" [] p = 3 -> "p3") THEN {5}
             ELSE {0})
ExitLaw(sc, st) ==
  st.ph = "done" =>
     /\ st.rc0 \in Verdict(sc, st)
     /\ (st.rc0 \in {0, 5, 6}) = (st.report # <<>>)
     /\ st.rc0 = 5 <=> st.exceeded # <<>>
     /\ st.rc0 = 0 => \A p \in {<<st.report[1].p1, "p1">>, <<st.report[1].p2, "p2">>, <<st.report[1].p3, "p3">>} : p[1] <= Settled(sc, p[2])

(* --- analysis: every selected rule, every file that compiles, once, in order --- *)
AnalysisLaw(sc, st) ==
  st.ph = "done" /\ st.rc0 \in {0, 4, 5, 6} =>
     LET good == Sel(Commands(sc), LAMBDA c : Compiles(CmdOf(sc, c).kind))
     IN st.sets = [i \in 1..Len(good) |-> Flat([j \in 1..Len(st.sel) |-> IF Supports(sc, st.sel[j], good[i]) THEN By(j, Found(sc, st.sel[j], good[i])) ELSE <<>>])]
(* the report of a run is put together from the reports of its files analysed alone by each rule alone *)
ViewLaw(sc, st) ==
  st.report # <<>> =>
     LET vs == st.report[1].violations
         raw == Flat(st.sets)
         first == {i \in 1..Len(raw) : \A j \in 1..(i - 1) : raw[j] # raw[i]}
         ord == SetToSortSeq(IF Settled(sc, "dup") THEN 1..Len(raw) ELSE first, <)
     IN /\ vs = [i \in 1..Len(ord) |-> raw[ord[i]].v]
        /\ st.report[1].n = Len(vs)
        /\ st.report[1].files = Cardinality({c \in Rng(Commands(sc)) : Compiles(CmdOf(sc, c).kind)})

(* --- the life of a rule, over the log of events --- *)
RECURSIVE Applications(_)
(* the log of the analysis cut into maximal runs between setup and teardown *)
Applications(log) ==
  IF log = <<>> THEN <<>>
  ELSE LET ends == {i \in 1..Len(log) : log[i].e = "teardown"}
           e == IF ends = {} THEN Len(log) ELSE CHOOSE i \in ends : \A j \in ends : i <= j
       IN <<SubSeq(log, 1, e)>> \o Applications(SubSeq(log, e + 1, Len(log)))
LifeLaw(sc, st, log) ==
  st.ph = "done" /\ st.rc0 \in {0, 4, 5, 6} =>
     LET apps == Applications(Sel(log, LAMBDA x : x.e # "load"))
         good == Sel(Commands(sc), LAMBDA c : Compiles(CmdOf(sc, c).kind))
         due == Flat([i \in 1..Len(good) |-> [j \in 1..Len(Sel(st.sel, LAMBDA r : Supports(sc, r, good[i]))) |->
                        [r |-> Sel(st.sel, LAMBDA r : Supports(sc, r, good[i]))[j], c |-> good[i]]]])
         before(c) == Cardinality({k \in 1..Len(due) : \E a, b \in 1..Len(good) : good[a] = due[k].c /\ good[b] = c /\ a < b})
     IN /\ Len(apps) = Len(due)
        /\ \A k \in 1..Len(due) :
             LET a == apps[k]
                 r == due[k].r
                 decls == CmdOf(sc, due[k].c).decls
                 stamp == IF Settled(sc, "glob") THEN 0 ELSE before(due[k].c)
             IN /\ a[1].e = "setup" /\ a[Len(a)].e = "teardown"
                /\ \A i \in 1..Len(a) : a[i].r = RuleName(r)
                /\ a[1].x = FileName(sc, due[k].c.s) /\ a[Len(a)].x = a[1].x
                /\ \A i \in 2..(Len(a) - 1) : a[i].e \notin {"setup", "teardown"}
                /\ r.kind \in {"visitor", "matcher"} =>
                     [i \in 1..(Len(a) - 2) |-> a[i + 1].x] = <<StampName(stamp)>> \o [i \in 1..Len(decls) |-> DeclName(decls[i])]
===============================================================================
