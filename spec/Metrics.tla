------------------------------ MODULE Metrics -------------------------------
(* The four structural metrics, as functions of the statement tree.           *)
(* Children: if <<cond, then>>, ifelse <<cond, then, else>>, while <<cond,     *)
(* body>>, do <<body, cond>>, for <<init, cond, inc, body>>, forin/rfor        *)
(* <<body>>, switch <<cond, body>>, case/default/label/attr <<sub>>, block <<...>>, *)
(* try <<block, catch...>>, attry <<block, atcatch..., [atfinally]>>,          *)
(* catch/atcatch/atfinally/sync/pool <<block>>, expr <<e>>, decl <<[init]>>.   *)
EXTENDS Tree

(* ---- cyclomatic complexity ---------------------------------------------- *)
DecisionKinds == {"if", "ifelse", "for", "forin", "rfor", "while", "do", "case", "catch", "atcatch", "cond", "land", "lor"}

RECURSIVE Decisions(_)
Decisions(n) == (IF n.k \in DecisionKinds THEN 1 ELSE 0) + SumOf(Decisions, n.c)

CCN(body) == 1 + Decisions(body)

(* ---- NPath (Nejmeh 1988, as composed by oclint), saturating ------------- *)
CAP == 2147483647
SatAdd(a, b) == IF a > CAP - b THEN CAP ELSE a + b
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > CAP \div b THEN CAP ELSE a * b
SatSum(s) == FoldLeft(SatAdd, 0, s)

RECURSIVE NPathE(_), NPathS(_)
(* an expression in condition position *)
NPathE(n) ==
  CASE n.k \in {"land", "lor"} -> SatSum(<<1, NPathE(n.c[1]), NPathE(n.c[2])>>)
    [] n.k = "cond" -> SatSum(<<NPathE(n.c[1]), NPathE(n.c[2]), NPathE(n.c[3]), 2>>)
    [] n.k \in {"par", "cast"} -> NPathE(n.c[1])
    [] n.k = "cinit" -> NPathE(n.c[2])
    [] OTHER -> 0

(* case groups: <<finished sum, product of the open group>> *)
SwitchBody(stmts) ==
  LET step(acc, s) == IF s.k \in {"case", "default"}
                      THEN <<SatAdd(acc[1], acc[2]), NPathS(s)>>
                      ELSE <<acc[1], SatMul(acc[2], NPathS(s))>>
      r == FoldLeft(step, <<0, 0>>, stmts)
  IN SatAdd(r[1], r[2])

NPathS(n) ==
  CASE n.k = "block" -> FoldLeft(LAMBDA acc, s : SatMul(acc, NPathS(s)), 1, n.c)
    [] n.k = "if" -> SatSum(<<NPathE(n.c[1]), NPathS(n.c[2]), 1>>)
    [] n.k = "ifelse" -> SatSum(<<NPathE(n.c[1]), NPathS(n.c[2]), NPathS(n.c[3])>>)
    [] n.k = "while" -> SatSum(<<NPathE(n.c[1]), NPathS(n.c[2]), 1>>)
    [] n.k = "do" -> SatSum(<<NPathE(n.c[2]), NPathS(n.c[1]), 1>>)
    [] n.k = "for" -> SatSum(<<1, NPathE(n.c[2]), NPathE(n.c[3]), NPathS(n.c[4]), 1>>)
    [] n.k \in {"forin", "rfor"} -> SatAdd(NPathS(n.c[1]), 2)
    [] n.k = "switch" -> IF n.c[2].k = "block" THEN SatAdd(NPathE(n.c[1]), SwitchBody(n.c[2].c))
                                               ELSE SatAdd(NPathE(n.c[1]), NPathS(n.c[2]))
    [] n.k \in {"case", "default", "label", "attr"} -> NPathS(n.c[1])
    [] OTHER -> 1

NPath(body) == NPathS(body)

(* ---- NCSS ---------------------------------------------------------------- *)
RECURSIVE NcssS(_)
NcssS(n) ==
  CASE n.k = "null" -> 0
    [] n.k = "block" -> SumOf(NcssS, n.c)
    [] n.k = "if" -> 1 + NcssS(n.c[2])
    [] n.k = "ifelse" -> 2 + NcssS(n.c[2]) + NcssS(n.c[3])
    [] n.k = "while" -> 1 + NcssS(n.c[2])
    [] n.k = "do" -> 2 + NcssS(n.c[1])
    [] n.k = "for" -> 1 + NcssS(n.c[4])
    [] n.k \in {"forin", "rfor"} -> 1 + NcssS(n.c[1])
    [] n.k = "attr" -> NcssS(n.c[1])
    [] n.k = "switch" -> 1 + NcssS(n.c[2])
    [] n.k \in {"case", "default", "label"} -> 1 + NcssS(n.c[1])
    [] n.k \in {"try", "attry"} -> 1 + SumOf(NcssS, n.c)
    [] n.k \in {"catch", "atcatch", "atfinally", "sync", "pool"} -> 1 + NcssS(n.c[1])
    [] OTHER -> 1

Ncss(body) == 1 + NcssS(body)

(* ---- block nesting depth -------------------------------------------------- *)
RECURSIVE DepthS(_)
DepthS(n) ==
  CASE n.k = "block" -> 1 + MaxOf(DepthS, n.c)
    [] n.k = "if" -> DepthS(n.c[2])
    [] n.k = "ifelse" -> Max2(DepthS(n.c[2]), DepthS(n.c[3]))
    [] n.k = "while" -> DepthS(n.c[2])
    [] n.k = "do" -> DepthS(n.c[1])
    [] n.k = "for" -> DepthS(n.c[4])
    [] n.k \in {"forin", "rfor"} -> DepthS(n.c[1])
    [] n.k = "switch" -> DepthS(n.c[2])
    [] n.k \in {"case", "default", "label", "attr", "catch", "atcatch", "atfinally", "sync", "pool"} -> DepthS(n.c[1])
    [] n.k \in {"try", "attry"} -> MaxOf(DepthS, n.c)
    [] OTHER -> 0

Blocks(body) == SelectSeq(Nodes(body), LAMBDA n : n.k = "block")

(* ---- what is reported ----------------------------------------------------- *)
Str(i) == ToString(i)
(* lim: the limits of the run; a limit is absent when its rule is not loaded *)
FunctionReport(body, fp, lim) ==
  (IF "ccn" \in DOMAIN lim /\ CCN(body) > lim.ccn
   THEN {<<"high cyclomatic complexity", fp, "Cyclomatic Complexity Number " \o Str(CCN(body)) \o " exceeds limit of " \o Str(lim.ccn)>>} ELSE {})
  \cup
  (IF "npath" \in DOMAIN lim /\ NPath(body) > lim.npath
   THEN {<<"high npath complexity", fp, "NPath Complexity Number " \o Str(NPath(body)) \o " exceeds limit of " \o Str(lim.npath)>>} ELSE {})
  \cup
  (IF "ncss" \in DOMAIN lim /\ Ncss(body) > lim.ncss
   THEN {<<"high ncss method", fp, "Method of " \o Str(Ncss(body)) \o " non-commenting source statements exceeds limit of " \o Str(lim.ncss)>>} ELSE {})

BlockReport(body, lim) ==
  IF "depth" \notin DOMAIN lim THEN {}
  ELSE LET B == Blocks(body) IN
       {<<"deep nested block", B[i].p, "Block depth of " \o Str(DepthS(B[i])) \o " exceeds limit of " \o Str(lim.depth)>> :
          i \in {j \in 1..Len(B) : DepthS(B[j]) > lim.depth}}

MetricsExpected(ln) == FunctionReport(ln.body, ln.fp, ln.lim) \cup BlockReport(ln.body, ln.lim)
=============================================================================
