-------------------------------- MODULE Jumps --------------------------------
(* Dead code, goto, finally blocks, loops.                                     *)
EXTENDS Tree

(* how a statement ends: "no" it may be followed by the next one, otherwise where control goes *)
RECURSIVE Exit(_)
Exit(s) ==
  CASE s.k = "break" -> "scope"
    [] s.k = "continue" -> "restart"
    [] s.k \in {"return", "goto", "atthrow"} -> "full"
    [] s.k = "expr" /\ s.c[1].k = "throw" -> "full"
    [] s.k \in {"case", "default"} -> Exit(s.c[1])
    [] s.k = "block" -> FoldLeft(LAMBDA acc, x : IF acc # "no" THEN acc ELSE Exit(x), "no", s.c)
    [] s.k = "ifelse" -> LET a == Exit(s.c[2])  b == Exit(s.c[3]) IN
         IF a = b THEN a ELSE IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "scope" \/ b = "scope" THEN "scope" ELSE "full"
    [] OTHER -> "no"

IsLabel(s) == s.k \in {"case", "default", "label"}
DeadIn(b) == LET ds == {i \in 2..Len(b.c) : ~IsLabel(b.c[i]) /\ Exit(b.c[i - 1]) # "no"}
             IN IF ds = {} THEN <<>> ELSE <<[rule |-> "dead code", at |-> b.c[CHOOSE i \in ds : \A j \in ds : i <= j]]>>

InFinally(f, ks) == SelectSeq(Nodes(f), LAMBDA x : x.k \in ks)
Raises(f) == SelectSeq(Nodes(f), LAMBDA x : x.k = "atthrow" \/ (x.k = "msg" /\ x.v = "raise" /\ x.c[1].v \in {"NSException", "exc"}))
JH(rule, n) == <<[rule |-> rule, at |-> n]>>
JAll(rule, s) == [i \in 1..Len(s) |-> [rule |-> rule, at |-> s[i]]]

LoopBody(n) == CASE n.k = "for" -> n.c[4] [] n.k = "while" -> n.c[2] [] n.k = "do" -> n.c[1] [] n.k \in {"forin", "rfor"} -> n.c[1]
LastOf(s) == IF s.k = "block" THEN (IF Len(s.c) = 0 THEN N("none", "", <<>>) ELSE s.c[Len(s.c)]) ELSE s
Branching(s) == s.k \in {"break", "continue", "return"}

InnerFor(n) == LET b == n.c[4] IN
  IF b.k = "for" THEN b ELSE IF b.k = "block" /\ Len(b.c) = 1 /\ b.c[1].k = "for" THEN b.c[1] ELSE N("none", "", <<>>)
Steps(e, name) == e.k \in {"un", "post"} /\ e.v \in {"++", "--"} /\ e.c[1].k = "v" /\ e.c[1].v = name
Declares(i, name) == (i.k = "decl" /\ i.v = name) \/ (i.k = "declm" /\ \E j \in 1..Len(i.c) : i.c[j].v = name)
Jumbled(n) == n.k = "for" /\ n.c[1].k = "decl" /\ InnerFor(n).k = "for"
              /\ Steps(InnerFor(n).c[3], n.c[1].v) /\ ~Declares(InnerFor(n).c[1], n.c[1].v)

(* ln: lines a statement extends over *)
LongIf(s, lim) == s.k = "if" /\ s.n > lim
EarlyMsg == "Use early exit/continue to simplify code and reduce indentation"
Early(n, lim) ==
  (IF n.k = "block" /\ Len(n.c) >= 2 /\ n.c[Len(n.c)].k \in {"break", "continue", "goto", "return"} /\ LongIf(n.c[Len(n.c) - 1], lim)
   THEN JH("prefer early exits and continue", n.c[Len(n.c) - 1]) ELSE <<>>)
  \o (IF n.k \in {"for", "while", "do"} /\ LongIf(LastOf(LoopBody(n)), lim) THEN JH("prefer early exits and continue", LastOf(LoopBody(n))) ELSE <<>>)

JumpsOf(n) ==
  CASE n.k = "block" -> DeadIn(n)
    [] n.k = "goto" -> JH("goto statement", n)
    [] n.k = "atfinally" -> JAll("return from finally block", InFinally(n, {"return"})) \o JAll("throw exception from finally block", Raises(n))
    [] n.k \in {"for", "while", "do", "forin"} ->
         (IF LoopBody(n).k = "block" /\ Branching(LastOf(LoopBody(n))) THEN JH("avoid branching statement as last in loop", LastOf(LoopBody(n))) ELSE <<>>)
         \o (IF n.k = "for" /\ n.c[1].k = "none" /\ n.c[3].k = "none" /\ n.c[2].k # "none" THEN JH("for loop should be while loop", n) ELSE <<>>)
         \o (IF Jumbled(n) THEN JH("jumbled incrementer", InnerFor(n).c[3]) ELSE <<>>)
    [] OTHER -> <<>>

JumpHits(body) == FlatMap(JumpsOf, Nodes(body))
EarlyHits(body, lim) == FlatMap(LAMBDA n : Early(n, lim), Nodes(body))
JumpsExpected(ln) == LET h == JumpHits(ln.body)  e == EarlyHits(ln.body, ln.lim.early) IN
  {<<h[i].rule, h[i].at.p, "">> : i \in 1..Len(h)} \cup {<<e[i].rule, e[i].at.p, EarlyMsg>> : i \in 1..Len(e)}

(* ---- laws ------------------------------------------------------------------- *)
(* Reachability, defined independently by execution: Run(s) is the set of ways    *)
(* control can leave s ("next", "break", "continue", "away") when every condition *)
(* may go either way.                                                             *)
LoopOut(r) == (IF "break" \in r THEN {"next"} ELSE {}) \cup (r \cap {"away"})
RECURSIVE Run(_)
Run(s) ==
  CASE s.k = "break" -> {"break"}
    [] s.k = "continue" -> {"continue"}
    [] s.k \in {"return", "goto", "atthrow"} -> {"away"}
    [] s.k = "expr" /\ s.c[1].k = "throw" -> {"away"}
    [] s.k = "block" -> FoldLeft(LAMBDA acc, x : IF "next" \in acc THEN (acc \ {"next"}) \cup Run(x) ELSE acc, {"next"}, s.c)
    [] s.k = "if" -> Run(s.c[2]) \cup {"next"}
    [] s.k = "ifelse" -> Run(s.c[2]) \cup Run(s.c[3])
    [] s.k \in {"while", "for", "forin", "rfor"} -> LoopOut(Run(LoopBody(s))) \cup {"next"}
    [] s.k = "do" -> LET r == Run(s.c[1]) IN LoopOut(r) \cup (IF r \cap {"next", "continue"} # {} THEN {"next"} ELSE {})
    [] s.k = "switch" -> {"next"} \cup (Run(s.c[2]) \ {"break"})
    [] s.k \in {"case", "default"} -> Run(s.c[1])
    [] s.k \in {"sync", "pool", "catch", "atcatch", "atfinally"} -> Run(s.c[1])
    [] s.k \in {"try", "attry"} -> UNION {Run(s.c[i]) : i \in 1..Len(s.c)}
    [] OTHER -> {"next"}
NoLabels(b) == ~HasKind(b, {"label", "switch"})
(* what is reported as dead cannot be reached: what precedes it never continues *)
DeadSound(body) == NoLabels(body) => \A i \in 1..Len(Nodes(body)) : LET n == Nodes(body)[i] IN
  n.k = "block" => \A j \in 2..Len(n.c) : (DeadIn(n) # <<>> /\ Exit(n.c[j - 1]) # "no") => "next" \notin Run(n.c[j - 1])
(* and among straight-line code, ifs and blocks nothing dead is missed *)
DeadComplete(body) == ~HasKind(body, {"label", "switch", "do", "try", "attry", "sync", "pool"}) => \A i \in 1..Len(Nodes(body)) : LET n == Nodes(body)[i] IN
  n.k = "block" => \A j \in 2..Len(n.c) : ("next" \notin Run(n.c[j - 1])) => Exit(n.c[j - 1]) # "no"
(* at most one report per block *)
JumpsLaws(body) == DeadSound(body) /\ DeadComplete(body)
=============================================================================
