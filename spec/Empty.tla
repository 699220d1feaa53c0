-------------------------------- MODULE Empty --------------------------------
(* Empty bodies: which constructs have an empty body, and where it is.         *)
EXTENDS Tree

EmptyBody(n) == n.k = "null" \/ (n.k = "block" /\ Len(n.c) = 0)
EBHit(rule, b) == IF EmptyBody(b) THEN <<[rule |-> rule, at |-> b]>> ELSE <<>>

EmptyOf(n) ==
  CASE n.k = "if" -> EBHit("empty if statement", n.c[2])
    [] n.k = "ifelse" -> EBHit("empty if statement", n.c[2]) \o EBHit("empty else block", n.c[3])
    [] n.k = "while" -> EBHit("empty while statement", n.c[2])
    [] n.k = "do" -> EBHit("empty do/while statement", n.c[1])
    [] n.k = "for" -> EBHit("empty for statement", n.c[4])
    [] n.k = "forin" -> EBHit("empty for statement", n.c[1])
    [] n.k = "switch" -> EBHit("empty switch statement", n.c[2])
    [] n.k \in {"try", "attry"} -> EBHit("empty try statement", n.c[1])
    [] n.k \in {"catch", "atcatch"} -> EBHit("empty catch statement", n.c[1])
    [] n.k = "atfinally" -> EBHit("empty finally statement", n.c[1])
    [] OTHER -> <<>>

EmptyHits(body) == FlatMap(EmptyOf, Nodes(body))
EmptyExpected(ln) == LET h == EmptyHits(ln.body) IN {<<h[i].rule, h[i].at.p, "">> : i \in 1..Len(h)}

(* ---- laws -------------------------------------------------------------------- *)
(* an empty block or statement is some construct's body, or an element of a       *)
(* block, case, label or one of the constructs without an empty-rule              *)
EmptyHolders == {"block", "case", "default", "label", "rfor", "sync", "pool", "lambda", "objcblock", "call", "cinit"}
RECURSIVE Unheld(_)
Unheld(n) == FoldLeft(LAMBDA acc, x : acc + Unheld(x), 0, n.c) +
             (IF n.k \in EmptyHolders THEN Cardinality({i \in 1..Len(n.c) : EmptyBody(n.c[i])}) ELSE 0)
CountEmpty(body) == Cardinality({i \in 1..Len(Nodes(body)) : EmptyBody(Nodes(body)[i])})
EmptyAccounted(body) == Len(EmptyHits(body)) + Unheld(body) + (IF EmptyBody(body) THEN 1 ELSE 0) = CountEmpty(body)
(* filling every empty block leaves nothing to report in blocks *)
RECURSIVE FillAll(_)
FillAll(n) == IF n.k = "block" /\ Len(n.c) = 0 THEN [n EXCEPT !.c = <<N("e", "", <<>>)>>]
              ELSE IF n.k = "null" THEN N("e", "", <<>>) ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> FillAll(n.c[i])]]
EmptyFilled(body) == EmptyHits(FillAll(body)) = <<>>
EmptyLaws(body) == EmptyAccounted(body) /\ EmptyFilled(body)
=============================================================================
