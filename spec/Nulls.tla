-------------------------------- MODULE Nulls --------------------------------
(* Null and nil checks.  A test of a variable is ==/!= with a null pointer on    *)
(* one side, its negation, or the variable itself; parentheses do not matter.    *)
(* What makes a check wrong is stated through evaluation: whether the operand    *)
(* that uses the variable is evaluated when the variable is null.                *)
EXTENDS Tree

NoVar == ""
VarOf(e) == LET x == StripParens(e) IN IF x.k = "v" THEN x.v ELSE NoVar
IsNul(e) == LET x == StripParens(e) IN x.k = "nul"
(* [v |-> variable or "", eq |-> is it true when the variable is null?] *)
Test(e) ==
  LET x == StripParens(e) IN
  CASE x.k = "bin" /\ x.v \in {"==", "!="} /\ IsNul(x.c[1]) # IsNul(x.c[2]) ->
         [v |-> IF IsNul(x.c[1]) THEN VarOf(x.c[2]) ELSE VarOf(x.c[1]), eq |-> x.v = "=="]
    [] x.k = "un" /\ x.v = "!" -> [v |-> VarOf(x.c[1]), eq |-> TRUE]
    [] x.k = "v" -> [v |-> x.v, eq |-> FALSE]
    [] OTHER -> [v |-> NoVar, eq |-> FALSE]
Holds(t, isnull) == t.eq = isnull
(* does the second operand of && or || get evaluated, given the first one's value? *)
Evaluated(op, first) == IF op = "land" THEN first ELSE ~first

Uses(e, x, objc) == \E i \in 1..Len(Nodes(e)) :
  LET n == Nodes(e)[i] IN (IF objc THEN n.k = "msg" ELSE n.k \in {"mem", "memcall"}) /\ VarOf(n.c[1]) = x

(* the use is evaluated exactly when the variable is null *)
BrokenAt(n, objc) == LET t == Test(n.c[1]) IN
  /\ t.v # NoVar /\ Uses(n.c[2], t.v, objc)
  /\ Evaluated(n.k, Holds(t, TRUE)) /\ ~Evaluated(n.k, Holds(t, FALSE))
(* the use comes first; the other way round it would be guarded by the test *)
MisplacedAt(n, objc) == LET t == Test(n.c[2]) IN
  /\ t.v # NoVar /\ Uses(n.c[1], t.v, objc)
  /\ ~Evaluated(n.k, Holds(t, TRUE)) /\ Evaluated(n.k, Holds(t, FALSE))
(* a message to nil is harmless: the test makes no difference (unless what follows is a negation) *)
RedundantAt(n) == LET t == Test(n.c[1])  r == StripParens(n.c[2]) IN
  /\ n.k = "land" /\ t.v # NoVar /\ ~t.eq /\ Uses(n.c[2], t.v, TRUE)
  /\ ~(r.k = "un" /\ r.v = "!")

(* an if that only guards deleting what it tests *)
RECURSIVE SameE(_, _)
SameE(a, b) == a.k = b.k /\ a.v = b.v /\ Len(a.c) = Len(b.c) /\ \A i \in 1..Len(a.c) : SameE(a.c[i], b.c[i])
Guarded(cnd) == IF cnd.k = "bin" THEN (IF cnd.v # "!=" THEN <<>> ELSE IF cnd.c[1].k = "nul" THEN <<cnd.c[2]>> ELSE IF cnd.c[2].k = "nul" THEN <<cnd.c[1]>> ELSE <<>>)
                ELSE <<cnd>>
IsDelete(s, e) == s.k = "delete" /\ SameE(s.c[1], e)
IsReset(s, e) == s.k = "expr" /\ s.c[1].k = "asg" /\ s.c[1].v = "=" /\ s.c[1].c[2].k = "nul" /\ SameE(s.c[1].c[1], e)
NeedlessAt(n) == n.k = "if" /\ Guarded(CondOf(n.c[1])) # <<>> /\
  LET e == Guarded(CondOf(n.c[1]))[1]  s == n.c[2] IN
  IF s.k = "block" THEN \/ Len(s.c) = 1 /\ IsDelete(s.c[1], e)
                        \/ Len(s.c) = 2 /\ IsDelete(s.c[1], e) /\ IsReset(s.c[2], e)
  ELSE IsDelete(s, e)

NullsExpected(ln) ==
  LET ns == Nodes(ln.body)
      objc == ln.lang \in {"m", "mm"}
      At(P(_), name) == {<<name, ns[i].p, "">> : i \in {j \in 1..Len(ns) : P(ns[j])}}
      Logical(n) == n.k \in {"land", "lor"}
  IN At(LAMBDA n : Logical(n) /\ BrokenAt(n, objc), IF objc THEN "broken nil check" ELSE "broken null check")
     \cup At(LAMBDA n : Logical(n) /\ MisplacedAt(n, objc), IF objc THEN "misplaced nil check" ELSE "misplaced null check")
     \cup (IF objc THEN At(LAMBDA n : Logical(n) /\ RedundantAt(n), "redundant nil check") ELSE {})
     \cup (IF ln.lang = "cpp" THEN At(NeedlessAt, "unnecessary null check for dealloc") ELSE {})

(* ---- laws --------------------------------------------------------------------- *)
RECURSIVE Mirror(_)
(* every comparison with its sides exchanged *)
Mirror(n) == IF n.k = "bin" /\ n.v \in {"==", "!="} THEN [n EXCEPT !.c = <<Mirror(n.c[2]), Mirror(n.c[1])>>]
             ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Mirror(n.c[i])]]
RECURSIVE Dual(_)
(* every test negated and every && exchanged with || (bare variables become negations) *)
DualTest(n) == IF n.k = "bin" /\ n.v = "==" THEN [n EXCEPT !.v = "!="] ELSE IF n.k = "bin" /\ n.v = "!=" THEN [n EXCEPT !.v = "=="]
               ELSE IF n.k = "v" THEN N("un", "!", <<n>>) ELSE IF n.k = "un" /\ n.v = "!" /\ n.c[1].k = "v" THEN n.c[1]
               ELSE IF n.k = "par" THEN Dual(n) ELSE n
Dual(n) == IF n.k \in {"land", "lor"} THEN [n EXCEPT !.k = IF n.k = "land" THEN "lor" ELSE "land", !.c = [i \in 1..2 |-> IF n.c[i].k \in {"land", "lor"} THEN Dual(n.c[i]) ELSE DualTest(n.c[i])]]
           ELSE IF n.k = "par" /\ n.c[1].k \in {"land", "lor", "par"} THEN [n EXCEPT !.c = <<Dual(n.c[1])>>]
           ELSE IF n.k = "par" THEN [n EXCEPT !.c = <<DualTest(n.c[1])>>] ELSE n
RECURSIVE Plain(_)
(* only logical operators, tests and uses, no negated or computed operands *)
Plain(n) == \/ (n.k \in {"land", "lor", "par", "v", "nul", "mem", "memcall", "msg"} /\ (\A i \in 1..Len(n.c) : Plain(n.c[i])))
            \/ (n.k = "bin" /\ n.v \in {"==", "!="})
            \/ (n.k = "un" /\ n.c[1].k = "v")
NullsLaws(e) ==
  LET ns == Nodes(e)
      ms == Nodes(Mirror(e))
  IN \A objc \in BOOLEAN : \A i \in 1..Len(ns) : ns[i].k \in {"land", "lor"} =>
       LET n == ns[i]  sw == [n EXCEPT !.c = <<n.c[2], n.c[1]>>] IN
       (* a check that is right in one order is misplaced in the other, and never broken *)
       /\ (MisplacedAt(n, objc) => ~BrokenAt(sw, objc))
       (* the side of the null in a comparison does not matter *)
       /\ BrokenAt(n, objc) = BrokenAt(Mirror(n), objc) /\ MisplacedAt(n, objc) = MisplacedAt(Mirror(n), objc)
       /\ RedundantAt(n) = RedundantAt(Mirror(n))
       (* a redundant check is not a broken one *)
       /\ ~(RedundantAt(n) /\ BrokenAt(n, TRUE))
       (* De Morgan: negating every test and exchanging the operators keeps the verdict *)
       /\ (Plain(n) => (BrokenAt(n, objc) = BrokenAt(Dual(n), objc) /\ MisplacedAt(n, objc) = MisplacedAt(Dual(n), objc)))
=============================================================================
