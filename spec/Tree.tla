-------------------------------- MODULE Tree --------------------------------
(* Programs as trees.  A node is a record [k |-> kind, v |-> name/operator,   *)
(* c |-> children, p |-> source range].  Kinds are listed where they are used. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
SumOf(f(_), s) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, s)
MaxOf(f(_), s) == FoldLeft(LAMBDA acc, x : Max2(acc, f(x)), 0, s)

FlatMap(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)

RECURSIVE Nodes(_)
(* all nodes of a tree, in preorder *)
Nodes(n) == FoldLeft(LAMBDA acc, x : acc \o Nodes(x), <<n>>, n.c)

RECURSIVE Size(_)
Size(n) == 1 + SumOf(Size, n.c)

RECURSIVE HasKind(_, _)
HasKind(n, ks) == n.k \in ks \/ \E i \in 1..Len(n.c) : HasKind(n.c[i], ks)

N(k, v, c) == [k |-> k, v |-> v, c |-> c]
Last1(s) == s[Len(s)]

(* ---- C++ conditions --------------------------------------------------------- *)
(* The first child of an if, ifelse, while or switch, and the second of a for, may *)
(* be a cvar <<init>>, the declaration of a variable v that is then the condition;  *)
(* that of an if, ifelse or switch may be a cinit <<statement, condition>>.  An if   *)
(* or ifelse with v = "cx" is an if constexpr, one with v = "ce" an if consteval,    *)
(* whose condition is none.                                                          *)
RECURSIVE CondOf(_)
CondOf(e) == IF e.k = "cinit" THEN CondOf(e.c[2]) ELSE e

RECURSIVE StripParens(_)
StripParens(n) == IF n.k = "par" THEN StripParens(n.c[1]) ELSE n

ExprKinds == {"v", "int", "bool", "land", "lor", "bin", "asg", "cond", "un", "par", "call", "cast", "msg",
              "lambda", "objcblock", "elvis", "str", "throw", "sub", "post", "nul", "mem", "memcall", "cmpnull", "none", "stmtexpr", "cvar", "cinit"}
=============================================================================
