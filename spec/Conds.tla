-------------------------------- MODULE Conds --------------------------------
(* Redundant and suspicious conditions.  Expressions carry their C or C++ type  *)
(* because an implicit conversion hides an operand from a rule.                 *)
EXTENDS Tree

BoolVars == {"q", "r"}
CmpOps == {"==", "!=", "<", ">"}
T2(t, lv) == [t |-> t, lv |-> lv]
RECURSIVE Ty(_, _)
(* cxx: is the file C++?  "bool" is bool in C++ and BOOL (signed char) in C *)
Ty(e, cxx) ==
  CASE e.k = "v" -> T2(IF e.v \in BoolVars THEN "bool" ELSE "int", TRUE)
    [] e.k = "int" -> T2("int", FALSE)
    [] e.k \in {"bool", "objcbool"} -> T2("bool", FALSE)
    [] e.k = "par" -> Ty(e.c[1], cxx)
    [] e.k = "cast" -> T2(IF e.v = "BOOL" THEN "bool" ELSE "int", FALSE)
    [] e.k \in {"land", "lor"} -> T2(IF cxx THEN "bool" ELSE "int", FALSE)
    [] e.k = "bin" -> IF e.v \in CmpOps THEN T2(IF cxx THEN "bool" ELSE "int", FALSE)
                      ELSE IF e.v = "," THEN [Ty(e.c[2], cxx) EXCEPT !.lv = @ /\ cxx]
                      ELSE T2("int", FALSE)
    [] e.k = "un" -> IF e.v = "!" THEN T2(IF cxx THEN "bool" ELSE "int", FALSE)
                     ELSE IF e.v \in {"++", "--"} THEN [Ty(e.c[1], cxx) EXCEPT !.lv = cxx] ELSE T2("int", FALSE)
    [] e.k = "post" -> [Ty(e.c[1], cxx) EXCEPT !.lv = FALSE]
    [] e.k = "asg" -> [Ty(e.c[1], cxx) EXCEPT !.lv = cxx]
    [] e.k = "cond" -> LET x == Ty(e.c[2], cxx)  y == Ty(e.c[3], cxx) IN
                       IF cxx /\ x.t = y.t THEN T2(x.t, x.lv /\ y.lv) ELSE T2("int", FALSE)
    [] e.k = "elvis" -> LET x == Ty(e.c[1], cxx)  y == Ty(e.c[2], cxx) IN
                       IF cxx /\ x.t = y.t /\ x.lv /\ y.lv THEN x ELSE T2("int", FALSE)
    [] e.k \in {"sub", "cvar"} -> T2("int", TRUE)
    [] OTHER -> T2("int", FALSE)

(* is e used as it is (without conversion) where a value of type want is needed? *)
Direct(e, want, cxx) == LET y == Ty(e, cxx) IN ~y.lv /\ (want = "any" \/ y.t = want)
CondWant(cxx) == IF cxx THEN "bool" ELSE "any"

(* ---- constant conditions ----------------------------------------------------- *)
NC == <<>>                                  \* not a constant
CV(x) == <<x>>                              \* the constant x
IsC(x) == x # NC
Truth(x) == x[1] # 0
B01(b) == IF b THEN CV(1) ELSE CV(0)
BOp(op, x, y) == CASE op = "&" -> x /\ y [] op = "|" -> x \/ y [] OTHER -> x # y
RECURSIVE Bits(_, _, _, _)
Bits(op, a, b, n) == IF n = 0 THEN 0 ELSE 2 * Bits(op, a \div 2, b \div 2, n - 1) + (IF BOp(op, a % 2 = 1, b % 2 = 1) THEN 1 ELSE 0)
Wrap(x) == (x + 1048576) % 1048576          \* 20 bits are enough for the constants generated
UnWrap(x) == IF x >= 524288 THEN x - 1048576 ELSE x
Bit(op, a, b) == UnWrap(Bits(op, Wrap(a), Wrap(b), 20))
(* C division truncates *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Rem(a, b) == LET m == Abs(a) % Abs(b) IN IF a < 0 THEN 0 - m ELSE m
BinVal(op, x, y) ==
  CASE op = "+" -> CV(x + y) [] op = "-" -> CV(x - y) [] op = "*" -> CV(x * y)
    [] op = "<" -> B01(x < y) [] op = ">" -> B01(x > y) [] op = "==" -> B01(x = y) [] op = "!=" -> B01(x # y)
    [] op = "%" -> IF y = 0 THEN NC ELSE CV(Rem(x, y))
    [] op \in {"&", "|", "^"} -> CV(Bit(op, x, y))
    [] OTHER -> NC
IntOf(s) == CHOOSE i \in 0..9 : ToString(i) = s
RECURSIVE Val(_)
Val(e) ==
  CASE e.k = "int" -> CV(IntOf(e.v))
    [] e.k = "bool" -> B01(e.v = "true")
    [] e.k = "objcbool" -> B01(e.v = "__objc_yes")
    [] e.k \in {"par", "cast"} -> Val(e.c[1])
    [] e.k = "un" -> LET x == Val(e.c[1]) IN
         IF ~IsC(x) THEN NC
         ELSE CASE e.v = "!" -> B01(x[1] = 0) [] e.v = "-" -> CV(0 - x[1]) [] e.v = "+" -> x
                [] e.v = "~" -> CV(0 - x[1] - 1) [] OTHER -> NC
    (* an operand that decides the result does so on either side *)
    [] e.k = "land" -> LET x == Val(e.c[1])  y == Val(e.c[2]) IN
         IF IsC(x) THEN (IF ~Truth(x) THEN CV(0) ELSE IF IsC(y) THEN B01(Truth(y)) ELSE NC)
         ELSE IF IsC(y) /\ ~Truth(y) THEN CV(0) ELSE NC
    [] e.k = "lor" -> LET x == Val(e.c[1])  y == Val(e.c[2]) IN
         IF IsC(x) THEN (IF Truth(x) THEN CV(1) ELSE IF IsC(y) THEN B01(Truth(y)) ELSE NC)
         ELSE IF IsC(y) /\ Truth(y) THEN CV(1) ELSE NC
    [] e.k = "bin" -> LET x == Val(e.c[1])  y == Val(e.c[2]) IN
         IF e.v = "," THEN y ELSE IF IsC(x) /\ IsC(y) THEN BinVal(e.v, x[1], y[1]) ELSE NC
    [] e.k = "cond" -> LET x == Val(e.c[1]) IN
         IF IsC(x) THEN (IF Truth(x) THEN Val(e.c[2]) ELSE Val(e.c[3])) ELSE NC
    [] e.k = "elvis" -> LET x == Val(e.c[1]) IN IF IsC(x) THEN (IF Truth(x) THEN x ELSE Val(e.c[2])) ELSE NC
    [] OTHER -> NC

(* ---- the rules --------------------------------------------------------------- *)
CH(rule, n) == <<[rule |-> rule, at |-> n]>>
If1(b, s) == IF b THEN s ELSE <<>>

InnerIf(s) == IF s.k \in {"if", "ifelse"} THEN s
              ELSE IF s.k = "block" /\ Len(s.c) = 1 /\ s.c[1].k \in {"if", "ifelse"} THEN s.c[1] ELSE N("none", "", <<>>)
(* the inner condition can be moved to the outer if: both are of the same kind, and it declares nothing *)
Combinable(n, m) == n.v = m.v /\ m.v # "ce" /\ m.c[1].k \notin {"cvar", "cinit"}
Collapsible(n) == n.k = "if" /\ InnerIf(n.c[2]).k = "if" /\ Combinable(n, InnerIf(n.c[2]))

RECURSIVE Sole(_)
(* the one statement a branch consists of *)
Sole(s) == IF s.k = "block" THEN (IF Len(s.c) = 1 THEN Sole(s.c[1]) ELSE N("none", "", <<>>)) ELSE s

(* boolean constant written as such: <<truth>>, or NC *)
BoolLit(e, want, cxx) ==
  IF e.k = "none" \/ ~Direct(e, want, cxx) THEN NC
  ELSE IF e.k = "bool" THEN <<"b", e.v = "true">>
  ELSE IF e.k = "objcbool" THEN <<"o", e.v = "__objc_yes">>
  ELSE IF e.k = "cast" /\ e.c[1].k = "int" THEN <<"c", e.c[1].v # "0">>
  ELSE NC
Opposite(x, y) == IsC(x) /\ IsC(y) /\ x[1] = y[1] /\ x[2] # y[2]
SameLit(x, y) == IsC(x) /\ IsC(y) /\ x = y

(* the value a branch produces: of a return, or of the right side of a binary operator *)
BinRhs(s, cxx) ==
  IF s.k # "expr" THEN NC
  ELSE LET e == s.c[1] IN
    CASE e.k = "asg" /\ e.v = "=" -> BoolLit(e.c[2], Ty(e.c[1], cxx).t, cxx)
      [] e.k \in {"land", "lor"} -> IF cxx THEN BoolLit(e.c[2], "bool", cxx) ELSE IF e.c[2].k = "cast" /\ e.c[2].v # "BOOL" THEN BoolLit(e.c[2], "any", cxx) ELSE NC
      [] e.k = "bin" /\ e.v = "," -> BoolLit(e.c[2], "any", cxx)
      [] e.k = "bin" -> BoolLit(e.c[2], "int", cxx)
      [] e.k = "asg" -> BoolLit(e.c[2], "int", cxx)
      [] OTHER -> NC
RetVal(s, rt, cxx) == IF s.k = "return" /\ Len(s.c) = 1 THEN BoolLit(s.c[1], rt, cxx) ELSE NC
RedundantIf(n, rt, cxx) == n.k = "ifelse" /\
  LET a == Sole(n.c[2])  b == Sole(n.c[3]) IN
    \/ Opposite(RetVal(a, rt, cxx), RetVal(b, rt, cxx))
    \/ Opposite(BinRhs(a, cxx), BinRhs(b, cxx))

(* a constant branch of ?: as the rule sees it *)
CondLit(e, cxx) ==
  CASE e.k = "bool" -> <<"b", e.v = "true">>
    [] e.k = "objcbool" -> <<"o", e.v = "__objc_yes">>
    [] e.k = "cast" /\ e.v = "BOOL" /\ e.c[1].k = "int" -> <<"c", e.c[1].v # "0">>
    [] OTHER -> NC
(* in C++ a boolean branch beside an int branch is converted, and so hidden *)
RedundantCond(n, cxx) == n.k = "cond" /\
  LET a == n.c[2]  b == n.c[3]  x == CondLit(a, cxx)  y == CondLit(b, cxx) IN
    \/ Opposite(x, y) \/ SameLit(x, y)
    \/ (a.k = "int" /\ b.k = "int" /\ a.v = b.v)
    \/ (a.k = "str" /\ b.k = "str" /\ a.v = b.v)
    \/ (a.k = "v" /\ b.k = "v" /\ a.v = b.v)

Inverted(e) == (e.k = "bin" /\ e.v = "!=") \/ (e.k = "un" /\ e.v = "!")

RECURSIVE AllReturn(_)
AllReturn(s) == CASE s.k = "block" -> \E i \in 1..Len(s.c) : AllReturn(s.c[i])
                  [] s.k = "ifelse" -> AllReturn(s.c[2]) /\ AllReturn(s.c[3])
                  [] s.k = "return" -> TRUE
                  [] OTHER -> FALSE
RECURSIVE ElseChain(_)
(* <<all then-branches of the chain return, the final else or none>>; the branches *)
(* of an if constexpr or if consteval are alternatives to the compiler, too        *)
Returns(n) == n.v = "" /\ AllReturn(n.c[2])
ElseChain(n) == IF n.k = "if" THEN <<Returns(n), N("none", "", <<>>)>>
                ELSE IF n.c[3].k \in {"if", "ifelse"} THEN LET r == ElseChain(n.c[3]) IN <<Returns(n) /\ r[1], r[2]>>
                ELSE <<Returns(n), n.c[3]>>

NotOps == {"!", "~", "+", "-"}
Stripped(e) == StripParens(e.c[1])
(* is the inner operator seen without a conversion in between? *)
Visible(outer, inner, cxx) == ~cxx \/ ((outer.v = "!") = (inner.v = "!"))
DoubleNeg(n, cxx) == n.k = "un" /\ Stripped(n).k = "un" /\ n.v = Stripped(n).v /\ n.v \in {"!", "~"}
MultiUn(n, cxx) == n.k = "un" /\ Stripped(n).k = "un" /\ n.v \in NotOps /\ Stripped(n).v \in NotOps /\ Visible(n, Stripped(n), cxx)

HasBitwise(e) == \E i \in 1..Len(Nodes(e)) : Nodes(e)[i].k = "bin" /\ Nodes(e)[i].v \in {"&", "|", "^"}

Rem2(e) == e.k = "bin" /\ e.v = "%" /\ e.c[2].k = "int" /\ e.c[2].v = "2"
One(e) == e.k = "int" /\ e.v = "1"
Oddness(n) == n.k = "bin" /\ n.v = "==" /\ ((One(n.c[2]) /\ Rem2(n.c[1])) \/ (One(n.c[1]) /\ Rem2(n.c[2])))

Useless(e, want, cxx) == e.k = "par" /\ Direct(e, want, cxx)

CondsOf(n, isElseIf, rt, cxx) ==
  LET conds == CASE n.k \in {"if", "ifelse", "while", "cond"} -> <<CondOf(n.c[1])>> [] n.k = "do" -> <<n.c[2]>> [] OTHER -> <<>>
      cnd == conds[1]
  IN
  If1(Collapsible(n), CH("collapsible if statements", n))
  \o If1(RedundantIf(n, rt, cxx), CH("redundant if statement", n))
  \o If1(RedundantCond(n, cxx), CH("redundant conditional operator", n))
  \o If1(n.k \in {"ifelse", "cond"} /\ Inverted(cnd), CH("inverted logic", cnd))
  \o If1(n.k \in {"if", "ifelse"} /\ ~isElseIf /\ ElseChain(n)[1] /\ ElseChain(n)[2].k # "none", CH("unnecessary else statement", ElseChain(n)[2]))
  \o If1(n.k \in {"if", "ifelse"} /\ IsC(Val(cnd)), CH("constant if expression", cnd))
  \o If1(n.k = "cond" /\ IsC(Val(n.c[1])), CH("constant conditional operator", n.c[1]))
  \o If1(DoubleNeg(n, cxx), CH("double negative", n))
  \o If1(MultiUn(n, cxx), CH("multiple unary operator", n))
  \o If1(conds # <<>> /\ cnd.k # "cvar" /\ HasBitwise(cnd), CH("bitwise operator in conditional", cnd))
  \o If1(Oddness(n), CH("broken oddness check", n))
  \o If1(n.k \in {"if", "ifelse"} /\ n.v = "" /\ Useless(cnd, CondWant(cxx), cxx), CH("useless parentheses", cnd))
  \o If1(n.k = "return" /\ Len(n.c) = 1 /\ Useless(n.c[1], rt, cxx), CH("useless parentheses", n.c[1]))
  \o If1(n.k \in {"decl", "cvar"} /\ Len(n.c) = 1 /\ Useless(n.c[1], "int", cxx), CH("useless parentheses", n.c[1]))

RECURSIVE CondHits(_, _, _, _)
CondHits(n, isElseIf, rt, cxx) ==
  CondsOf(n, isElseIf, rt, cxx) \o
  FlatMap(LAMBDA i : CondHits(n.c[i], n.k = "ifelse" /\ i = 3 /\ n.c[i].k \in {"if", "ifelse"}, rt, cxx), [i \in 1..Len(n.c) |-> i])

CondsExpected(ln) == LET h == CondHits(ln.body, FALSE, ln.rt, ln.cxx) IN {<<h[i].rule, h[i].at.p, "">> : i \in 1..Len(h)}

(* ---- laws ------------------------------------------------------------------- *)
RECURSIVE Eval(_, _)
(* the value of an expression under an assignment, without side effects or short cuts *)
Eval(e, env) ==
  CASE e.k = "v" -> env[e.v]
    [] e.k \in {"par", "cast"} -> Eval(e.c[1], env)
    [] e.k = "land" -> IF Eval(e.c[1], env) # 0 /\ Eval(e.c[2], env) # 0 THEN 1 ELSE 0
    [] e.k = "lor" -> IF Eval(e.c[1], env) # 0 \/ Eval(e.c[2], env) # 0 THEN 1 ELSE 0
    [] e.k = "cond" -> IF Eval(e.c[1], env) # 0 THEN Eval(e.c[2], env) ELSE Eval(e.c[3], env)
    [] e.k = "un" -> LET x == Eval(e.c[1], env) IN
                     CASE e.v = "!" -> IF x = 0 THEN 1 ELSE 0 [] e.v = "-" -> 0 - x [] e.v = "~" -> 0 - x - 1 [] OTHER -> x
    [] e.k = "bin" -> LET x == Eval(e.c[1], env)  y == Eval(e.c[2], env) IN
                      IF e.v = "," THEN y ELSE LET z == BinVal(e.v, x, y) IN IF IsC(z) THEN z[1] ELSE 0
    [] e.k \in {"int", "bool", "objcbool"} -> Val(e)[1]
    [] OTHER -> 0
PureKinds == {"v", "int", "bool", "objcbool", "par", "land", "lor", "cond", "un", "bin"}
Pure(e) == \A i \in 1..Len(Nodes(e)) : Nodes(e)[i].k \in PureKinds /\ ~(Nodes(e)[i].k = "bin" /\ Nodes(e)[i].v = "%")
Envs == [{"a", "b", "c", "q", "r"} -> {0, 1}]
(* a condition that is reported as constant has that value whatever the variables hold *)
ConstSound(body) == \A i \in 1..Len(Nodes(body)) : LET n == Nodes(body)[i] IN
  (n.k \in {"if", "ifelse", "cond"} /\ Pure(CondOf(n.c[1])) /\ IsC(Val(CondOf(n.c[1])))) =>
     \A en \in Envs : (Eval(CondOf(n.c[1]), en) # 0) = Truth(Val(CondOf(n.c[1])))
(* a redundant ?: of pure operands is its condition, its negation, or does not depend on it *)
RedundantSound(body) == \A i \in 1..Len(Nodes(body)) : LET n == Nodes(body)[i] IN
  (n.k = "cond" /\ Pure(n) /\ RedundantCond(n, TRUE)) =>
     \/ \A en \in Envs : Eval(n, en) = (IF Eval(n.c[1], en) # 0 THEN 1 ELSE 0)
     \/ \A en \in Envs : Eval(n, en) = (IF Eval(n.c[1], en) # 0 THEN 0 ELSE 1)
     \/ \A en \in Envs : Eval(n.c[2], en) = Eval(n.c[3], en)
(* a double negation is a multiple unary operator; C sees at least what C++ sees *)
UnaryLaw(body) == \A i \in 1..Len(Nodes(body)) : LET n == Nodes(body)[i] IN
  /\ DoubleNeg(n, TRUE) => MultiUn(n, TRUE)
  /\ MultiUn(n, TRUE) => MultiUn(n, FALSE)
CondsLaws(body) == ConstSound(body) /\ RedundantSound(body) /\ UnaryLaw(body)
=============================================================================
