------------------------------ MODULE GenRules -------------------------------
(* All function bodies up to a weight over chosen statement and expression forms, *)
(* and the laws of the rule specifications on each of them.                       *)
EXTENDS Empty, Switches, Conds, Jumps, Json
CONSTANTS MaxWeight, MaxStack, MaxArity, Kinds, Conditions, Exprs, Leaves0
VARIABLE stack

H(i) == N("hole", i, <<>>)
A == N("v", "a", <<>>)
B == N("v", "b", <<>>)
Q == N("v", "q", <<>>)
I(i) == N("int", ToString(i), <<>>)
Bool(b) == N("bool", IF b THEN "true" ELSE "false", <<>>)
OBool(b) == N("objcbool", IF b THEN "__objc_yes" ELSE "__objc_no", <<>>)
CBool(i) == N("cast", "BOOL", <<I(i)>>)
T(t, args, s, w) == [t |-> t, args |-> args, s |-> s, w |-> w]
NoneT == N("none", "", <<>>)
Wanted(k, ts) == IF k \in Kinds THEN ts ELSE {}
WantE(k, ts) == IF k \in Exprs THEN ts ELSE {}

(* conditions are variables, or arbitrary expressions taken from the stack *)
HoleC == "hole" \in Conditions
Cnd == (IF "a" \in Conditions THEN {A} ELSE {}) \cup (IF "not" \in Conditions THEN {N("un", "!", <<A>>)} ELSE {})
       \cup (IF "var" \in Conditions THEN {N("cvar", "", <<A>>)} ELSE {})
       \cup (IF "ne" \in Conditions THEN {N("bin", "!=", <<A, B>>)} ELSE {}) \cup (IF "one" \in Conditions THEN {I(1)} ELSE {})

(* what may precede the condition of an if or switch *)
Inits == {N("decl", "", <<B>>), N("expr", "", <<N("land", "", <<A, B>>)>>), N("null", "", <<>>)}
Leaf(x) == CASE x = "a" -> A [] x = "b" -> B [] x = "q" -> Q [] x = "0" -> I(0) [] x = "1" -> I(1) [] x = "2" -> I(2)
             [] x = "true" -> Bool(TRUE) [] x = "false" -> Bool(FALSE) [] x = "yes" -> OBool(TRUE) [] x = "no" -> OBool(FALSE)

(* one constituent may be an expression hole: shift the statement holes by one *)
CondForms(k, mk(_, _), sorts, w) ==
  {T(mk(c, 0), sorts, "S", w) : c \in Cnd} \cup (IF HoleC THEN {T(mk(H(1), 1), <<"E">> \o sorts, "S", w)} ELSE {})

ExprTmpl ==
  {T(Leaf(x), <<>>, "P", 0) : x \in Leaves0}
  \cup WantE("par", {T(N("par", "", <<H(1)>>), <<"E">>, "P", 1)})
  \cup UNION {WantE("u" \o op, {T(N("un", op, <<H(1)>>), <<"U">>, "U", 1)}) : op \in {"!", "~", "-", "+"}}
  \cup WantE("inc", {T(N("un", "++", <<A>>), <<>>, "U", 1), T(N("post", "++", <<A>>), <<>>, "P", 1)})
  \cup UNION {WantE(k, {T(N(k, "", <<H(1), H(2)>>), <<"U", "U">>, "E", 1)}) : k \in {"land", "lor", "elvis"}}
  \cup UNION {WantE("b" \o op, {T(N("bin", op, <<H(1), H(2)>>), <<"U", "U">>, "E", 1)}) :
              op \in {"+", "-", "*", "%", "<", ">", "==", "!=", "&", "|", "^"}}
  \cup WantE("b,", {T(N("bin", ",", <<H(1), H(2)>>), <<"U", "U">>, "E", 1)})
  \cup WantE("asg", {T(N("asg", "=", <<A, H(1)>>), <<"U">>, "E", 1)})
  \cup WantE("asgq", {T(N("asg", "=", <<Q, H(1)>>), <<"U">>, "E", 1)})
  \cup WantE("asgop", {T(N("asg", "+=", <<A, H(1)>>), <<"U">>, "E", 1)})
  \cup WantE("cond", {T(N("cond", "", <<H(1), H(2), H(3)>>), <<"U", "U", "U">>, "E", 1)})
  \cup WantE("odd", {T(N("bin", op, <<N("bin", m, <<H(1), I(d)>>), I(r)>>), <<"U">>, "E", 1) :
                     op \in {"==", "!="}, m \in {"%", "*"}, d \in {2, 3}, r \in {0, 1}}
              \cup {T(N("bin", "==", <<I(r), N("bin", "%", <<H(1), I(2)>>)>>), <<"U">>, "E", 1) : r \in {0, 1}}
              \cup {T(N("bin", "==", <<N("par", "", <<N("bin", "%", <<A, I(2)>>)>>), I(1)>>), <<>>, "E", 1)}
              \cup {T(N("bin", "==", <<N("bin", "%", <<I(2), H(1)>>), I(1)>>), <<"U">>, "E", 1)})
  \cup WantE("sub", {T(N("sub", "", <<N("v", "arr", <<>>), H(1)>>), <<"E">>, "P", 1)})
  \cup WantE("call", {T(N("call", "g", <<N("par", "", <<H(1)>>)>>), <<"E">>, "P", 1)})
  \cup WantE("castint", {T(N("cast", "int", <<H(1)>>), <<"U">>, "U", 1)})
  \cup WantE("castbool", {T(CBool(i), <<>>, "U", 0) : i \in {0, 1}})
  \cup WantE("str", {T(N("cond", "", <<H(1), N("str", x, <<>>), N("str", y, <<>>)>>), <<"U">>, "X", 1) : x \in {"\"s\""}, y \in {"\"s\"", "\"t\""}})
  \cup WantE("lambda", {T(N("call", "g", <<N("lambda", "", <<H(1)>>)>>), <<"B">>, "P", 1)})

Simple(k) == Wanted(k, {T(N(k, "", <<>>), <<>>, "S", 1)})
StmtTmpl ==
  {T(N("block", "", [i \in 1..m |-> H(i)]), [i \in 1..m |-> "S"], "B", 1) : m \in 0..MaxArity}
  \cup Simple("e") \cup Simple("null") \cup Simple("break") \cup Simple("continue") \cup Simple("goto")
  \cup Wanted("ret0", {T(N("return", "", <<>>), <<>>, "S", 1)})
  \cup Wanted("ret", {T(N("return", "", <<H(1)>>), <<"E">>, "S", 1)})
  \cup Wanted("expr", {T(N("expr", "", <<H(1)>>), <<"X">>, "S", 1)})
  \cup Wanted("asgs", {T(N("expr", "", <<N("asg", "=", <<x, H(1)>>)>>), <<"U">>, "S", 1) : x \in {A, Q}}
                   \cup {T(N("expr", "", <<N("asg", "+=", <<A, H(1)>>)>>), <<"U">>, "S", 1)})
  \cup Wanted("bins", {T(N("expr", "", <<N("bin", op, <<A, H(1)>>)>>), <<"U">>, "S", 1) : op \in {"+", ",", "<"}}
                   \cup {T(N("expr", "", <<N(k, "", <<A, H(1)>>)>>), <<"U">>, "S", 1) : k \in {"land", "lor"}})
  \cup Wanted("throw", {T(N("expr", "", <<N("throw", "", <<A>>)>>), <<>>, "S", 1)})
  \cup Wanted("atthrow", {T(N("atthrow", "", <<N("v", "coll", <<>>)>>), <<>>, "S", 1)})
  \cup Wanted("raise", {T(N("expr", "", <<N("msg", m, <<N("v", r, <<>>)>>)>>), <<>>, "S", 1) : m \in {"raise", "value"}, r \in {"exc", "NSException", "other"}})
  \cup Wanted("decl", {T(N("decl", "", <<>>), <<>>, "S", 1)})
  \cup Wanted("decle", {T(N("decl", "", <<H(1)>>), <<"E">>, "S", 1)})
  \cup Wanted("if", CondForms("if", LAMBDA c, o : N("if", "", <<c, H(o + 1)>>), <<"S">>, 1))
  \cup Wanted("ifelse", CondForms("ifelse", LAMBDA c, o : N("ifelse", "", <<c, H(o + 1), H(o + 2)>>), <<"S", "S">>, 1))
  \cup Wanted("ifinit", {T(N("if", "", <<N("cinit", "", <<i, c>>), H(1)>>), <<"S">>, "S", 1) : i \in Inits, c \in Cnd}
                      \cup {T(N("ifelse", "", <<N("cinit", "", <<i, c>>), H(1), H(2)>>), <<"S", "S">>, "S", 1) : i \in Inits, c \in Cnd})
  \cup Wanted("ifcx", {T(N("if", "cx", <<c, H(1)>>), <<"S">>, "S", 1) : c \in {I(1), Bool(FALSE)}}
                    \cup {T(N("ifelse", "cx", <<c, H(1), H(2)>>), <<"S", "S">>, "S", 1) : c \in {I(1), Bool(FALSE)}})
  \cup Wanted("ifce", {T(N("if", "ce", <<NoneT, H(1)>>), <<"B">>, "S", 1), T(N("ifelse", "ce", <<NoneT, H(1), H(2)>>), <<"B", "B">>, "S", 1)})
  \cup Wanted("swinit", {T(N("switch", "", <<c, H(1)>>), <<"SB">>, "S", 1) : c \in {N("cinit", "", <<i, A>>) : i \in Inits} \cup {N("cvar", "", <<A>>)}})
  \cup Wanted("while", CondForms("while", LAMBDA c, o : N("while", "", <<c, H(o + 1)>>), <<"S">>, 1))
  \cup Wanted("do", CondForms("do", LAMBDA c, o : N("do", "", <<H(o + 1), c>>), <<"S">>, 1))
  \cup Wanted("for", CondForms("for", LAMBDA c, o : N("for", "", <<NoneT, c, NoneT, H(o + 1)>>), <<"S">>, 1))
  \cup Wanted("for3", CondForms("for", LAMBDA c, o : N("for", "", <<N("asg", "=", <<A, B>>), c, N("post", "++", <<A>>), H(o + 1)>>), <<"S">>, 1))
  \cup Wanted("forv", {T(N("for", "", <<N("decl", i, <<I(0)>>), A, inc, H(1)>>), <<"S">>, "S", 1) :
                       i \in {"i", "j"}, inc \in {N("post", "++", <<N("v", "i", <<>>)>>), N("un", "++", <<N("v", "j", <<>>)>>)}}
                  \cup {T(N("for", "", <<NoneT, A, N("post", "--", <<N("v", "i", <<>>)>>), H(1)>>), <<"S">>, "S", 1)}
                  \cup {T(N("for", "", <<NoneT, A, NoneT, H(1)>>), <<"S">>, "S", 1), T(N("for", "", <<NoneT, NoneT, NoneT, H(1)>>), <<"S">>, "S", 1)}
                  \cup {T(N("for", "", <<N("declm", "", <<N("decl", "i", <<I(0)>>), N("decl", "j", <<I(1)>>)>>), A, N("post", "++", <<N("v", "j", <<>>)>>), H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("forin", {T(N("forin", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("rfor", {T(N("rfor", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("switch", {T(N("switch", "", <<A, H(1)>>), <<"SB">>, "S", 1)})
  \cup Wanted("enum", {T(N("switch", "enum", <<N("v", "en", <<>>), H(1)>>), <<"SB">>, "S", 1)}
                   \cup {T(N("case", e, <<H(1)>>), <<"S">>, "K", 1) : e \in AllEnum})
  \cup (IF Kinds \cap {"switch", "enum", "swinit"} = {} THEN {} ELSE
          {T(N("block", "", [i \in 1..m |-> H(i)]), [i \in 1..m |-> "C"], "SB", 1) : m \in 0..MaxArity}
          \cup {T(N("default", "", <<H(1)>>), <<"S">>, "K", 1)})
  \cup (IF Kinds \cap {"switch", "swinit"} = {} THEN {} ELSE {T(N("case", "", <<H(1)>>), <<"S">>, "K", 1)})
  \cup Wanted("swcase", {T(N("switch", "", <<A, H(1)>>), <<"K">>, "S", 1), T(N("case", "", <<H(1)>>), <<"K">>, "K", 1), T(N("default", "", <<H(1)>>), <<"K">>, "K", 1)})
  \cup Wanted("label", {T(N("label", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("try", {T(N("try", "", <<H(1), N("catch", "...", <<H(2)>>)>>), <<"B", "B">>, "S", 1),
                      T(N("try", "", <<H(1), N("catch", "int", <<H(2)>>), N("catch", "...", <<H(3)>>)>>), <<"B", "B", "B">>, "S", 1)})
  \cup Wanted("attry", {T(N("attry", "", <<H(1), N("atcatch", "", <<H(2)>>)>>), <<"B", "B">>, "S", 1),
                        T(N("attry", "", <<H(1), N("atfinally", "", <<H(2)>>)>>), <<"B", "B">>, "S", 1),
                        T(N("attry", "", <<H(1), N("atcatch", "", <<H(2)>>), N("atfinally", "", <<H(3)>>)>>), <<"B", "B", "B">>, "S", 1)})
  \cup Wanted("finally", {T(N("attry", "", <<N("block", "", <<>>), N("atfinally", "", <<H(1)>>)>>), <<"B">>, "S", 1)})
  \cup Wanted("sync", {T(N("sync", "", <<H(1)>>), <<"B">>, "S", 1)})
  \cup Wanted("pool", {T(N("pool", "", <<H(1)>>), <<"B">>, "S", 1)})
Tmpl == StmtTmpl \cup ExprTmpl

Acc(want, have) == CASE want = "S" -> have \in {"S", "B"}
                     [] want = "C" -> have \in {"K", "S", "B"}
                     [] want = "E" -> have \in {"P", "U", "E"}
                     [] want = "X" -> have \in {"P", "U", "E", "X"}
                     [] want = "U" -> have \in {"P", "U"}
                     [] OTHER -> want = have
IsProg(e) == e.s = "B"
INSTANCE Gen WITH Templates <- Tmpl, Accepts <- Acc, IsProgram <- IsProg

EmptyInv == Complete => EmptyLaws(Program)
SwitchInv == Complete => SwitchLaws(Program)
CondsInv == Complete => CondsLaws(Program)
JumpsInv == Complete => JumpsLaws(Program)
=============================================================================
