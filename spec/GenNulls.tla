------------------------------ MODULE GenNulls -------------------------------
(* All conditions built from null tests, uses and logical operators up to a      *)
(* weight, and all guarded deletes.                                              *)
EXTENDS Nulls, Json
CONSTANTS MaxWeight, MaxStack, ObjC, Vars, Tests, UsesOf, Forms, Stmts
VARIABLE stack

H(i) == N("hole_", ToString(i), <<>>)
Vx(x) == N("v", x, <<>>)
Nul == N("nul", "", <<>>)
Par(e) == N("par", "", <<e>>)
T(t, args, s, w) == [t |-> t, args |-> args, s |-> s, w |-> w]
When(b, s) == IF b THEN s ELSE {}
Tmpl ==
  UNION {When("==" \in Tests, {T(N("bin", "==", <<Vx(x), Nul>>), <<>>, "C", 1)}) \cup When("!=" \in Tests, {T(N("bin", "!=", <<Vx(x), Nul>>), <<>>, "C", 1)})
         \cup When("0==" \in Tests, {T(N("bin", op, <<Nul, Vx(x)>>), <<>>, "C", 1) : op \in {"==", "!="}})
         \cup When("(==" \in Tests, {T(N("bin", op, <<Par(Vx(x)), Nul>>), <<>>, "C", 1) : op \in {"==", "!="}} \cup {T(N("bin", op, <<Vx(x), Par(Nul)>>), <<>>, "C", 1) : op \in {"=="}})
         \cup When("!" \in Tests, {T(N("un", "!", <<Vx(x)>>), <<>>, "P", 1)}) \cup When("v" \in Tests, {T(Vx(x), <<>>, "P", 1)})
         \cup When("!(" \in Tests, {T(N("un", "!", <<Par(Vx(x))>>), <<>>, "P", 1)})
         \cup When("call" \in UsesOf, {T(IF ObjC THEN N("msg", "value", <<Vx(x)>>) ELSE N("memcall", "f", <<Vx(x)>>), <<>>, "U", 1)})
         \cup When("mem" \in UsesOf, {T(IF ObjC THEN N("msg", "me", <<Vx(x)>>) ELSE N("mem", "m", <<Vx(x)>>), <<>>, IF ObjC THEN "P" ELSE "U", 1)})
         \cup When("(mem" \in UsesOf, {T(IF ObjC THEN N("msg", "value", <<Par(Vx(x))>>) ELSE N("mem", "m", <<Par(Vx(x))>>), <<>>, "U", 1)})
         \cup When("deep" \in UsesOf, {T(IF ObjC THEN N("msg", "value", <<N("msg", "me", <<Vx(x)>>)>>) ELSE N("mem", "m", <<N("mem", "next", <<Vx(x)>>)>>), <<>>, "U", 1)})
         \cup When("null" \in UsesOf, {T(N("bin", op, <<IF ObjC THEN N("msg", "me", <<Vx(x)>>) ELSE N("mem", "next", <<Vx(x)>>), Nul>>), <<>>, "C", 1) : op \in {"==", "!="}})
         \cup When("dot" \in UsesOf, {T(N("dot", "m", <<Par(N("un", "*", <<Vx(x)>>))>>), <<>>, "U", 1)})
         : x \in Vars}
  \cup When("cmp" \in Forms, {T(N("bin", "==", <<Vx(x), Vx(y)>>), <<>>, "C", 1) : x, y \in Vars})
  \cup When("par" \in Forms, {T(Par(H(1)), <<"O">>, "P", 1)})
  \cup When("not" \in Forms, {T(N("un", "!", <<H(1)>>), <<"P0">>, "P", 1)})
  \cup When("not(" \in Forms, {T(N("un", "!", <<Par(H(1))>>), <<"O">>, "P", 1)})
  \cup When("arg" \in Forms, {T(N("call", "g", <<Par(H(1))>>), <<"O">>, "P", 1)})
  \cup When("gt" \in Forms, {T(N("bin", ">", <<H(1), N("int", "1", <<>>)>>), <<"U">>, "C", 1)})
  \cup When("land" \in Forms, {T(N("land", "", <<H(1), H(2)>>), <<"A", "P">>, "A", 1)})
  \cup When("lor" \in Forms, {T(N("lor", "", <<H(1), H(2)>>), <<"O", "A">>, "O", 1)})
  \cup When("if" \in Stmts, {T(N("block", "", <<N("if", "", <<H(1), N("e", "", <<>>)>>)>>), <<"O">>, "B", 0)})
  \cup When("del" \in Stmts,
       {T(N("delete", "", <<Vx(x)>>), <<>>, "S", 1) : x \in Vars} \cup {T(N("e", "", <<>>), <<>>, "S", 1)}
       \cup {T(N("delete", "", <<N("mem", "next", <<Vx("p")>>)>>), <<>>, "S", 1)}
       \cup {T(N("expr", "", <<N("asg", "=", <<x, Nul>>)>>), <<>>, "S", 1) : x \in {Vx("p"), N("mem", "next", <<Vx("p")>>)}}
       \cup {T(N("expr", "", <<N("asg", "=", <<Vx("p"), Vx("q")>>)>>), <<>>, "S", 1)}
       \cup {T(N("block", "", [i \in 1..m |-> H(i)]), [i \in 1..m |-> "S"], "B", 1) : m \in 0..3}
       \cup UNION {{T(N("if", "", <<cnd, H(1)>>), <<"S">>, "S", 1), T(N("ifelse", "", <<cnd, H(1), H(2)>>), <<"B", "S">>, "S", 1)} :
             cnd \in UNION {{Vx(x), N("bin", "!=", <<Vx(x), Nul>>), N("bin", "!=", <<Nul, Vx(x)>>), N("bin", "==", <<Vx(x), Nul>>), N("un", "!", <<Vx(x)>>)} : x \in Vars}
                     \cup {N("mem", "next", <<Vx("p")>>), N("bin", "!=", <<N("mem", "next", <<Vx("p")>>), Nul>>), N("bin", "!=", <<Vx("p"), Vx("q")>>)}})
Acc(want, have) == CASE want = "O" -> have \in {"P", "U", "C", "A", "O"}
                     [] want = "A" -> have \in {"P", "U", "C", "A"}
                     [] want = "P0" -> have \in {"P", "U"}
                     [] want = "P" -> have \in {"P", "U", "C"}
                     [] want = "S" -> have \in {"S", "B"}
                     [] OTHER -> want = have
IsProg(e) == e.s = "B"
INSTANCE Gen WITH Templates <- Tmpl, Accepts <- Acc, IsProgram <- IsProg
Laws == Complete => \A i \in 1..Len(Nodes(Program)) : Nodes(Program)[i].k \in {"land", "lor"} => NullsLaws(Nodes(Program)[i])
=============================================================================
