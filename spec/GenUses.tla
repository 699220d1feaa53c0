------------------------------- MODULE GenUses -------------------------------
(* All functions with few names, declarations, uses and scopes, up to a weight. *)
EXTENDS Uses, Json
CONSTANTS MaxWeight, MaxStack, Vars, Forms, Params_
VARIABLE stack

H(i) == N("hole_", ToString(i), <<>>)
V(x) == N("v", x, <<>>)
T(t, args, s, w) == [t |-> t, args |-> args, s |-> s, w |-> w]
When(f, s) == IF f \in Forms THEN s ELSE {}
Ld(x, ty, st, c) == [k |-> "ldecl", v |-> x, ty |-> ty, st |-> st, c |-> c]
Pd(x) == [k |-> "pdecl", v |-> x, un |-> FALSE, c |-> <<>>]
Ps(l) == N("params", "", [i \in 1..Len(l) |-> Pd(l[i])])
ParamLists == {SubSeq(<<"x", "y">>, 1, i) : i \in Params_}
Tmpl ==
  {T(V(x), <<>>, "E", 1) : x \in Vars}
  \cup When("const", {T(N("int", "1", <<>>), <<>>, "E", 1)})
  \cup When("asg", {T(N("asg", op, <<V(x), H(1)>>), <<"E">>, "A", 1) : x \in Vars, op \in {"=", "+="}})
  \cup When("sizeof", {T(N("sizeof", "", <<V(x)>>), <<>>, "E", 1) : x \in Vars})
  \cup When("expr", {T(N("expr", "", <<H(1)>>), <<"EA">>, "S", 0)})
  \cup When("return", {T(N("return", "", <<H(1)>>), <<"E">>, "S", 0)})
  \cup {T(N("decls", "", <<Ld(x, "int", "", <<>>)>>), <<>>, "D", 1) : x \in Vars}
  \cup When("init", {T(N("decls", "", <<Ld(x, "int", "", <<H(1)>>)>>), <<"E">>, "D", 1) : x \in Vars})
  \cup When("static", {T(N("decls", "", <<Ld(x, "int", "static", <<>>)>>), <<>>, "D", 1) : x \in Vars})
  \cup When("two", {T(N("decls", "", <<Ld(x, "int", "", <<>>), Ld(y, "int", "", <<H(1)>>)>>), <<"E">>, "D", 2) : x, y \in Vars})
  \cup UNION {{T(N("block", "", [i \in 1..m |-> H(i)]), [i \in 1..m |-> "SD"], "B", 1)} : m \in 0..3}
  \cup When("if", {T(N("if", "", <<H(1), H(2)>>), <<"EA", "S">>, "S", 1)})
  \cup When("for", {T(N("for", "", <<H(1), N("none", "", <<>>), N("none", "", <<>>), H(2)>>), <<"D", "S">>, "S", 1),
                    T(N("for", "", <<H(1), H(2), N("none", "", <<>>), H(3)>>), <<"D", "E", "S">>, "S", 1)})
  \cup When("rfor", {T(N("rfor", "", <<Ld(x, "int", "", <<>>), H(1)>>), <<"S">>, "S", 1) : x \in Vars})
  \cup When("try", {T(N("try", "", <<N("block", "", <<>>), N("catch", "", <<Ld(x, "int", "", <<>>), H(1)>>)>>), <<"B">>, "S", 1) : x \in Vars})
  \cup UNION {When(k, {T(N(k, "", <<N("caps", "", <<>>), Ps(l), H(1)>>), <<"B">>, "S", 1) : l \in ParamLists}) : k \in Closures}
  \cup When("caps", {T(N("lambda", "", <<N("caps", "", <<V(x)>>), Ps(<<>>), H(1)>>), <<"B">>, "S", 1) : x \in Vars})
  \cup {T(N("fun", "", <<Ps(l), H(1)>>), <<"B">>, "F", 0) : l \in ParamLists}
Acc(want, have) == CASE want = "EA" -> have \in {"E", "A"}
                     [] want = "SD" -> have \in {"S", "D", "B"}
                     [] want = "S" -> have \in {"S", "B"}
                     [] OTHER -> want = have
(* every node gets its path as its place *)
RECURSIVE Stamp(_, _)
Stamp(n, path) == [x \in (DOMAIN n) \cup {"p"} |->
                     IF x = "p" THEN path ELSE IF x = "c" THEN [i \in 1..Len(n.c) |-> Stamp(n.c[i], path \o "." \o ToString(i))] ELSE n[x]]
IsProg(e) == e.s = "F" /\ LegalFun(Stamp(e.t, "1"))
INSTANCE Gen WITH Templates <- Tmpl, Accepts <- Acc, IsProgram <- IsProg

(* ---- laws ---------------------------------------------------------------------- *)
Ctx == [k |-> "free"]
Verdict(f) == UsesExpected([fun |-> f, ctx |-> Ctx, raii |-> <<>>])
(* names carry no meaning: giving every declaration a name of its own, and every use the
   name of its declaration, changes no verdict (but for the names in the messages) *)
RECURSIVE Rename(_, _, _)
RECURSIVE RenSeq(_, _, _, _)
New(d, old) == IF d.p = "" THEN old ELSE "n" \o d.p
RenP(ps) == [ps EXCEPT !.c = [i \in 1..Len(ps.c) |-> [ps.c[i] EXCEPT !.v = "n" \o ps.c[i].p]]]
RenD(d, env, lvl) == [d EXCEPT !.v = "n" \o d.p, !.c = [i \in 1..Len(d.c) |-> Rename(d.c[i], Declare(d, env, lvl), lvl)]]
Rename(n, env, lvl) ==
  LET Kid(i, e) == Rename(n.c[i], e, lvl) IN
  CASE n.k = "v" -> [n EXCEPT !.v = New(Find(n.v, env), n.v)]
    [] n.k \in {"block", "decls"} -> [n EXCEPT !.c = RenSeq(n.c, 1, env, lvl)]
    [] n.k = "for" -> LET in == After(n.c[1], env, lvl) IN [n EXCEPT !.c = <<Kid(1, env), Kid(2, in), Kid(3, in), Kid(4, in)>>]
    [] n.k \in {"rfor", "catch"} -> [n EXCEPT !.c = <<RenD(n.c[1], env, lvl), Kid(2, Declare(n.c[1], env, lvl))>>]
    [] n.k \in Closures -> [n EXCEPT !.c = <<Kid(1, env), RenP(n.c[2]), Rename(n.c[3], Params(n.c[2], "inner", env, lvl + 1), lvl + 1)>>]
    [] OTHER -> [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Kid(i, env)]]
RenSeq(s, i, env, lvl) ==
  IF i > Len(s) THEN <<>>
  ELSE LET x == s[i]  me == IF x.k = "ldecl" THEN RenD(x, env, lvl) ELSE Rename(x, env, lvl)
       IN <<me>> \o RenSeq(s, i + 1, IF x.k = "ldecl" THEN Declare(x, env, lvl) ELSE After(x, env, lvl), lvl)
RenFun(f) == [f EXCEPT !.c = <<RenP(f.c[1]), Rename(f.c[2], Params(f.c[1], "param", <<>>, 1), 1)>>]
Places(vs) == {<<v[1], v[2]>> : v \in vs}
Laws == Complete =>
  LET f == Stamp(Program, "1")  vs == Verdict(f)  refs == FunRefs(f) IN
  /\ Places(vs) = Places(Verdict(RenFun(f)))
  /\ \A r \in FunRefs(RenFun(f)) : r.d.p # "" => \E q \in refs : q.d.p = r.d.p
  (* a declaration is reported or referred to, never both *)
  /\ \A d \in Locals(f.c[2], TRUE) : (<<"unused local variable", d.p>> \in Places(vs)) # (\E r \in refs : r.d.p = d.p)
  (* a variable returned at once is used *)
  /\ \A v \in vs : v[1] = "redundant local variable" => <<"unused local variable", v[2]>> \notin Places(vs)
=============================================================================
