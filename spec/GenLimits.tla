------------------------------ MODULE GenLimits ------------------------------
(* All small declaration units: functions, classes, Objective-C containers and  *)
(* variables in every position a limit looks at.                                *)
EXTENDS Limits, Json
CONSTANTS MaxWeight, MaxStack, MaxArity, Kinds, NameLens, Pads
VARIABLE stack

H(i) == N("hole", i, <<>>)
T(t, args, s, w) == [t |-> t, args |-> args, s |-> s, w |-> w]
Wanted(k, ts) == IF k \in Kinds THEN ts ELSE {}
Hs(m) == [i \in 1..m |-> H(i)]
Ss(m, s) == [i \in 1..m |-> s]
Leaf(k, v, s, w) == T(N(k, v, <<>>), <<>>, s, w)
Vars == {"#" \o ToString(i) : i \in NameLens}
Rep(k, m) == [i \in 1..m |-> N(k, "#5", <<>>)]
Ar == 0..MaxArity

Tmpl ==
  {T(N("body", ToString(p), Hs(m)), Ss(m, "S"), "B", 1) : p \in Pads, m \in 0..MaxArity}
  \cup Wanted("par", {Leaf("par", v, "P", 1) : v \in Vars})
  \cup Wanted("fn", {T(N("fn", "", Hs(m + 1)), Append(Ss(m, "P"), "B"), "F", 1) : m \in Ar})
  \cup Wanted("tfn", {T(N("tfn", "", Hs(m + 1)), Append(Ss(m, "P"), "B"), "D", 1) : m \in Ar})
  \cup Wanted("proto", {T(N("proto", "", Hs(m)), Ss(m, "P"), "D", 1) : m \in Ar})
  \cup Wanted("cls", {T(N("cls", kw, Hs(m)), Ss(m, "M"), "C", 1) : kw \in {"class", "struct"}, m \in Ar})
  \cup Wanted("cls1", {T(N("cls", kw, Hs(m)), Ss(m, "M"), "C", 1) : kw \in {"struct"}, m \in Ar})
  \cup Wanted("union", {T(N("cls", "union", Hs(m)), Ss(m, "M"), "C", 1) : m \in Ar})
  \cup Wanted("fwd", {T(N("clsfwd", "class", <<H(1)>>), <<"C">>, "D", 1)})
  \cup Wanted("fld", {Leaf("fld", "#5", "M", 1)})
  \cup Wanted("mdecl", {T(N("mdecl", "", Hs(m)), Ss(m, "P"), "M", 1) : m \in Ar})
  \cup Wanted("ctor", {Leaf("ctor", "", "M", 1), Leaf("dtor", "", "M", 1)})
  \cup Wanted("smem", {Leaf("smem", v, "M", 1) : v \in Vars})
  \cup Wanted("gvar", {Leaf("gvar", v, "D", 1) : v \in Vars})
  \cup Wanted("var", {Leaf("var", v, "S", 1) : v \in Vars} \cup {T(N("vars", "", <<N("var", v, <<>>), N("var", w, <<>>)>>), <<>>, "S", 2) : v, w \in Vars})
  \cup Wanted("for", {T(N("for", "", <<N("loopvar", v, <<>>), H(1)>>), <<"S">>, "S", 1) : v \in Vars}
                 \cup {T(N("for", "", <<N("loopvar", v, <<>>), N("loopvar", w, <<>>), H(1)>>), <<"S">>, "S", 2) : v, w \in Vars}
                 \cup {T(N("for", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("rfor", {T(N("rfor", "", <<N("rangevar", v, <<>>), H(1)>>), <<"S">>, "S", 1) : v \in Vars})
  \cup Wanted("catch", {T(N("try", "", <<N("caught", v, <<>>), H(1)>>), <<"B">>, "S", 1) : v \in Vars \cup {""}})
  \cup Wanted("atcatch", {T(N("attry", "", <<N("atcaught", v, <<>>), H(1)>>), <<"B">>, "S", 1) : v \in Vars})
  \cup Wanted("forin", {T(N("forin", "", <<N("loopvar", v, <<>>), H(1)>>), <<"S">>, "S", 1) : v \in Vars})
  \cup Wanted("lambda", {T(N("lambda", "", Append(Hs(m), H(m + 1))), Append(Ss(m, "P"), "B"), "S", 1) : m \in {0, 1}})
  \cup Wanted("blk", {T(N("blk", "", Append(Hs(m), H(m + 1))), Append(Ss(m, "P"), "B"), "S", 1) : m \in {0, 1}})
  \cup Wanted("oc", {T(N("oc", "", <<N("iface", "", Rep("ivar", a)), N("impl", "", Hs(m))>>), Ss(m, "O"), "D", 1) : a \in Ar, m \in Ar})
  \cup Wanted("oprop", {T(N("oc", "", <<N("iface", "", Rep("ivar", a + b) \o Rep("proprw", a) \o Rep("propro", b)),
                                        N("impl", "", Rep("synrw", a) \o Rep("synro", b) \o Hs(m))>>), Ss(m, "O"), "D", 1 + a + b) : a \in {0, 1, 2}, b \in {0, 1}, m \in {0, 1}})
  \cup Wanted("ocat", {T(N("oc", "", <<N("iface", "", Rep("ivar", 1)), N("cat", "", Hs(m)), N("catimpl", "", <<H(m + 1)>>)>>), Append(Ss(m, "Q"), "O"), "D", 1) : m \in {0, 1}}
                  \cup {T(N("oc", "", <<N("iface", "", <<>>), N("ext", "", <<H(1)>>), N("impl", "", <<>>)>>), <<"Q">>, "D", 1)}
                  \cup {T(N("prot", "", Hs(m)), Ss(m, "Q"), "D", 1) : m \in Ar})
  \cup Wanted("ofwd", {T(N("ocfwd", "", <<N("iface", "", Rep("ivar", a)), N("impl", "", <<>>)>>), <<>>, "D", 1) : a \in Ar})
  \cup Wanted("mdef", {T(N("mdef", "", Hs(m + 1)), Append(Ss(m, "P"), "B"), "O", 1) : m \in Ar})
  \cup Wanted("omdecl", {T(N("omdecl", "", Hs(m)), Ss(m, "P"), "Q", 1) : m \in Ar})
  \cup Wanted("unit", {T(N("unit", "", <<H(1), H(2)>>), <<"D", "D">>, "U", 0)})

Acc(want, have) == CASE want = "D" -> have \in {"D", "F", "C"} [] want = "M" -> have \in {"M", "F", "C"} [] want = "S" -> have \in {"S", "C", "B"}
                     [] want = "O" -> have \in {"O"} [] OTHER -> want = have
IsProg(e) == e.s \in {"D", "F", "C", "U"}
INSTANCE Gen WITH Templates <- Tmpl, Accepts <- Acc, IsProgram <- IsProg
Laws == Complete => LET prog == Place(Program, "1") IN AtLimit(prog, TRUE) /\ Sums(prog, TRUE) /\ NamesEither(prog, TRUE)
=============================================================================
