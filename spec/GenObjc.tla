------------------------------- MODULE GenObjc -------------------------------
(* Enumerates Objective-C worlds of three classes around one annotated method.  *)
EXTENDS Objc, Json
CONSTANT Family
VARIABLE W

Hosts == {"decl1", "decl2", "cat1", "redecl1", "prop1", "proto1", "proto2", "protoup", "catproto1"}
Shapes == {<<0, a, b>> : a \in {0, 1}, b \in {0, 1, 2}}
Ann(k, note) == [k |-> k, note |-> note]
M(inst, ann) == [sel |-> "mm", inst |-> inst, ann |-> ann]
St(k, rk, ri, inst, c) == [k |-> k, rk |-> rk, ri |-> ri, sel |-> IF k \in {"call", "prop"} THEN "mm" ELSE "", sel2 |-> "", inst |-> inst, p |-> "s", c |-> c, ivs |-> <<>>]
Def(sel, inst, body) == [sel |-> sel, inst |-> inst, p |-> "d", body |-> body]
Cl(n, sup) == [n |-> n, sup |-> sup, adopts |-> <<>>, decl |-> <<>>, props |-> <<>>, cats |-> <<>>, impl |-> <<>>]
(* the world with method mm, annotated, placed at host *)
Skeleton(shape, host, inst, ann) ==
  LET base == [protos |-> <<>>, cls |-> [i \in 1..3 |-> Cl("K" \o ToString(i), shape[i])], fns |-> <<>>]
      pr == <<[n |-> "P1", ups |-> <<>>, decl |-> <<M(inst, <<ann>>)>>], [n |-> "P2", ups |-> <<1>>, decl |-> <<>>]>>
      cat(d, a) == <<[n |-> "Cat", decl |-> d, adopts |-> a, impl |-> <<>>]>>
  IN CASE host = "decl1" -> [base EXCEPT !.cls[1].decl = <<M(inst, <<ann>>)>>]
       [] host = "decl2" -> [base EXCEPT !.cls[1].decl = <<M(inst, <<>>)>>, !.cls[2].decl = <<M(inst, <<ann>>)>>]
       [] host = "cat1" -> [base EXCEPT !.cls[1].cats = cat(<<M(inst, <<ann>>)>>, <<>>)]
       [] host = "redecl1" -> [base EXCEPT !.cls[1].decl = <<M(inst, <<>>)>>, !.cls[1].cats = cat(<<M(inst, <<ann>>)>>, <<>>)]
       [] host = "prop1" -> [base EXCEPT !.cls[1].props = <<[n |-> "mm", get |-> "mm", set |-> "setMm:", ann |-> <<ann>>]>>]
       [] host = "proto1" -> [base EXCEPT !.protos = pr, !.cls[1].adopts = <<1>>]
       [] host = "proto2" -> [base EXCEPT !.protos = pr, !.cls[1].adopts = <<1>>, !.cls[2].adopts = <<1>>]
       [] host = "protoup" -> [base EXCEPT !.protos = pr, !.cls[1].adopts = <<2>>]
       [] host = "catproto1" -> [base EXCEPT !.protos = pr, !.cls[1].cats = cat(<<>>, <<1>>)]
Impl(n, ms) == <<[p |-> "i" \o ToString(n), ms |-> ms]>>

Bodies(inst) == {<<>>, <<St("call", "super", 0, inst, <<>>)>>, <<St("call", "self", 0, inst, <<>>)>>,
                 <<St("if", "", 0, inst, <<St("blk", "", 0, inst, <<St("call", "super", 0, inst, <<>>)>>)>>)>>}
UsesSuper(b) == \E s \in Sites(b) : s.rk = "super"

(* methods mm defined by the classes of D, redeclared there (rd), empty implementations elsewhere (em) *)
Defining(x, D, inst, b, rd, em) ==
  [x EXCEPT !.cls = [i \in 1..3 |-> IF i \in D THEN [@[i] EXCEPT !.impl = Impl(i, <<Def("mm", inst, b)>>),
                                                                !.decl = IF rd /\ Find(Declared(x.cls[i]), "mm", inst) = <<>> THEN Append(@, M(inst, <<>>)) ELSE @]
                                    ELSE IF em THEN [@[i] EXCEPT !.impl = Impl(i, <<>>)] ELSE @[i]]]
(* a super or self send needs a method to find *)
Sendable(w) == \A c \in 1..3 : \A d \in ToSet(DefsOf(w.cls[c])) : \A s \in Sites(d.body) : \A x \in Sent(s) : Target(w, c, s, x).some
PropInst(h, inst) == h = "prop1" => inst

InitDef(k) == \E sh \in Shapes, h \in Hosts, inst \in BOOLEAN, D \in (SUBSET {1, 2, 3}) \ {{}}, rd \in BOOLEAN, em \in BOOLEAN :
                \E b \in Bodies(inst) :
                  /\ PropInst(h, inst)
                  /\ ~(h = "catproto1" /\ rd /\ 1 \in D)   \* left open, see check_objc.py
                  /\ W = Defining(Skeleton(sh, h, inst, Ann(k, "")), D, inst, b, rd, em)
                  /\ Sendable(W)

(* one call of the annotated method from class d (0: a function) *)
Recvs == {<<"var", 1>>, <<"var", 2>>, <<"var", 3>>, <<"cls", 1>>, <<"cls", 2>>, <<"cls", 3>>, <<"self", 0>>, <<"super", 0>>, <<"proto", 1>>, <<"proto", 2>>}
InitCall(k) == \E sh \in Shapes, h \in Hosts, inst \in BOOLEAN, d \in 0..3, r \in Recvs, note \in {"", "another"}, nest \in BOOLEAN, ex \in {0, 2, 3} :
                 LET x == Skeleton(sh, h, inst, Ann(k, note))
                     s == [St(IF h = "prop1" /\ r[1] # "proto" /\ nest THEN "prop" ELSE "call", r[1], r[2], inst, <<>>) EXCEPT !.p = "s"]
                     b == IF nest /\ h # "prop1" THEN <<St("if", "", 0, inst, <<s>>)>> ELSE <<s>>
                     y == IF ex = 0 THEN x ELSE [x EXCEPT !.cls[ex].decl = IF Find(@, "mm", inst) = <<>> THEN Append(@, M(inst, <<>>)) ELSE @]   \* redeclared without annotation
                     z == IF d = 0 THEN [y EXCEPT !.fns = <<[n |-> "fn1", ann |-> <<>>, defs |-> <<b>>]>>] ELSE [y EXCEPT !.cls[d].impl = Impl(d, <<Def("caller", inst, b)>>)]
                 IN /\ PropInst(h, inst)
                    /\ (d = 0 => r[1] \notin {"self", "super"})
                    /\ (r[1] = "cls" => ~inst) /\ (r[1] \in {"var", "proto"} => inst)
                    /\ (r[1] = "proto" => h \in {"proto1", "proto2", "protoup", "catproto1"})
                    /\ (r[1] = "super" => d # 0 /\ sh[IF d = 0 THEN 1 ELSE d] # 0)
                    /\ (k = "prot" => note = "")
                    /\ (ex # 0 /\ h = "decl2" => ex # 2)
                    /\ W = z
                    /\ Target(z, d, s, "mm").some

(* instance variables and isEqual:/hash *)
Names == {"_v", "v", "v_", "_two_part", "__w", "_B"}
Sels == {"v", "setV:", "init", "initWith:", "initialize", "setTwo_part:", "two_part", "twopart", "setTwopart:", "w", "setW:", "b", "B", "setB:", "m", "set_v:", "reinit"}
InitIvar == \E n \in Names, sel \in Sels, nest \in BOOLEAN :
              LET a == [k |-> "asg", rk |-> "", ri |-> 0, sel |-> "", sel2 |-> "", inst |-> TRUE, p |-> "", c |-> <<>>, ivs |-> <<[n |-> n, p |-> "v"]>>]
              IN W = [protos |-> <<>>, fns |-> <<>>,
                      cls |-> <<[Cl("K1", 0) EXCEPT !.impl = Impl(1, <<Def(sel, TRUE, IF nest THEN <<St("blk", "", 0, TRUE, <<a>>)>> ELSE <<a>>)>>)]>>]
InitHash == \E D \in SUBSET ({"isEqual:", "hash", "isEqual", "hash:"} \X BOOLEAN), E \in SUBSET {<<"isEqual:", TRUE>>, <<"hash", TRUE>>} :
              /\ Cardinality(D) <= 3
              /\ W = [protos |-> <<>>, fns |-> <<>>,
                      cls |-> <<[Cl("K1", 0) EXCEPT !.impl = Impl(1, SetToSeq({Def(x[1], x[2], <<>>) : x \in E}))],
                                [Cl("K2", 1) EXCEPT !.impl = Impl(2, SetToSeq({Def(x[1], x[2], <<>>) : x \in D}))]>>]
Init == CASE Family = "base" -> InitDef("base")
          [] Family = "abs" -> InitDef("abs")
          [] Family = "proh" -> InitCall("proh")
          [] Family = "prot" -> InitCall("prot")
          [] Family = "ivar" -> InitIvar
          [] Family = "hash" -> InitHash
Next == UNCHANGED W
Emit == PrintT("@@" \o ToJson(W))
Laws == InsideAllowed(W) /\ SuperSettles(W) /\ AbstractOnce(W) /\ BareSilent(W) /\ NestNeutral(W) /\ OverIsLookup(W)
=============================================================================
