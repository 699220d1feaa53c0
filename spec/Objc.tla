--------------------------------- MODULE Objc --------------------------------
(* Objective-C contracts.  A world lists protocols, classes (a class after its  *)
(* superclass), functions and what the bodies of methods and functions do.      *)
(*   ann:    [k, note]     k: base, proh, prot, abs; note: text of a second [..] *)
(*   meth:   [sel, inst, ann : Seq(ann)]                                        *)
(*   prop:   [n, get, set ("" when readonly), ann]                              *)
(*   proto:  [n, ups : Seq(index), decl : Seq(meth)]                            *)
(*   cat:    [n, decl, adopts, impl]                                            *)
(*   class:  [n, sup (0: the root class of the prelude), adopts, decl, props, cats, impl] *)
(*   impl:   <<>> or <<[p, ms : Seq(def)]>>     def: [sel, inst, p, body]       *)
(*   fn:     [n, ann, defs : Seq(body)]                                         *)
(*   stmt:   [k, rk, ri, sel, sel2, inst, p, c, ivs]                            *)
(*     call: message to rk (self, super, var of class ri, cls ri, proto ri);    *)
(*     prop: property access sending sel (and sel2 when both), fcall: calls function ri, *)
(*     asg: assignment whose left side mentions ivs : Seq([n, p]); inc; blk, if: c *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

None == [ann |-> <<>>, owner |-> 0, some |-> FALSE]
Find(ms, sel, inst) == IF \E i \in 1..Len(ms) : ms[i].sel = sel /\ ms[i].inst = inst
                       THEN <<ms[CHOOSE i \in 1..Len(ms) : ms[i].sel = sel /\ ms[i].inst = inst]>> ELSE <<>>
AnnOf(anns, k) == IF \E i \in 1..Len(anns) : anns[i].k = k THEN <<anns[CHOOSE i \in 1..Len(anns) : anns[i].k = k]>> ELSE <<>>

(* the accessors a class's properties declare *)
Accessors(C) == FlattenSeq([i \in 1..Len(C.props) |->
                  <<[sel |-> C.props[i].get, inst |-> TRUE, ann |-> C.props[i].ann]>>
                  \o (IF C.props[i].set = "" THEN <<>> ELSE <<[sel |-> C.props[i].set, inst |-> TRUE, ann |-> C.props[i].ann]>>)])
Declared(C) == C.decl \o Accessors(C)
CatDecls(C) == FlattenSeq([i \in 1..Len(C.cats) |-> C.cats[i].decl])

(* A declaration inherits what is said about the declarations it overrides: the nearest ones in the superclasses, in   *)
(* the protocols, and in the categories that come before it.                                                           *)
Join(n, F(_)) == FlattenSeq([i \in 1..n |-> F(i)])
RECURSIVE ProtoSearch(_, _, _, _)
ProtoSearch(W, p, sel, inst) == LET here == Find(W.protos[p].decl, sel, inst)
                                IN (IF here = <<>> THEN <<>> ELSE here[1].ann)
                                   \o Join(Len(W.protos[p].ups), LAMBDA i : ProtoSearch(W, W.protos[p].ups[i], sel, inst))
ProtosSearch(W, ps, sel, inst) == Join(Len(ps), LAMBDA i : ProtoSearch(W, ps[i], sel, inst))
RECURSIVE Search(_, _, _, _)
RECURSIVE CatSearch(_, _, _, _, _)
IfaceSaid(W, c, sel, inst) == LET own == Find(W.cls[c].decl, sel, inst)     \* an accessor has nothing of its own: it is the property that is annotated
                              IN (IF own = <<>> THEN <<>> ELSE own[1].ann) \o Search(W, W.cls[c].sup, sel, inst) \o ProtosSearch(W, W.cls[c].adopts, sel, inst)
(* category i of class c *)
CatSearch(W, c, i, sel, inst) ==
  LET k == W.cls[c].cats[i]
      own == Find(k.decl, sel, inst)
  IN IF own = <<>> THEN ProtosSearch(W, k.adopts, sel, inst)
     ELSE own[1].ann \o ProtosSearch(W, k.adopts, sel, inst) \o Join(i - 1, LAMBDA j : CatSearch(W, c, j, sel, inst))
          \o Search(W, W.cls[c].sup, sel, inst) \o ProtosSearch(W, W.cls[c].adopts, sel, inst)
Search(W, c, sel, inst) == IF c = 0 THEN <<>>
                           ELSE IF Find(Declared(W.cls[c]), sel, inst) # <<>> THEN IfaceSaid(W, c, sel, inst)
                           ELSE Join(Len(W.cls[c].cats), LAMBDA i : CatSearch(W, c, i, sel, inst))
                                \o Search(W, W.cls[c].sup, sel, inst) \o ProtosSearch(W, W.cls[c].adopts, sel, inst)

(* what is said about a method a class declares: there, at its property, or where a category declares it again *)
ClassAnn(W, c, m) == LET C == W.cls[c]
                         pr == Find(Accessors(C), m.sel, m.inst)
                     IN IfaceSaid(W, c, m.sel, m.inst) \o (IF pr = <<>> THEN <<>> ELSE pr[1].ann)
                        \o Join(Len(C.cats), LAMBDA i : IF Find(C.cats[i].decl, m.sel, m.inst) = <<>> THEN <<>> ELSE CatSearch(W, c, i, m.sel, m.inst))

RECURSIVE ProtoFind(_, _, _, _)
ProtoFind(W, p, sel, inst) == LET here == Find(W.protos[p].decl, sel, inst)
                                  ups == [i \in 1..Len(W.protos[p].ups) |-> ProtoFind(W, W.protos[p].ups[i], sel, inst)]
                              IN IF here # <<>> THEN <<[here[1] EXCEPT !.ann = ProtoSearch(W, p, sel, inst)]>>
                                 ELSE IF \E i \in 1..Len(ups) : ups[i] # <<>> THEN ups[CHOOSE i \in 1..Len(ups) : ups[i] # <<>> /\ \A j \in 1..(i - 1) : ups[j] = <<>>]
                                 ELSE <<>>
FirstProto(W, ps, sel, inst) == LET f == [i \in 1..Len(ps) |-> ProtoFind(W, ps[i], sel, inst)]
                                IN IF \E i \in 1..Len(f) : f[i] # <<>> THEN f[CHOOSE i \in 1..Len(f) : f[i] # <<>> /\ \A j \in 1..(i - 1) : f[j] = <<>>] ELSE <<>>
(* where a class of the chain finds the method by itself: its interface, a category, an adopted protocol *)
CatAdopts(C) == FlattenSeq([i \in 1..Len(C.cats) |-> C.cats[i].adopts])
FirstCat(C, sel, inst) == CHOOSE i \in 1..Len(C.cats) : Find(C.cats[i].decl, sel, inst) # <<>> /\ \A j \in 1..(i - 1) : Find(C.cats[j].decl, sel, inst) = <<>>
Level(W, c, sel, inst) ==
  LET C == W.cls[c]
      own == Find(Declared(C), sel, inst)
      cat == Find(CatDecls(C), sel, inst)
      pro == FirstProto(W, C.adopts \o CatAdopts(C), sel, inst)
  IN IF own # <<>> THEN [ann |-> ClassAnn(W, c, own[1]), owner |-> c, some |-> TRUE]
     ELSE IF cat # <<>> THEN [ann |-> CatSearch(W, c, FirstCat(C, sel, inst), sel, inst), owner |-> c, some |-> TRUE]
     ELSE IF pro # <<>> THEN [ann |-> pro[1].ann, owner |-> 0, some |-> TRUE]
     ELSE None
RECURSIVE Lookup(_, _, _, _)
Lookup(W, c, sel, inst) == IF c = 0 THEN None
                           ELSE LET here == Level(W, c, sel, inst) IN IF here.some THEN here ELSE Lookup(W, W.cls[c].sup, sel, inst)
(* the class of the chain at which the lookup ends *)
RECURSIVE FoundAt(_, _, _, _)
FoundAt(W, c, sel, inst) == IF c = 0 THEN 0 ELSE IF Level(W, c, sel, inst).some THEN c ELSE FoundAt(W, W.cls[c].sup, sel, inst)

RECURSIVE IsOrBelow(_, _, _)
IsOrBelow(W, c, a) == c # 0 /\ (c = a \/ IsOrBelow(W, W.cls[c].sup, a))

(* the declarations a method of class c overrides: the nearest in each protocol, category and superclass *)
RECURSIVE ProtoOver(_, _, _, _)
ProtoOver(W, p, sel, inst) == LET here == Find(W.protos[p].decl, sel, inst)
                              IN IF here # <<>> THEN {ProtoSearch(W, p, sel, inst)}
                                 ELSE UNION {ProtoOver(W, W.protos[p].ups[i], sel, inst) : i \in 1..Len(W.protos[p].ups)}
RECURSIVE Over(_, _, _, _, _)
Over(W, c, sel, inst, up) ==
  IF c = 0 THEN {} ELSE
  LET C == W.cls[c]
      own == Find(Declared(C), sel, inst)
  IN IF up /\ own # <<>> THEN {ClassAnn(W, c, own[1])}
     ELSE UNION {ProtoOver(W, C.adopts[i], sel, inst) : i \in 1..Len(C.adopts)}
          \cup UNION {LET r == Find(C.cats[i].decl, sel, inst)
                      IN IF up /\ r # <<>> THEN {CatSearch(W, c, i, sel, inst)} ELSE UNION {ProtoOver(W, C.cats[i].adopts[j], sel, inst) : j \in 1..Len(C.cats[i].adopts)} : i \in 1..Len(C.cats)}
          \cup Over(W, C.sup, sel, inst, TRUE)

(* ---- what bodies do --------------------------------------------------------- *)
RECURSIVE Flat(_)
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o <<s>> \o Flat(s.c), <<>>, ss)
Sites(ss) == {Flat(ss)[i] : i \in 1..Len(Flat(ss))}

(* the class in whose terms a message is looked up; c: the class whose method this is in *)
RecvClass(W, c, s) == CASE s.rk = "self" -> c [] s.rk = "super" -> W.cls[c].sup [] OTHER -> s.ri
Target(W, c, s, sel) == IF s.rk = "proto" THEN LET f == ProtoFind(W, s.ri, sel, s.inst) IN IF f = <<>> THEN None ELSE [ann |-> f[1].ann, owner |-> 0, some |-> TRUE]
                        ELSE Lookup(W, RecvClass(W, c, s), sel, s.inst)
(* the class a protected method belongs to: the one that declares it, or the topmost one with the protocol's method *)
OwnerClass(W, c, s, sel) == IF s.rk = "proto" THEN 0 ELSE FoundAt(W, RecvClass(W, c, s), sel, s.inst)
RECURSIVE Topmost(_, _, _, _)
Topmost(W, k, sel, inst) ==   \* k adopts a protocol with the method; so may classes above it
  LET u == FoundAt(W, W.cls[k].sup, sel, inst)
  IN IF u # 0 /\ Level(W, u, sel, inst) = Level(W, k, sel, inst) /\ Level(W, u, sel, inst).owner = 0 THEN Topmost(W, u, sel, inst) ELSE k
Owner(W, c, s, sel) == LET k == OwnerClass(W, c, s, sel)
                       IN IF k = 0 THEN 0 ELSE IF Level(W, k, sel, s.inst).owner # 0 THEN k ELSE Topmost(W, k, sel, s.inst)

Sent(s) == CASE s.k = "call" -> {s.sel} [] s.k = "prop" -> {s.sel, s.sel2} \ {""} [] OTHER -> {}

Prohibited(W, c, body) ==
  UNION {UNION {LET a == AnnOf(Target(W, c, s, x).ann, "proh")
                IN IF a = <<>> THEN {}
                   ELSE {<<"calling prohibited method", s.p, "calling prohibited method " \o x \o (IF a[1].note = "" THEN "" ELSE " instead use " \o a[1].note)>>}
                : x \in Sent(s)} : s \in Sites(body)}
  \cup UNION {IF s.k # "fcall" THEN {} ELSE
              LET a == AnnOf(W.fns[s.ri].ann, "proh")
              IN IF a = <<>> THEN {}
                 ELSE {<<"calling prohibited method", s.p, "calling prohibited function " \o W.fns[s.ri].n \o (IF a[1].note = "" THEN "" ELSE " instead use " \o a[1].note)>>}
              : s \in Sites(body)}

ProtectedCalls(W, c, body) ==
  UNION {UNION {LET o == Owner(W, c, s, x)
                IN IF AnnOf(Target(W, c, s, x).ann, "prot") = <<>> \/ o = 0 THEN {}
                   ELSE IF IsOrBelow(W, c, o) THEN {}
                   ELSE {<<"calling protected method", s.p, "calling protected method " \o x \o " from outside " \o W.cls[o].n \o " and its subclasses">>}
                : x \in Sent(s)} : s \in Sites(body)}

SuperCall(W, c, d) ==
  IF (\E a \in Over(W, c, d.sel, d.inst, FALSE) : AnnOf(a, "base") # <<>>)
     /\ ~\E s \in Sites(d.body) : s.rk = "super" /\ d.sel \in Sent(s)
  THEN {<<"missing call to base method", d.p, "overridden method " \o d.sel \o " must call super">>} ELSE {}

(* a property of the class that nothing in the implementation provides is synthesized *)
Implements(C, sel, inst) == Find(C.impl[1].ms, sel, inst) # <<>> \/ Find(Accessors(C), sel, inst) # <<>>
Abstracts(W, c) ==
  LET C == W.cls[c]
  IN IF C.sup = 0 THEN {} ELSE
     LET S == W.cls[C.sup]
     IN {<<"missing abstract method implementation", C.impl[1].p, "subclasses of " \o S.n \o " must implement " \o m.sel>> :
           m \in {x \in ToSet(Declared(S)) : AnnOf(ClassAnn(W, C.sup, x), "abs") # <<>> /\ ~Implements(C, x.sel, x.inst)}}

IsEqualHash(C) == IF Find(C.impl[1].ms, "isEqual:", TRUE) # <<>> /\ Find(C.impl[1].ms, "hash", TRUE) = <<>>
                  THEN {<<"missing hash method", C.impl[1].p, "If you override isEqual you must override hash too.">>} ELSE {}

(* instance variables: _name, name_ or name belong to the property name *)
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "_" THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "_" THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Capital(s) == IF Len(s) = 0 THEN s
              ELSE IF \E i \in 1..26 : Lower[i] = SubSeq(s, 1, 1) THEN Upper[CHOOSE i \in 1..26 : Lower[i] = SubSeq(s, 1, 1)] \o SubSeq(s, 2, Len(s)) ELSE s
Getter(iv) == TrimR(TrimL(iv))
Setter(iv) == "set" \o Capital(Getter(iv)) \o ":"
MayAssign(sel, iv) == sel = Getter(iv) \/ sel = Setter(iv) \/ (Len(sel) >= 4 /\ SubSeq(sel, 1, 4) = "init")
Ivars(d) == UNION {IF s.k # "asg" THEN {} ELSE
                   {<<"ivar assignment outside accessors or init", v.p, "">> : v \in {x \in ToSet(s.ivs) : ~MayAssign(d.sel, x.n)}} : s \in Sites(d.body)}

DefsOf(C) == (IF C.impl = <<>> THEN <<>> ELSE C.impl[1].ms)
             \o FlattenSeq([i \in 1..Len(C.cats) |-> IF C.cats[i].impl = <<>> THEN <<>> ELSE C.cats[i].impl[1].ms])
ObjcReport(W) ==
  UNION {LET C == W.cls[c] IN
         UNION {SuperCall(W, c, d) \cup Prohibited(W, c, d.body) \cup Ivars(d) : d \in ToSet(DefsOf(C))}
         \cup (IF C.impl = <<>> THEN {} ELSE
               IsEqualHash(C) \cup Abstracts(W, c) \cup UNION {ProtectedCalls(W, c, d.body) : d \in ToSet(C.impl[1].ms)})
         : c \in 1..Len(W.cls)}
  \cup UNION {UNION {Prohibited(W, 0, b) : b \in ToSet(W.fns[i].defs)} : i \in 1..Len(W.fns)}
ObjcExpected(ln) == ObjcReport(ln.W)

(* ---- laws ------------------------------------------------------------------- *)
Of(R, rule) == {x \in R : x[1] = rule}
(* inside the class that declares it, or below, no method is protected *)
InsideAllowed(W) == \A c \in 1..Len(W.cls) : W.cls[c].impl # <<>> =>
  \A d \in ToSet(W.cls[c].impl[1].ms) : \A s \in Sites(d.body) : s.rk \in {"self", "super"} => ProtectedCalls(W, c, <<s>>) = {}
(* a class without superclass declared here overrides nothing but protocols; sending to super settles the obligation *)
SuperSettles(W) == \A c \in 1..Len(W.cls) : \A d \in ToSet(DefsOf(W.cls[c])) :
  LET sup == [k |-> "call", rk |-> "super", ri |-> 0, sel |-> d.sel, sel2 |-> "", inst |-> d.inst, p |-> "", c |-> <<>>, ivs |-> <<>>]
  IN SuperCall(W, c, [d EXCEPT !.body = Append(@, sup)]) = {} /\ SuperCall(W, c, [d EXCEPT !.body = <<[sup EXCEPT !.k = "blk", !.rk = "", !.c = <<sup>>]>>]) = {}
(* an abstract method is demanded of the direct subclasses only, once each *)
AbstractOnce(W) == \A c \in 1..Len(W.cls) : W.cls[c].impl # <<>> =>
  \A x \in Abstracts(W, c) : W.cls[c].sup # 0 /\ x[2] = W.cls[c].impl[1].p
(* without annotations only the hash and instance variable rules have anything to say *)
Plain(m) == [m EXCEPT !.ann = <<>>]
Bare(W) == [W EXCEPT !.cls = [i \in 1..Len(@) |-> [@[i] EXCEPT !.decl = [j \in 1..Len(@) |-> Plain(@[j])], !.props = [j \in 1..Len(@) |-> Plain(@[j])],
                                 !.cats = [j \in 1..Len(@) |-> [@[j] EXCEPT !.decl = [q \in 1..Len(@) |-> Plain(@[q])]]]]],
                     !.protos = [i \in 1..Len(@) |-> [@[i] EXCEPT !.decl = [j \in 1..Len(@) |-> Plain(@[j])]]],
                     !.fns = [i \in 1..Len(@) |-> Plain(@[i])]]
BareSilent(W) == ObjcReport(Bare(W)) = Of(ObjcReport(W), "missing hash method") \cup Of(ObjcReport(W), "ivar assignment outside accessors or init")
(* what is found inside a nested block is what would be found outside of it *)
NestNeutral(W) == LET blk(b) == <<[k |-> "blk", rk |-> "", ri |-> 0, sel |-> "", sel2 |-> "", inst |-> TRUE, p |-> "", c |-> b, ivs |-> <<>>]>>
                      V == [W EXCEPT !.cls = [i \in 1..Len(@) |-> IF @[i].impl = <<>> THEN @[i] ELSE
                              [@[i] EXCEPT !.impl = <<[@[1] EXCEPT !.ms = [j \in 1..Len(@) |-> [@[j] EXCEPT !.body = blk(@)]]]>>]]]
                  IN ObjcReport(V) = ObjcReport(W)
(* overriding never loses an annotation that a class above imposes: the nearest declaration in the superclasses decides *)
OverIsLookup(W) == \A c \in 1..Len(W.cls) : \A d \in ToSet(DefsOf(W.cls[c])) :
  LET u == FoundAt(W, W.cls[c].sup, d.sel, d.inst)
  IN (u # 0 /\ Find(Declared(W.cls[u]), d.sel, d.inst) # <<>>) => Level(W, u, d.sel, d.inst).ann \in Over(W, c, d.sel, d.inst, FALSE)
=============================================================================
