------------------------------- MODULE Classes -------------------------------
(* C++ class hierarchies.  A hierarchy is a sequence of classes; a class lists  *)
(* its bases (earlier classes), its destructor, its methods and its static      *)
(* data members.                                                                *)
(*   class:  [name, p, bases : Seq([i, acc, virt]), dtor : "" or a destructor, ms, sd] *)
(*   dtor:   [acc, virt]   (<<>> when none is declared, <<d>> otherwise)         *)
(*   method: [name, p, virt, def, stat, acc, out]  out: ranges of out-of-class definitions *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE HasVirtual(_, _, _)
(* does class c or a base of it have a virtual method of this name? *)
HasVirtual(H, c, m) == \/ \E j \in 1..Len(H[c].ms) : H[c].ms[j].name = m /\ H[c].ms[j].virt
                       \/ \E j \in 1..Len(H[c].bases) : HasVirtual(H, H[c].bases[j].i, m)
IsVirtual(H, c, m) == m.virt \/ (~m.stat /\ \E j \in 1..Len(H[c].bases) : HasVirtual(H, H[c].bases[j].i, m.name))

RECURSIVE DtorVirtual(_, _)
DtorVirtual(H, c) == (H[c].dtor # <<>> /\ H[c].dtor[1].virt) \/ \E j \in 1..Len(H[c].bases) : DtorVirtual(H, H[c].bases[j].i)

RECURSIVE Polymorphic(_, _)
Polymorphic(H, c) == \/ DtorVirtual(H, c)
                     \/ \E j \in 1..Len(H[c].ms) : H[c].ms[j].virt
                     \/ \E j \in 1..Len(H[c].bases) : Polymorphic(H, H[c].bases[j].i)

SafeBase(H, b) == DtorVirtual(H, b) \/ (H[b].dtor # <<>> /\ H[b].dtor[1].acc = "protected")

RECURSIVE Walk(_, _)
(* the public bases of c, continuing above bases that are not polymorphic themselves *)
Walk(H, c) == UNION {IF H[c].bases[j].acc # "public" THEN {}
                     ELSE LET b == H[c].bases[j].i IN {b} \cup (IF Polymorphic(H, b) THEN {} ELSE Walk(H, b)) : j \in 1..Len(H[c].bases)}

VoidDtor(H, c) == Polymorphic(H, c) /\ ~DtorVirtual(H, c)
BaseReports(H) == {<<b, c>> \in (1..Len(H)) \X (1..Len(H)) : Polymorphic(H, c) /\ b \in Walk(H, c) /\ ~SafeBase(H, b)}

ClassesReport(H, cxx) ==
  (IF ~cxx THEN {} ELSE   \* these three look at C++ files only, not at Objective-C++
     {<<"base class destructor should be virtual or protected", H[r[1]].p,
        "~" \o H[r[1]].name \o "() should be protected or virtual according to class " \o H[r[2]].name>> : r \in BaseReports(H)}
     \cup {<<"destructor of virtual class", H[c].p, "class " \o H[c].name \o " should have a virtual destructor ~" \o H[c].name \o "()">> :
             c \in {d \in 1..Len(H) : VoidDtor(H, d)}}
     \cup UNION {UNION {IF H[c].ms[j].def /\ IsVirtual(H, c, H[c].ms[j]) THEN {<<"avoid default arguments on virtual methods", H[c].ms[j].p, "">>} ELSE {} :
                        j \in 1..Len(H[c].ms)} : c \in 1..Len(H)})
  \cup UNION {UNION {IF H[c].ms[j].stat /\ H[c].ms[j].acc = "private"
                     THEN {<<"avoid private static members", q, "">> : q \in {H[c].ms[j].p} \cup ToSet(H[c].ms[j].out)} ELSE {} :
                     j \in 1..Len(H[c].ms)} : c \in 1..Len(H)}
  \cup UNION {UNION {IF H[c].sd[j].acc = "private"
                     THEN {<<"avoid private static members", q, "">> : q \in {H[c].sd[j].p} \cup ToSet(H[c].sd[j].out)} ELSE {} :
                     j \in 1..Len(H[c].sd)} : c \in 1..Len(H)}
ClassesExpected(ln) == ClassesReport(ln.H, ln.cxx)

(* ---- laws ------------------------------------------------------------------ *)
RECURSIVE Above(_, _)
Above(H, c) == UNION {{H[c].bases[j].i} \cup Above(H, H[c].bases[j].i) : j \in 1..Len(H[c].bases)}
(* being polymorphic and having a virtual destructor are inherited by every class below *)
Inherited(H) == \A c \in 1..Len(H) : \A b \in Above(H, c) :
                  /\ Polymorphic(H, b) => Polymorphic(H, c)
                  /\ DtorVirtual(H, b) => DtorVirtual(H, c)
(* a hierarchy in which every root with descendants or virtual methods has a virtual destructor is never reported *)
Clean(H) == (\A c \in 1..Len(H) : H[c].bases = <<>> => DtorVirtual(H, c)) => BaseReports(H) = {} /\ \A c \in 1..Len(H) : ~VoidDtor(H, c)
(* a reported base is an ancestor, and no polymorphic class reached through public inheritance lies between without being reported on its own *)
OnlyAncestors(H) == \A r \in BaseReports(H) : r[1] \in Above(H, r[2]) /\ ~DtorVirtual(H, r[1])
(* deleting through a public direct base that is not reported is safe *)
DirectSafe(H) == \A c \in 1..Len(H) : \A j \in 1..Len(H[c].bases) :
                   (Polymorphic(H, c) /\ H[c].bases[j].acc = "public" /\ <<H[c].bases[j].i, c>> \notin BaseReports(H))
                     => DtorVirtual(H, H[c].bases[j].i) \/ H[H[c].bases[j].i].dtor[1].acc = "protected"
(* what a class is reported for does not depend on the classes after it *)
Prefix(H) == \A k \in 1..Len(H) : LET G == SubSeq(H, 1, k) IN
               /\ \A c \in 1..k : VoidDtor(G, c) <=> VoidDtor(H, c)
               /\ BaseReports(G) = {r \in BaseReports(H) : r[2] <= k}
=============================================================================
