------------------------------- MODULE Limits --------------------------------
(* Size and naming limits over declarations.  A unit is a tree of declarations  *)
(* (functions, classes, interfaces, variables); every node has its range p and  *)
(* the number n of lines it spans; a file additionally has the byte length of   *)
(* each of its lines (lines are counted from 0, the first of the unit).          *)
EXTENDS Tree

LStr(i) == ToString(i)
Kids(n, ks) == SelectSeq(n.c, LAMBDA x : x.k \in ks)
Count(n, ks) == Len(Kids(n, ks))

Viol(rule, p, msg) == <<rule, p, msg>>
If1(b, x) == IF b THEN {x} ELSE {}

Functions == {"fn", "tfn", "mdef"}
Bodied(n) == n.k \in Functions
Body(n) == Last1(n.c)
Members == {"fn", "mdecl", "ctor", "dtor"}
Fields(n) == IF n.k = "iface" THEN Count(n, {"ivar"}) ELSE Count(n, {"fld"})
\* a synthesized property is its getter and, unless read-only, its setter
Methods(n) == IF n.k \in {"impl", "catimpl"} THEN Count(n, {"mdef"}) + Count(n, {"synro"}) + 2 * Count(n, {"synrw"})
              ELSE Count(n, Members)
Params(n) == Count(n, {"par"})

Prefix(n) == CASE n.k = "cls" -> "C++ class" [] n.k = "iface" -> "Objective-C interface" [] n.k \in {"cat", "ext"} -> "Objective-C category"
               [] n.k = "prot" -> "Objective-C protocol" [] OTHER -> "Objective-C implementation"
Classes(cxx) == {"iface", "cat", "ext", "prot", "impl", "catimpl"} \cup (IF cxx THEN {"cls"} ELSE {})
Exceeds(x, what, lim) == " with " \o LStr(x) \o " " \o what \o " exceeds limit of " \o LStr(lim)

(* what a limit measures, over one item; inside is the kind of the enclosing node *)
LineReport(lens, lim) ==
  {Viol("long line", LStr(i - 1) \o ":1-" \o LStr(i - 1) \o ":" \o LStr(lens[i]),
        "Line with " \o LStr(lens[i]) \o " characters exceeds limit of " \o LStr(lim)) : i \in {j \in 1..Len(lens) : lens[j] > lim}}

VarKinds == {"var", "par", "smem", "loopvar", "rangevar", "inits", "caught", "gvar"}   \* (a name declared in an @catch is not looked at)
Exempt == {"loopvar", "rangevar", "caught"}
Abbrev(s, lim) == IF Len(s) > lim + 10 THEN SubSeq(s, 1, lim + 3) \o "..." \o SubSeq(s, Len(s) - 2, Len(s)) ELSE s

Item(n, inside, L, cxx) ==
  (IF "method" \in DOMAIN L /\ Bodied(n) /\ ~(n.k = "fn" /\ inside = "cls" /\ cxx) /\ Body(n).n > L.method
   THEN {Viol("long method", n.p, "Method with " \o LStr(Body(n).n) \o " lines exceeds limit of " \o LStr(L.method))} ELSE {})
  \cup (IF "class" \in DOMAIN L /\ n.k \in Classes(cxx) /\ n.n > L.class
        THEN {Viol("long class", n.p, Prefix(n) \o Exceeds(n.n, "lines", L.class))} ELSE {})
  \cup (IF "fields" \in DOMAIN L /\ n.k \in Classes(cxx) \cap {"cls", "iface"} /\ Fields(n) > L.fields
        THEN {Viol("too many fields", n.p, Prefix(n) \o Exceeds(Fields(n), "fields", L.fields))} ELSE {})
  \cup (IF "methods" \in DOMAIN L /\ n.k \in Classes(cxx) \cap {"cls", "impl", "catimpl"} /\ Methods(n) > L.methods
        THEN {Viol("too many methods", n.p, Prefix(n) \o Exceeds(Methods(n), "methods", L.methods))} ELSE {})
  \cup (IF "params" \in DOMAIN L /\ Bodied(n) /\ Params(n) > L.params
        THEN {Viol("too many parameters", n.p, "Method" \o Exceeds(Params(n), "parameters", L.params))} ELSE {})
  \cup (IF "long" \in DOMAIN L /\ n.k \in VarKinds /\ Len(n.v) > L.long
        THEN {Viol("long variable name", n.p, "Length of variable name `" \o Abbrev(n.v, L.long) \o "` is " \o LStr(Len(n.v))
                   \o ", which is longer than the threshold of " \o LStr(L.long))} ELSE {})
  \cup (IF "short" \in DOMAIN L /\ n.k \in VarKinds \ Exempt /\ Len(n.v) > 0 /\ Len(n.v) < L.short
        THEN {Viol("short variable name", n.p, "Length of variable name `" \o n.v \o "` is " \o LStr(Len(n.v))
                   \o ", which is shorter than the threshold of " \o LStr(L.short))} ELSE {})

RECURSIVE Items(_, _, _, _)
Items(n, inside, L, cxx) == Item(n, inside, L, cxx) \cup UNION {Items(n.c[i], n.k, L, cxx) : i \in 1..Len(n.c)}

LimitsExpected(ln) ==
  (IF "line" \in DOMAIN ln.lim THEN LineReport(ln.lens, ln.lim.line) ELSE {})
  \cup Items(ln.body, "top", ln.lim, ln.cxx)

(* Laws: a limit is met by what equals it, and lowering it by one reports exactly *)
(* the items of that size in addition.                                            *)
RECURSIVE Place(_, _)
Place(n, path) == [k |-> n.k, v |-> n.v, p |-> path, n |-> Size(n), c |-> [i \in 1..Len(n.c) |-> Place(n.c[i], path \o "." \o LStr(i))]]
Limit(k, x) == [y \in {k} |-> x]
AtLimit(prog, cxx) ==   \* everything over a limit is over every smaller one, and what a smaller one adds has exactly that size
  \A k \in {"fields", "methods", "params"} : \A x \in 0..4 :
     LET at == {r[2] : r \in Items(prog, "top", Limit(k, x), cxx)}
         below == {r[2] : r \in Items(prog, "top", Limit(k, x - 1), cxx)}
         sz(n) == CASE k = "fields" -> Fields(n) [] k = "methods" -> Methods(n) [] OTHER -> Params(n)
     IN at \subseteq below /\ \A q \in below \ at : \E i \in 1..Len(Nodes(prog)) : Nodes(prog)[i].p = q /\ sz(Nodes(prog)[i]) = x
Sums(prog, cxx) ==   \* what each limit reports, summed over all limits, is the total size
  SumOf(LAMBDA x : Cardinality(Items(prog, "top", Limit("params", x), cxx)), <<0, 1, 2, 3, 4, 5, 6>>)
  = SumOf(LAMBDA n : IF Bodied(n) THEN Params(n) ELSE 0, Nodes(prog))
NamesEither(prog, cxx) ==   \* a name is never both too long and too short for consistent limits
  \A x \in 1..5 : {r[2] : r \in Items(prog, "top", Limit("long", x), cxx)} \cap {r[2] : r \in Items(prog, "top", Limit("short", x), cxx)} = {}
=============================================================================
