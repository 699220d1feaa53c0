---------------------------------- MODULE Cuda ----------------------------------
(* Sources compiled for a host and for devices.  A source is a sequence of         *)
(* declarations                                                                    *)
(*   [k, n, a, v, c, b, p]                                                         *)
(*   k  fn, proto, var, ns, ext (extern "C"), cls, ctpl (class template),          *)
(*      tpl (function template, one function inside)                               *)
(*   n  name; a  attribute: host, global, device, hd (host and device)             *)
(*   v  all, dev, host: the compilations that see it; c  declarations inside       *)
(*   b  statements of a function: [k, d, c, p], k  plain, if, ifelse, while, lam   *)
(*      (a lambda), lcls (a class, with declarations d); c statements inside       *)
(*   p  its range                                                                  *)
(* A command names its language (cu or another) and which compilations it asks for *)
(* (both, host, dev); a rule the languages and the function attributes it is for.  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
Rng(s) == {s[i] : i \in 1..Len(s)}
FlatMap(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)

IsCu(cmd) == cmd.lang \in {"cu", "hip"}
(* oclint sees one compilation of a command, the first of the compiler's driver; which *)
(* that is for a command that asks for both depends on the driver's version, and the   *)
(* sources given to such commands do not tell the two apart                            *)
Device(cmd) == IsCu(cmd) /\ cmd.for = "dev"
Seen(cmd, d) == d.v = "all" \/ (d.v = "dev" <=> Device(cmd))
Language(cmd) == CASE cmd.lang = "c" -> "C" [] cmd.lang \in {"m", "mm"} -> "OBJC" [] OTHER -> "CXX"
IsKernel(cmd, d) == IsCu(cmd) /\ d.a = "global"
IsFun(d) == d.k \in {"fn", "proto"}
For(cmd, r, d) == ~IsFun(d) \/ ~IsCu(cmd) \/ (IF IsKernel(cmd, d) THEN "global" ELSE "host") \in Rng(r.attrs)
Enters(cmd, r) == /\ Language(cmd) \in Rng(r.langs)
                  /\ (~IsCu(cmd) => "host" \in Rng(r.attrs))

(* the declarations that rule r visits, in order *)
Label(d) == (CASE d.k \in {"fn", "proto"} -> "f:" [] d.k = "var" -> "v:" [] d.k = "ns" -> "n:" [] d.k = "ext" -> ""
               [] d.k = "cls" -> "c:" [] d.k = "ctpl" -> "u:" [] d.k = "tpl" -> "t:") \o d.n
RECURSIVE VisitD(_, _, _)
RECURSIVE VisitS(_, _, _)
VisitD(cmd, r, d) ==
  IF ~Seen(cmd, d) \/ ~For(cmd, r, d) THEN <<>>
  ELSE LET kids == FlatMap(LAMBDA x : VisitD(cmd, r, x), d.c) \o FlatMap(LAMBDA x : VisitS(cmd, r, x), d.b)
       IN CASE d.k = "ext" -> kids
            [] d.k = "ctpl" -> <<Label(d), "c:" \o d.n>> \o kids
            [] OTHER -> <<Label(d)>> \o kids
VisitS(cmd, r, s) == FlatMap(LAMBDA x : VisitD(cmd, r, x), s.d) \o FlatMap(LAMBDA x : VisitS(cmd, r, x), s.c)
Visits(cmd, r, src) == FlatMap(LAMBDA d : VisitD(cmd, r, d), src)
Applied(cmd, r, src) == IF Enters(cmd, r) THEN <<"setup">> \o Visits(cmd, r, src) \o <<"teardown">> ELSE <<>>

(* branch divergence: the ifs with else of kernels.  A class in a kernel has       *)
(* functions of its own, which are no kernels.                                     *)
RECURSIVE IfElse(_)
IfElse(s) == (IF s.k = "ifelse" THEN <<s.p>> ELSE <<>>) \o FlatMap(IfElse, s.c)
RECURSIVE Divergent(_, _)
Divergent(cmd, d) ==
  IF ~Seen(cmd, d) THEN <<>>
  ELSE (IF d.k = "fn" /\ IsKernel(cmd, d) THEN FlatMap(IfElse, d.b) ELSE <<>>) \o FlatMap(LAMBDA x : Divergent(cmd, x), d.c)

(* complexity is measured for kernels and other functions alike *)
RECURSIVE Decisions(_)
RECURSIVE DecisionsD(_)
Decisions(s) == (IF s.k \in {"if", "ifelse", "while"} THEN 1 ELSE 0)
                + FoldLeft(LAMBDA acc, x : acc + Decisions(x), 0, s.c) + FoldLeft(LAMBDA acc, x : acc + DecisionsD(x), 0, s.d)
DecisionsD(d) == FoldLeft(LAMBDA acc, x : acc + Decisions(x), 0, d.b) + FoldLeft(LAMBDA acc, x : acc + DecisionsD(x), 0, d.c)
RECURSIVE Funs(_, _)
RECURSIVE FunsS(_, _)
Funs(cmd, d) == IF ~Seen(cmd, d) THEN <<>>
                ELSE (IF d.k = "fn" THEN <<d>> ELSE <<>>) \o FlatMap(LAMBDA x : Funs(cmd, x), d.c) \o FlatMap(LAMBDA x : FunsS(cmd, x), d.b)
FunsS(cmd, s) == FlatMap(LAMBDA x : Funs(cmd, x), s.d) \o FlatMap(LAMBDA x : FunsS(cmd, x), s.c)
Ccn(d) == 1 + DecisionsD(d)
Complex(cmd, src, limit) ==
  FlatMap(LAMBDA d : IF Ccn(d) > limit THEN <<<<d.p, ToString(Ccn(d)) \o "/" \o ToString(limit)>>>> ELSE <<>>, FlatMap(LAMBDA d : Funs(cmd, d), src))

(* a run: every command once, in order (the events of all rules); what the two rules report *)
Expected(run) ==
  [ev |-> FlatMap(LAMBDA m : FlatMap(LAMBDA r : LET a == Applied(m, r, m.src)
                                                IN [i \in 1..Len(a) |-> <<r.n, m.f, a[i]>>], run.rules), run.cmds),
   div |-> FlatMap(LAMBDA m : IF IsCu(m) THEN LET h == FlatMap(LAMBDA d : Divergent(m, d), m.src) IN [i \in 1..Len(h) |-> <<m.f, h[i]>>] ELSE <<>>, run.cmds),
   ccn |-> FlatMap(LAMBDA m : LET h == Complex(m, m.src, run.limit) IN [i \in 1..Len(h) |-> <<m.f, h[i]>>], run.cmds)]
=================================================================================
