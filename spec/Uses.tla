-------------------------------- MODULE Uses ---------------------------------
(* Which declaration every name in a function refers to, and what follows:     *)
(* variables and parameters that are never used, assignments to parameters,    *)
(* variables declared only to be returned.                                     *)
(*   fun       c = <<params, block>>                                           *)
(*   params    c = pdecl*         pdecl: v name ("" if unnamed)                *)
(*   decls     c = ldecl*         ldecl: v name, ty, st, c = <<initialiser>>?  *)
(*   lambda, objcblock, lclass    c = <<caps, params, block>>                  *)
(*   for       c = <<decls|expr|none, cond, inc, body>>                        *)
(*   rfor, forin, catch, atcatch  c = <<ldecl|adecl|none, body>>               *)
(*   lproto                       c = <<params>>  (a prototype in a body)      *)
EXTENDS Tree

Info(p, kind, st, ty, lvl) == [p |-> p, kind |-> kind, st |-> st, ty |-> ty, lvl |-> lvl]
Outside == Info("", "global", "", "int", 0)
(* an environment: what is in scope, innermost last; lvl counts the functions around *)
Find(name, env) == LET hit == {i \in 1..Len(env) : env[i].n = name} IN
                   IF hit = {} THEN Outside ELSE env[CHOOSE i \in hit : \A j \in hit : j <= i].d
Bind(env, name, d) == IF name = "" THEN env ELSE Append(env, [n |-> name, d |-> d])
Params(ps, kind, env, lvl) == FoldLeft(LAMBDA e, x : Bind(e, x.v, Info(x.p, kind, "", "int", lvl)), env, ps.c)
Declare(d, env, lvl) == IF d.k = "none" THEN env ELSE Bind(env, d.v, Info(d.p, "local", d.st, d.ty, lvl))
After(s, env, lvl) == IF s.k = "decls" THEN FoldLeft(LAMBDA e, x : Declare(x, e, lvl), env, s.c) ELSE env

Closures == {"lambda", "objcblock", "lclass"}
Ref(d, at, wr) == [d |-> d, at |-> at, wr |-> wr]
RECURSIVE Refs(_, _, _)
RECURSIVE SeqRefs(_, _, _, _)
(* every reference: the declaration meant and, for `name = e`, the place of the assignment *)
Refs(n, env, lvl) ==
  CASE n.k = "v" -> {Ref(Find(n.v, env), "", FALSE)}
    [] n.k = "asg" -> (IF n.c[1].k = "v" THEN {Ref(Find(n.c[1].v, env), IF n.v = "=" THEN n.p ELSE "", TRUE)} ELSE Refs(n.c[1], env, lvl))
                      \cup Refs(n.c[2], env, lvl)
    [] n.k = "block" -> SeqRefs(n.c, 1, env, lvl)
    [] n.k = "decls" -> SeqRefs(n.c, 1, env, lvl)
    [] n.k = "ldecl" -> IF n.c = <<>> THEN {} ELSE Refs(n.c[1], Declare(n, env, lvl), lvl)
    [] n.k = "for" -> LET in == After(n.c[1], env, lvl) IN
                      Refs(n.c[1], env, lvl) \cup Refs(n.c[2], in, lvl) \cup Refs(n.c[3], in, lvl) \cup Refs(n.c[4], in, lvl)
    [] n.k \in {"rfor", "forin", "catch", "atcatch"} -> Refs(n.c[2], Declare(n.c[1], env, lvl), lvl)
    [] n.k \in Closures -> Refs(n.c[1], env, lvl) \cup Refs(n.c[3], Params(n.c[2], "inner", env, lvl + 1), lvl + 1)
    [] n.k = "lproto" -> {}
    [] n.k = "adecl" -> {}
    [] OTHER -> UNION {Refs(n.c[i], env, lvl) : i \in 1..Len(n.c)}
SeqRefs(s, i, env, lvl) ==
  IF i > Len(s) THEN {}
  ELSE Refs(s[i], env, lvl) \cup SeqRefs(s, i + 1, IF s[i].k = "ldecl" THEN Declare(s[i], env, lvl) ELSE After(s[i], env, lvl), lvl)
FunRefs(f) == Refs(f.c[2], Params(f.c[1], "param", <<>>, 1), 1)

Range3(s) == {s[i] : i \in 1..Len(s)}
(* ---- what is judged ------------------------------------------------------------ *)
(* value types by the class they name; "" for pointers, references, arrays, scalars *)
ClassOf(ty) == CASE ty \in {"Guard", "const Guard", "Alias", "struct Guard", "auto"} -> "Guard"
                 [] ty = "ns::Guard" -> "ns::Guard"
                 [] ty \in {"TG<int>", "const TG<TG<int> >"} -> "TG"
                 [] ty = "std::lock_guard<M>" -> "std::lock_guard"
                 [] ty = "std::unique_lock<M>" -> "std::unique_lock"
                 [] ty = "Other" -> "Other"
                 [] OTHER -> ""
RECURSIVE Locals(_, _)
(* variables declared in a body; the own ones of a template are left out *)
Locals(n, own) ==
  (IF n.k = "ldecl" /\ own THEN {n} ELSE {})
  \cup UNION {Locals(n.c[i], own \/ n.k \in Closures) : i \in 1..Len(n.c)}

(* is the signature imposed from outside? *)
Imposed(ctx) ==
  CASE ctx.k = "out" -> ctx.virt \/ \E i \in 1..Len(ctx.bases) : ctx.bases[i].virt /\ ctx.bases[i].same
    [] ctx.k = "objc" -> ctx.ib \/ \E i \in 1..Len(ctx.decls) : ctx.decls[i].where # "own" /\ ctx.decls[i].kind = ctx.kind
    [] OTHER -> FALSE
ParamsJudged(ctx) == ctx.k \in {"free", "out", "objc"} /\ ~Imposed(ctx)

UnusedLocals(ln, refs) ==
  {<<"unused local variable", d.p, "The local variable '" \o d.v \o "' is unused.">> :
     d \in {x \in Locals(ln.fun.c[2], ln.ctx.k # "template") :
              /\ \A r \in refs : r.d.p # x.p
              /\ ClassOf(x.ty) = "" \/ ClassOf(x.ty) \notin Range3(ln.raii)}}
UnusedParams(ln, refs) ==
  IF ~ParamsJudged(ln.ctx) THEN {}
  ELSE {<<"unused method parameter", d.p, "The parameter '" \o d.v \o "' is unused.">> :
          d \in {x \in Range3(ln.fun.c[1].c) : x.v # "" /\ ~x.un /\ \A r \in refs : r.d.p # x.p}}
(* every method of a local class is a function of its own *)
RECURSIVE MethodParams(_)
MethodParams(n) == (IF n.k = "lclass" THEN {x.p : x \in Range3(n.c[2].c)} ELSE {}) \cup UNION {MethodParams(n.c[i]) : i \in 1..Len(n.c)}
Reassigned(ln, refs) ==
  {<<"parameter reassignment", r.at, "">> :
     r \in {x \in refs : x.at # "" /\ (x.d.kind = "param" \/ x.d.p \in MethodParams(ln.fun.c[2]))}}
IntLike == {"int", "const int"}
ReturnedAtOnce(b) == /\ Len(b.c) >= 2
                     /\ b.c[Len(b.c)].k = "return" /\ b.c[Len(b.c) - 1].k = "decls"
                     /\ LET r == b.c[Len(b.c)]  d == b.c[Len(b.c) - 1] IN
                        Len(d.c) = 1 /\ d.c[1].ty \in IntLike /\ Len(r.c) = 1 /\ r.c[1].k = "v" /\ r.c[1].v = d.c[1].v
RECURSIVE Blocks(_)
Blocks(n) == (IF n.k = "block" THEN {n} ELSE {}) \cup UNION {Blocks(n.c[i]) : i \in 1..Len(n.c)}
ReturnedLocals(ln) == {<<"redundant local variable", b.c[Len(b.c) - 1].c[1].p, "">> : b \in {x \in Blocks(ln.fun) : ReturnedAtOnce(x)}}

UsesExpected(ln) ==
  LET refs == FunRefs(ln.fun) IN
  UnusedLocals(ln, refs) \cup UnusedParams(ln, refs) \cup Reassigned(ln, refs) \cup ReturnedLocals(ln)

(* ---- which programs are legal --------------------------------------------------- *)
Names(s) == {s.c[i].v : i \in 1..Len(s.c)}
Direct(b) == FoldLeft(LAMBDA acc, s : IF s.k = "decls" THEN acc \o [i \in 1..Len(s.c) |-> s.c[i].v] ELSE acc, <<>>, b.c)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
(* the body of a scope may not redeclare what its head declares *)
FreshBody(b, head) == b.k = "block" => \A i \in 1..Len(Direct(b)) : Direct(b)[i] \notin head
Auto(d) == d.kind # "global" /\ d.st # "static"
RECURSIVE Legal(_, _, _)
(* scoping, and for closures: what they may capture and change *)
Legal(n, env, lvl) ==
  LET Sub(i) == Legal(n.c[i], env, lvl) IN
  CASE n.k = "block" -> Distinct(Direct(n))
         /\ \A i \in 1..Len(n.c) : Legal(n.c[i], FoldLeft(LAMBDA e, s : After(s, e, lvl), env, SubSeq(n.c, 1, i - 1)), lvl)
    [] n.k = "decls" -> Distinct([i \in 1..Len(n.c) |-> n.c[i].v])
         /\ \A i \in 1..Len(n.c) : n.c[i].c = <<>> \/ Legal(n.c[i].c[1], FoldLeft(LAMBDA e, x : Declare(x, e, lvl), env, SubSeq(n.c, 1, i)), lvl)
    [] n.k = "for" -> LET in == After(n.c[1], env, lvl) IN
         /\ Legal(n.c[1], env, lvl) /\ \A i \in 2..4 : Legal(n.c[i], in, lvl)
         /\ (n.c[1].k = "decls" => FreshBody(n.c[4], Names(n.c[1])))
    [] n.k \in {"rfor", "forin", "catch", "atcatch"} -> Legal(n.c[2], Declare(n.c[1], env, lvl), lvl) /\ (n.c[1].k # "none" => FreshBody(n.c[2], {n.c[1].v}))
    [] n.k \in Closures ->
         LET inner == Params(n.c[2], "inner", env, lvl + 1)
             rs == Refs(n.c[3], inner, lvl + 1)
             outer == {r \in rs : Auto(r.d) /\ r.d.lvl <= lvl} IN
         /\ Legal(n.c[3], inner, lvl + 1) /\ FreshBody(n.c[3], Names(n.c[2]))
         /\ Distinct([i \in 1..Len(n.c[1].c) |-> n.c[1].c[i].v]) /\ \A i \in 1..Len(n.c[1].c) : Auto(Find(n.c[1].c[i].v, env))
         /\ (n.k = "lclass" => outer = {})
         /\ (n.k = "objcblock" => \A r \in outer : ~r.wr)
         /\ (n.k = "lambda" /\ n.c[1].c # <<>> => \A r \in outer : \E i \in 1..Len(n.c[1].c) : Find(n.c[1].c[i].v, env) = r.d)
    [] OTHER -> \A i \in 1..Len(n.c) : Sub(i)
LegalFun(f) == Distinct([i \in 1..Len(f.c[1].c) |-> f.c[1].c[i].v])
               /\ FreshBody(f.c[2], Names(f.c[1])) /\ Legal(f.c[2], Params(f.c[1], "param", <<>>, 1), 1)
=============================================================================
