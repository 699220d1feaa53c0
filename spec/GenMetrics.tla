----------------------------- MODULE GenMetrics ------------------------------
(* All function bodies up to a weight, over the statements the metrics look at, *)
(* and the properties of the metrics themselves.                                *)
EXTENDS Metrics, Json
CONSTANTS MaxWeight, MaxStack, MaxArity, Kinds, Conds
VARIABLE stack

H(i) == N("hole", i, <<>>)
A == N("v", "a", <<>>)
B == N("v", "b", <<>>)
Cd(x) == CASE x = "a" -> A
           [] x = "and" -> N("land", "", <<A, B>>)
           [] x = "or" -> N("lor", "", <<A, N("par", "", <<N("land", "", <<B, A>>)>>)>>)
           [] x = "cond" -> N("cond", "", <<A, B, N("int", "1", <<>>)>>)
           [] x = "not" -> N("un", "!", <<N("par", "", <<N("lor", "", <<A, B>>)>>)>>)
T(t, args, s, w) == [t |-> t, args |-> args, s |-> s, w |-> w]
NoneT == N("none", "", <<>>)
(* conditions that declare a variable or follow another statement *)
Modern == {N("cvar", "", <<Cd(x)>>) : x \in Conds}
          \cup {N("cinit", "", <<i, Cd(x)>>) : i \in {N("decl", "", <<Cd("and")>>), N("expr", "", <<Cd("or")>>), N("null", "", <<>>)}, x \in Conds}

Wanted(k, ts) == IF k \in Kinds THEN ts ELSE {}
Tmpl ==
  {T(N("block", "", [i \in 1..m |-> H(i)]), [i \in 1..m |-> "S"], "B", 1) : m \in 0..MaxArity}
  \cup {T(N("e", "", <<>>), <<>>, "S", 1)}
  \cup Wanted("null", {T(N("null", "", <<>>), <<>>, "S", 1)})
  \cup Wanted("ret", {T(N("return", "", <<Cd(x)>>), <<>>, "S", 1) : x \in Conds \ {"a"}})
  \cup Wanted("exprs", {T(N("expr", "", <<N("par", "", <<Cd(x)>>)>>), <<>>, "S", 1) : x \in Conds \ {"a"}})
  \cup Wanted("decl", {T(N("decl", "", <<>>), <<>>, "D", 1)})
  \cup Wanted("if", {T(N("if", "", <<Cd(x), H(1)>>), <<"S">>, "S", 1) : x \in Conds})
  \cup Wanted("modern", {T(N("if", "", <<c, H(1)>>), <<"S">>, "S", 1) : c \in Modern}
                      \cup {T(N("ifelse", "", <<c, H(1), H(2)>>), <<"S", "S">>, "S", 1) : c \in Modern}
                      \cup {T(N("while", "", <<N("cvar", "", <<Cd(x)>>), H(1)>>), <<"S">>, "S", 1) : x \in Conds}
                      \cup {T(N("for", "", <<NoneT, N("cvar", "", <<Cd(x)>>), NoneT, H(1)>>), <<"S">>, "S", 1) : x \in Conds}
                      \cup {T(N("if", "cx", <<N("int", "1", <<>>), H(1)>>), <<"S">>, "S", 1), T(N("if", "ce", <<NoneT, H(1)>>), <<"B">>, "S", 1),
                            T(N("ifelse", "ce", <<NoneT, H(1), H(2)>>), <<"B", "B">>, "S", 1)})
  \cup Wanted("ifelse", {T(N("ifelse", "", <<Cd(x), H(1), H(2)>>), <<"S", "S">>, "S", 1) : x \in Conds})
  \cup Wanted("while", {T(N("while", "", <<Cd(x), H(1)>>), <<"S">>, "S", 1) : x \in Conds})
  \cup Wanted("do", {T(N("do", "", <<H(1), Cd(x)>>), <<"S">>, "S", 1) : x \in Conds})
  \cup Wanted("for", {T(N("for", "", <<NoneT, Cd(x), NoneT, H(1)>>), <<"S">>, "S", 1) : x \in Conds})
  \cup Wanted("for", {T(N("for", "", <<N("asg", "=", <<A, B>>), NoneT, Cd(x), H(1)>>), <<"S">>, "S", 1) : x \in Conds})
  \cup Wanted("forin", {T(N("forin", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("rfor", {T(N("rfor", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("switch", {T(N("switch", "", <<Cd(x), H(1)>>), <<"SB">>, "S", 1) : x \in Conds})
  \cup Wanted("switch", {T(N("block", "", [i \in 1..m |-> H(i)]), [i \in 1..m |-> "C"], "SB", 1) : m \in 0..MaxArity})
  \cup Wanted("switch", {T(N(k, "", <<H(1)>>), <<"S">>, "K", 1) : k \in {"case", "default"}})
  \cup Wanted("attr", {T(N("attr", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("label", {T(N("label", "", <<H(1)>>), <<"S">>, "S", 1)})
  \cup Wanted("try", {T(N("try", "", <<H(1), N("catch", "...", <<H(2)>>)>>), <<"B", "B">>, "S", 1),
                      T(N("try", "", <<H(1), N("catch", "int", <<H(2)>>), N("catch", "...", <<H(3)>>)>>), <<"B", "B", "B">>, "S", 1)})
  \cup Wanted("attry", {T(N("attry", "", <<H(1), N("atcatch", "", <<H(2)>>)>>), <<"B", "B">>, "S", 1),
                        T(N("attry", "", <<H(1), N("atfinally", "", <<H(2)>>)>>), <<"B", "B">>, "S", 1),
                        T(N("attry", "", <<H(1), N("atcatch", "", <<H(2)>>), N("atfinally", "", <<H(3)>>)>>), <<"B", "B", "B">>, "S", 1)})
  \cup Wanted("sync", {T(N("sync", "", <<H(1)>>), <<"B">>, "S", 1)})
  \cup Wanted("pool", {T(N("pool", "", <<H(1)>>), <<"B">>, "S", 1)})

Acc(want, have) == CASE want = "S" -> have \in {"S", "B"}
                     [] want = "C" -> have \in {"K", "S", "B"}
                     [] want = "B" -> have = "B"
                     [] want = "SB" -> have = "SB"
                     [] OTHER -> FALSE
IsProg(e) == e.s = "B"
INSTANCE Gen WITH Templates <- Tmpl, Accepts <- Acc, IsProgram <- IsProg

(* ---- properties of the definitions -------------------------------------- *)
(* an independent, flat reading of each metric *)
Opaque == {"lambda", "objcblock"}     \* NCSS and depth do not look inside
RECURSIVE Stmts(_)
Stmts(n) == IF n.k \in ExprKinds THEN <<>> ELSE
            FoldLeft(LAMBDA acc, x : acc \o Stmts(x), <<n>>, IF n.k \in Opaque \cup {"expr", "return", "decl"} THEN <<>> ELSE n.c)
FlatNcss(b) == LET s == SelectSeq(Stmts(b), LAMBDA n : n.k \notin {"block", "null", "attr"})
               IN 1 + Len(s) + Len(SelectSeq(s, LAMBDA n : n.k \in {"ifelse", "do"}))
NcssFlat == Complete => Ncss(Program) = FlatNcss(Program)

FlatCCN(b) == 1 + Len(SelectSeq(Nodes(b), LAMBDA n : n.k \in DecisionKinds))
CcnFlat == Complete => CCN(Program) = FlatCCN(Program)

(* depth = longest chain of blocks, each inside the previous one *)
RECURSIVE Chain(_)
Chain(n) == LET inner == MaxOf(Chain, IF n.k \in Opaque \cup ExprKinds THEN <<>> ELSE n.c)
            IN IF n.k = "block" THEN 1 + inner ELSE inner
DepthChain == Complete => DepthS(Program) = Chain(Program)

(* sequencing: CCN adds, NPath multiplies, NCSS adds, depth takes the maximum *)
Seq2 == Complete =>
  LET P == Program IN \A i \in 0..Len(P.c) :
    LET x == N("block", "", SubSeq(P.c, 1, i))
        y == N("block", "", SubSeq(P.c, i + 1, Len(P.c)))
    IN /\ CCN(P) = CCN(x) + CCN(y) - 1
       /\ NPath(P) = SatMul(NPath(x), NPath(y))
       /\ Ncss(P) = Ncss(x) + Ncss(y) - 1
       /\ DepthS(P) = Max2(DepthS(x), DepthS(y))

(* a program without branching has one path; branching never lowers the count,   *)
(* except that a switch without cases (or with code before the first) counts 0   *)
NPathSane == Complete =>
  LET noSw == ~HasKind(Program, {"switch"}) IN
    /\ noSw => NPath(Program) >= 1
    /\ (~HasKind(Program, {"if", "ifelse", "while", "do", "for", "forin", "rfor", "switch"})) => NPath(Program) = 1
    /\ (noSw /\ ~HasKind(Program, {"try", "attry", "sync", "pool"}) /\ Len(Program.c) <= 1
        /\ HasKind(Program, {"if", "ifelse", "while", "do", "for", "forin", "rfor"})) => NPath(Program) >= 2
=============================================================================
