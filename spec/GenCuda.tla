--------------------------------- MODULE GenCuda --------------------------------
(* All sources of up to MaxDecls declarations, grown by adding a function or a     *)
(* variable and by wrapping the last declarations, with the laws of Cuda.          *)
EXTENDS Cuda, Json
CONSTANTS MaxDecls, Attrs, Bodies, Wraps, Views
VARIABLES src, n
St(k, d, c) == [k |-> k, d |-> d, c |-> c, p |-> <<k>>]
De(k, i, a, v, c, b) == [k |-> k, n |-> "n" \o ToString(i), a |-> a, v |-> v, c |-> c, b |-> b, p |-> <<i>>]
Ie(c) == St("ifelse", <<>>, c)
Body(x, i) == CASE x = "none" -> <<>> [] x = "if" -> <<St("if", <<>>, <<>>)>> [] x = "ie" -> <<Ie(<<>>)>>
                [] x = "nest" -> <<Ie(<<Ie(<<>>)>>)>> [] x = "lam" -> <<St("lam", <<>>, <<Ie(<<>>)>>)>>
                [] x = "lcls" -> <<St("lcls", <<De("cls", 100 + i, "host", "all", <<De("fn", 200 + i, "host", "all", <<>>, <<Ie(<<>>)>>)>>, <<>>)>>, <<>>)>>
                [] x = "loop" -> <<St("while", <<>>, <<Ie(<<>>)>>)>>
Init == src = <<>> /\ n = 0
(* templates hold one function; extern "C" no template; classes functions only *)
Fits(w, ds) == CASE w = "tpl" -> Len(ds) = 1 /\ ds[1].k = "fn" /\ ds[1].v = "all"
                 [] w = "ext" -> \A i \in 1..Len(ds) : ds[i].k \in {"fn", "proto", "var"}
                 [] w \in {"cls", "ctpl"} -> \A i \in 1..Len(ds) : ds[i].k = "fn" /\ ds[i].a # "global"
                 [] OTHER -> TRUE
Next == /\ n < MaxDecls /\ n' = n + 1
        /\ \/ \E a \in Attrs, x \in Bodies, v \in Views : src' = Append(src, De("fn", n', a, v, <<>>, Body(x, n')))
           \/ \E a \in Attrs : src' = Append(src, De("proto", n', a, "all", <<>>, <<>>))
           \/ src' = Append(src, De("var", n', "host", "all", <<>>, <<>>))
           \/ \E w \in Wraps, m \in 1..2 :
                /\ m <= Len(src)
                /\ LET ds == SubSeq(src, Len(src) - m + 1, Len(src))
                   IN Fits(w, ds) /\ src' = Append(SubSeq(src, 1, Len(src) - m), De(w, n', "host", "all", ds, <<>>))
Cmd(l, f) == [lang |-> l, for |-> f, f |-> "x", src |-> src]
Ru(as) == [n |-> "r", langs |-> <<"C", "CXX">>, attrs |-> as]
H == Ru(<<"host">>)
G == Ru(<<"global">>)
B == Ru(<<"host", "global">>)
Is(p, s) == Len(s) >= 2 /\ SubSeq(s, 1, 2) = p
Fs(v) == SelectSeq(v, LAMBDA x : Is("f:", x))
Others(v) == SelectSeq(v, LAMBDA x : ~Is("f:", x))
NoLocal == \A d \in Rng(FlatMap(LAMBDA x : Funs(Cmd("cu", "dev"), x) \o Funs(Cmd("cu", "host"), x), src)) : ~\E s \in Rng(d.b) : s.k = "lcls"
Laws ==
  \A f \in {"both", "host", "dev"} :
    LET m == Cmd("cu", f)
        v(r) == Visits(m, r, src)
        ks == {d \in Rng(FlatMap(LAMBDA x : Funs(m, x), src)) : d.a = "global"}
        dv == FlatMap(LAMBDA x : Divergent(m, x), src)
    IN (* every function is visited for its attribute, kernels by the one and the others by the other kind of rule *)
       /\ Rng(Fs(v(H))) \cap Rng(Fs(v(G))) = {}
       /\ Rng(v(H)) \cup Rng(v(G)) \subseteq Rng(v(B))
       /\ (NoLocal => Rng(v(B)) = Rng(v(H)) \cup Rng(v(G)) /\ Others(v(H)) = Others(v(G)))
       /\ {"f:" \o d.n : d \in ks} \subseteq Rng(v(G))
       (* divergence is in kernels only, none without kernels *)
       /\ (ks = {} => dv = <<>>)
       /\ Len(dv) <= FoldLeft(LAMBDA acc, d : acc + Len(FlatMap(IfElse, d.b)), 0, SetToSeq(ks))
       (* compiling for devices too shows the host's view; other languages know no kernels *)
       /\ Visits(Cmd("cu", "both"), B, src) = Visits(Cmd("cu", "host"), B, src)
       /\ Visits(Cmd("cpp", f), H, src) = Visits(Cmd("cu", "host"), B, src)
       /\ ~Enters(Cmd("cpp", f), G) /\ Enters(Cmd("cu", f), G)
       (* no declaration is visited twice *)
       /\ \A i, j \in 1..Len(v(B)) : i # j => v(B)[i] # v(B)[j]
Emit == src # <<>> => PrintT("@@" \o ToJson(src))
=================================================================================
