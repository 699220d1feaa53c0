---------------------------- MODULE GenSuppress ------------------------------
(* All small trees of declarations with all placements of annotations and of a  *)
(* comment; the laws of Suppress on each; and the trees to replay.              *)
EXTENDS Suppress, Json
CONSTANTS Family, MaxN
VARIABLES par, kind, ann, cmt
vars == <<par, kind, ann, cmt>>
Kinds == IF Family = "c" THEN {"fn", "par", "var"} ELSE IF Family = "objc" THEN {"cls", "fn", "var", "lam"} ELSE {"fn", "cls", "ns", "var", "lam", "par"}
(* what may contain what; 0 is the translation unit *)
May(o, k) == CASE k = "ns" -> o \in {"", "ns"}
               [] k = "cls" -> IF Family = "objc" THEN o = "" ELSE o \in {"", "ns", "cls", "fn"}
               [] k = "fn" -> o \in {"", "ns", "cls"}
               [] k = "var" -> o \in {"", "ns", "fn", "cls", "lam"}
               [] k = "lam" -> o \in {"fn", "var", "lam"}
               [] k = "par" -> o \in {"fn"}
Anns == {"", "oclint:suppress", "oclint:suppress[A]", "oclint:suppress[B]"}
N == Len(kind)
KindOf(n) == IF n = 0 THEN "" ELSE kind[n]
RECURSIVE Ancs(_)
Ancs(n) == IF n = 0 THEN {} ELSE {n} \cup Ancs(par[n])
Init == par = <<>> /\ kind = <<>> /\ ann = <<>> /\ cmt = 0
(* preorder: a node is added below the last node or one of its ancestors *)
Grow == /\ N < MaxN
        /\ \E p \in Ancs(N) \cup {0}, k \in Kinds, a \in Anns :
              /\ May(KindOf(p), k)
              /\ par' = Append(par, p) /\ kind' = Append(kind, k) /\ ann' = Append(ann, a)
        /\ cmt' \in {0, N + 1}
Next == Grow

(* layout: a node opens on a line of its own, its own construct is on the next, then the nodes it contains, then it closes *)
Sub(n) == {m \in 1..N : n \in Ancs(m)}
OpenLine(n) == 3 * (n - 1) + 1
CloseLine(n) == 3 * (CHOOSE m \in Sub(n) : \A x \in Sub(n) : x <= m)
\* the last node inside closes on the same line as the outer ones: columns tell them apart
Depth(n) == Cardinality(Ancs(n))
Ds == [n \in 1..N |-> [at |-> IF ann[n] = "" THEN <<>> ELSE <<ann[n]>>, prev |-> <<>>,
                       l1 |-> OpenLine(n), c1 |-> Depth(n), l2 |-> CloseLine(n), c2 |-> 100 - Depth(n)]]
V(n, r) == [rule |-> r, lines |-> r = "L", main |-> TRUE, l |-> OpenLine(n) + 1, g1 |-> OpenLine(n) + 1, h1 |-> 50, g2 |-> OpenLine(n) + 1, h2 |-> 50]
D(n, r) == [rule |-> r, lines |-> FALSE, main |-> TRUE, l |-> OpenLine(n), g1 |-> OpenLine(n), h1 |-> Depth(n), g2 |-> CloseLine(n), h2 |-> 100 - Depth(n)]
Cs == IF cmt = 0 THEN {} ELSE {OpenLine(cmt) + 1}
Vs(r) == {V(n, r) : n \in 1..N}
\* the same told along the tree
Up(n, r) == \E a \in Ancs(n) : ann[a] \in {"oclint:suppress", "oclint:suppress[" \o r \o "]"}
TreeSaysTheSame == \A n \in 1..N, r \in {"A", "B", "L"} :
                      /\ Suppressed(Ds, Cs, V(n, r)) <=> (cmt = n \/ Up(n, r))
                      /\ Suppressed(Ds, Cs, D(n, r)) <=> Up(n, r)
(* without marks nothing is silenced; a mark silences nothing outside its declaration; naming B leaves A alone *)
NoMark == (\A n \in 1..N : ann[n] = "") /\ cmt = 0 => \A n \in 1..N, r \in {"A", "B", "L"} : ~Suppressed(Ds, Cs, V(n, r)) /\ ~Suppressed(Ds, Cs, D(n, r))
Local == \A n \in 1..N : ann[n] # "" =>
            LET Without == [Ds EXCEPT ![n].at = <<>>]
            IN \A m \in 1..N, r \in {"A", "B", "L"} :
                 /\ Suppressed(Without, Cs, V(m, r)) => Suppressed(Ds, Cs, V(m, r))
                 /\ (m \notin Sub(n) \/ ann[n] = "oclint:suppress[" \o (IF r = "A" THEN "B" ELSE "A") \o "]") =>
                        (Suppressed(Without, Cs, V(m, r)) <=> Suppressed(Ds, Cs, V(m, r)))
OtherFiles == \A n \in 1..N : LET v == [V(n, "A") EXCEPT !.main = FALSE] IN Suppressed(Ds, Cs, v) <=> Up(n, "A")
Emit == N > 0 => PrintT("@@" \o ToJson([par |-> par, kind |-> kind, ann |-> ann, cmt |-> cmt]))
=============================================================================
