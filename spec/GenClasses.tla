------------------------------ MODULE GenClasses -----------------------------
(* Grows class hierarchies one class at a time. *)
EXTENDS Classes, Json
CONSTANTS MaxClasses, Dtors, Accs, Methods, Statics, MaxBases
VARIABLE H

(* a private destructor that derived classes cannot use makes theirs deleted *)
RECURSIVE Deleted(_, _)
Deleted(G, c) == G[c].dtor = <<>> /\ \E j \in 1..Len(G[c].bases) :
                   LET b == G[c].bases[j].i IN (G[b].dtor # <<>> /\ G[b].dtor[1].acc = "private") \/ Deleted(G, b)
Valid(G) == LET c == Len(G) IN ~(Deleted(G, c) /\ DtorVirtual(G, c))

DtorOf(d) == CASE d = "none" -> <<>> [] d = "pub" -> <<[acc |-> "public", virt |-> FALSE]>> [] d = "pubv" -> <<[acc |-> "public", virt |-> TRUE]>>
               [] d = "prot" -> <<[acc |-> "protected", virt |-> FALSE]>> [] d = "protv" -> <<[acc |-> "protected", virt |-> TRUE]>>
               [] d = "priv" -> <<[acc |-> "private", virt |-> FALSE]>> [] d = "privv" -> <<[acc |-> "private", virt |-> TRUE]>>
Meth(nm, v, d, s, a) == [name |-> nm, p |-> "", virt |-> v, def |-> d, stat |-> s, acc |-> a, out |-> <<>>]
MethOf(m) == CASE m = "none" -> <<>> [] m = "m" -> <<Meth("m", FALSE, FALSE, FALSE, "public")>> [] m = "vm" -> <<Meth("m", TRUE, FALSE, FALSE, "public")>>
               [] m = "vmd" -> <<Meth("m", TRUE, TRUE, FALSE, "public")>> [] m = "md" -> <<Meth("m", FALSE, TRUE, FALSE, "private")>>
               [] m = "vo" -> <<Meth("o", TRUE, TRUE, FALSE, "protected")>> [] m = "od" -> <<Meth("o", FALSE, TRUE, FALSE, "public"), Meth("m", FALSE, FALSE, FALSE, "public")>>
StatOf(s) == CASE s = "none" -> [ms |-> <<>>, sd |-> <<>>]
               [] s = "priv" -> [ms |-> <<Meth("s", FALSE, FALSE, TRUE, "private")>>, sd |-> <<[acc |-> "private", p |-> "", out |-> <<>>]>>]
               [] s = "prot" -> [ms |-> <<Meth("s", FALSE, TRUE, TRUE, "protected")>>, sd |-> <<[acc |-> "protected", p |-> "", out |-> <<>>]>>]
               [] s = "mix" -> [ms |-> <<Meth("s", FALSE, FALSE, TRUE, "public"), Meth("t", FALSE, TRUE, TRUE, "private")>>,
                               sd |-> <<[acc |-> "private", p |-> "", out |-> <<>>], [acc |-> "public", p |-> "", out |-> <<>>]>>]
BaseLists(n) == {<<>>} \cup {<<[i |-> i, acc |-> a, virt |-> FALSE]>> : i \in 1..n, a \in Accs}
                \cup (IF MaxBases < 2 THEN {} ELSE {<<[i |-> i, acc |-> a, virt |-> FALSE], [i |-> j, acc |-> b, virt |-> FALSE]>> :
                        i \in 1..n, j \in {k \in 1..n : TRUE}, a \in Accs, b \in Accs})
Distinct(bs) == IF Len(bs) < 2 THEN TRUE ELSE bs[1].i # bs[2].i

Init == H = <<>>
Next == /\ Len(H) < MaxClasses
        /\ \E bs \in BaseLists(Len(H)), d \in Dtors, m \in Methods, s \in Statics :
             /\ Distinct(bs)
             /\ H' = Append(H, [name |-> "K" \o ToString(Len(H) + 1), p |-> ToString(Len(H) + 1), bases |-> bs, dtor |-> DtorOf(d), ms |-> MethOf(m) \o StatOf(s).ms, sd |-> StatOf(s).sd])
             /\ Valid(H')
Emit == Len(H) >= 1 => PrintT("@@" \o ToJson(H))
Laws == Inherited(H) /\ Clean(H) /\ OnlyAncestors(H) /\ DirectSafe(H) /\ Prefix(H)
=============================================================================
