------------------------------ MODULE GenDiag ----------------------------------
(* All files of up to MaxLen items of the given kinds, with the laws of Diag      *)
(* checked under every set of flags.                                              *)
EXTENDS Diag, Json
CONSTANTS MaxLen, Kinds
VARIABLE seq
It(k, i, h, g) == [k |-> k, n |-> "n" \o ToString(i), l |-> i, c |-> 1, h |-> h, g |-> g]
Of(k, i) == CASE k = "inc" -> It("inc", i, 1, "") [] k = "sinc" -> It("sinc", i, 2, "")
              [] k = "igW" -> It("ignored", i, 0, "#warnings") [] k = "erW" -> It("error", i, 0, "#warnings")
              [] k = "igC" -> It("ignored", i, 0, "constant-conversion") [] k = "waU" -> It("warning", i, 0, "unused-variable")
              [] k = "erL" -> It("error", i, 0, "unused-function")
              [] OTHER -> It(k, i, 0, "")
Depth(s) == Cardinality({i \in 1..Len(s) : s[i] = "push"}) - Cardinality({i \in 1..Len(s) : s[i] = "pop"})
Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E k \in Kinds : (k = "pop" => Depth(seq) > 0) /\ seq' = Append(seq, k)

Plain == [wall |-> FALSE, w |-> FALSE, werror |-> FALSE, fatal |-> FALSE, sys |-> FALSE, limit |-> 0, off |-> <<>>, up |-> <<>>]
FlagSets == {Plain, [Plain EXCEPT !.wall = TRUE], [Plain EXCEPT !.wall = TRUE, !.sys = TRUE], [Plain EXCEPT !.wall = TRUE, !.off = <<"unused-variable">>],
             [Plain EXCEPT !.up = <<"unused-variable">>], [Plain EXCEPT !.wall = TRUE, !.limit = 1], [Plain EXCEPT !.fatal = TRUE],
             [Plain EXCEPT !.wall = TRUE, !.up = <<"#warnings", "unused-function">>]}
Main == [i \in 1..Len(seq) |-> Of(seq[i], i)]
Files == <<<<It("warn", 7, 0, ""), It("unused", 8, 0, "")>>, <<It("const", 9, 0, ""), It("warn", 6, 0, "")>>, Main>>
Names == <<"h1", "h2", "m">>
Em(fl) == Emitted(Files, Names, [main |-> 3, fl |-> fl])
Errors(s) == Sel(s, IsErr)
Warnings(s) == Sel(s, IsWarn)
Bare(s) == Places(Sel(s, LAMBDA d : d.lv # "note"))

(* the end of a file without errors is the place for unused functions *)
Late(d) == \E i \in 1..Len(seq) : Main[i].k = "late" /\ d = Place(D("", "m", Main[i]))
Laws == \A fl \in FlagSets :
  LET e == Em(fl)  bare == Bare(e)
      wx == Em([fl EXCEPT !.werror = TRUE])
      q == Em([fl EXCEPT !.w = TRUE])
      ft == Em([fl EXCEPT !.fatal = TRUE])
  IN (* everything but notes is reported, in one list, in its order *)
     /\ Len(Errors(e)) + Len(Warnings(e)) = Len(bare)
     /\ \A i, j \in 1..Len(bare) : i # j => (bare[i] # bare[j] \/ bare[i].f = "")
     (* nothing follows a fatal error *)
     /\ \A i \in 1..Len(e) : e[i].lv = "fatal" => Errors(SubSeq(e, i + 1, Len(e))) \o Warnings(SubSeq(e, i + 1, Len(e))) = <<>>
     (* -w leaves no warning and keeps the errors of the language *)
     /\ Warnings(q) = <<>>
     /\ (fl.limit = 0 /\ ~fl.fatal => \A d \in Rng(q) : IsErr(d) => d \in Rng(e))
     (* -Werror changes what a warning is called, not which are given *)
     /\ (fl.limit = 0 /\ ~fl.fatal => (~(\E i \in 1..Len(seq) : Main[i].k = "warning") => Warnings(wx) = <<>>) /\ Bare(wx) = (IF Compiled(Files, Names, [main |-> 3, fl |-> [fl EXCEPT !.werror = TRUE]]).early > 0 THEN SelectSeq(bare, LAMBDA d : ~Late(d)) ELSE bare))
     (* -Wfatal-errors stops at the first error *)
     /\ (~(\E i \in 1..Len(seq) : Main[i].k = "error") => Len(Errors(ft)) <= 1)
     /\ (fl.limit = 0 => \A k \in 1..Len(Bare(ft)) : Bare(ft)[k] = bare[k])
     (* the limit *)
     /\ (fl.limit > 0 => Len(Errors(e)) <= fl.limit + 1)
     (* a harmless line changes nothing *)
     /\ Emitted(<<Files[1], Files[2], <<It("ok", 0, 0, "")>> \o Main>>, Names, [main |-> 3, fl |-> fl]) = e
Emit == Len(seq) = MaxLen => PrintT("@@" \o ToJson([i \in 1..Len(seq) |-> Of(seq[i], i)]))
=============================================================================
