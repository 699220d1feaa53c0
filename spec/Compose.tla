------------------------------- MODULE Compose -------------------------------
(* How the verdicts of rules on pieces of source make up the report of a run.   *)
(*                                                                              *)
(* A file is a sequence of blocks (self-contained functions and classes).  A    *)
(* table t holds what each rule says about each block analysed alone:           *)
(* t[b][r] is a sequence of verdicts.  A run analyses files in command order    *)
(* with rules in registration order; its report must be exactly what the table  *)
(* says, file by file, within a file rule by rule - whatever was analysed       *)
(* before, beside and in whichever mode.  An entry of a report is               *)
(* <<file, block position, verdict>>.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

RECURSIVE CatUpTo(_, _)
CatUpTo(F, n) == IF n = 0 THEN <<>> ELSE CatUpTo(F, n - 1) \o F[n]
Cat(F) == CatUpTo(F, Len(F))

(* what rule r reports for file f *)
Group(t, files, f, r) == Cat([p \in 1..Len(files[f]) |->
                                LET vs == t[files[f][p]][r] IN [i \in 1..Len(vs) |-> <<f, p, vs[i]>>]])
(* the groups of a run, in report order *)
Groups(t, files, cmds, rules) == [k \in 1..(Len(cmds) * Len(rules)) |->
    Group(t, files, cmds[1 + (k - 1) \div Len(rules)], rules[1 + ((k - 1) % Len(rules))])]

(* without allow-duplicated-violations only the first occurrence of each is kept *)
RECURSIVE UniqUpTo(_, _)
UniqUpTo(s, n) == IF n = 0 THEN <<>>
                  ELSE LET u == UniqUpTo(s, n - 1) IN IF \E i \in 1..Len(u) : u[i] = s[n] THEN u ELSE Append(u, s[n])
Uniq(s) == UniqUpTo(s, Len(s))
(* entries of different files differ, and a rule's differ from another's: so it is enough to look at one group, *)
(* provided the group did not occur before                                                                      *)
Kept(t, files, cmds, rules, dups) ==
    [k \in 1..(Len(cmds) * Len(rules)) |->
        LET g == Group(t, files, cmds[1 + (k - 1) \div Len(rules)], rules[1 + ((k - 1) % Len(rules))])
            c == 1 + (k - 1) \div Len(rules)
        IN IF dups THEN g ELSE IF \E d \in 1..(c - 1) : cmds[d] = cmds[c] THEN <<>> ELSE Uniq(g)]
Report(t, files, cmds, rules, dups) == Cat(Kept(t, files, cmds, rules, dups))

(* a file that does not compile contributes nothing *)
Analysed(cmds, broken) == SelectSeq(cmds, LAMBDA f : f \notin broken)
=============================================================================
