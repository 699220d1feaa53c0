------------------------------- MODULE Results --------------------------------
(* The collection of findings and its two views.  A history is a sequence of     *)
(* operations <<op, i>>: "S" begins the set of the next translation unit, "v"     *)
(* adds the i-th violation of a table to it, "e" "w" "b" add it to the compiler   *)
(* errors, warnings and analyzer bugs.  tab[i] gives rule, priority and path.     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
Empty == [sets |-> <<>>, e |-> <<>>, w |-> <<>>, b |-> <<>>]
Apply(c, o) ==
  CASE o[1] = "S" -> [c EXCEPT !.sets = Append(@, <<>>)]
    [] o[1] = "v" -> [c EXCEPT !.sets[Len(c.sets)] = Append(@, o[2])]
    [] o[1] = "e" -> [c EXCEPT !.e = Append(@, o[2])]
    [] o[1] = "w" -> [c EXCEPT !.w = Append(@, o[2])]
    [] o[1] = "b" -> [c EXCEPT !.b = Append(@, o[2])]
Collect(ops) == FoldLeft(Apply, Empty, ops)
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
(* keep an element unless it is there already *)
Once(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
Prio(tab, s, p) == Cardinality({i \in 1..Len(s) : tab[s[i]].prio = p})
Answer(tab, c, f(_)) ==
  LET v == f(Flat(c.sets))
      e == f(c.e)
      w == f(c.w)
      b == f(c.b)
  IN [v |-> v, e |-> e, w |-> w, b |-> b, n |-> Len(v), p |-> <<Prio(tab, v, 1), Prio(tab, v, 2), Prio(tab, v, 3)>>,
      ne |-> Len(e), nw |-> Len(w), nb |-> Len(b), files |-> Len(c.sets),
      dirty |-> Cardinality({tab[c.sets[i][1]].path : i \in {j \in 1..Len(c.sets) : c.sets[j] # <<>>}}),
      he |-> e # <<>>, hw |-> w # <<>>, hb |-> b # <<>>]
Both(tab, ops) == LET c == Collect(ops) IN [raw |-> Answer(tab, c, LAMBDA s : s), uni |-> Answer(tab, c, Once)]

(* laws, over the history itself *)
Of(ops, k) == SelectSeq(ops, LAMBDA o : o[1] = k)
Args(s) == [i \in 1..Len(s) |-> s[i][2]]
Laws(tab, ops) ==
  LET a == Both(tab, ops)
      vs == Args(Of(ops, "v"))
      firsts(s) == {i \in 1..Len(s) : \A j \in 1..(i - 1) : s[j] # s[i]}
      distinct(s) == [i \in 1..Cardinality(firsts(s)) |-> s[SetToSortSeq(firsts(s), <)[i]]]
  IN /\ a.raw.v = vs /\ a.raw.e = Args(Of(ops, "e")) /\ a.raw.w = Args(Of(ops, "w")) /\ a.raw.b = Args(Of(ops, "b"))
     /\ a.uni.v = distinct(vs) /\ a.uni.e = distinct(a.raw.e) /\ a.uni.w = distinct(a.raw.w) /\ a.uni.b = distinct(a.raw.b)
     /\ a.uni.n = Cardinality({vs[i] : i \in 1..Len(vs)})
     /\ a.raw.p[1] + a.raw.p[2] + a.raw.p[3] = Len(vs)
     /\ a.raw.files = Len(Of(ops, "S")) /\ a.uni.files = a.raw.files /\ a.uni.dirty = a.raw.dirty
     /\ a.raw.dirty <= a.raw.files
     /\ \A i \in 1..3 : a.uni.p[i] <= a.raw.p[i]
===============================================================================
