------------------------------ MODULE Suppress -------------------------------
(* What inline suppressions silence.                                            *)
(*                                                                              *)
(* A compilation is seen as declarations with their extents, the annotations    *)
(* written at them and the earlier declarations of the same entity (whose       *)
(* annotations they inherit), the lines of the main file that carry a           *)
(* //!OCLINT comment, and what the rules would report without any suppression.  *)
(*   decl:  [at: set or sequence of strings, prev: sequence of indices,         *)
(*           l1, c1, l2, c2]                                                    *)
(*   verdict: [rule, lines (by a line-reading rule), main (located in the main  *)
(*           file), l, g: l1 c1 l2 c2 as a place in the main file]              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* annotations a declaration carries: its own and those of earlier declarations of the entity *)
RECURSIVE Carried(_, _)
Carried(ds, d) == RangeOf(ds[d].at) \cup UNION {Carried(ds, p) : p \in RangeOf(ds[d].prev)}
IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* an annotation silences every rule, or the one it names in brackets (a note may follow) *)
Silences(a, rule) == a = "oclint:suppress" \/ IsPrefix2("oclint:suppress[" \o rule \o "]", a)
Marked(ds, d, rule) == \E a \in Carried(ds, d) : Silences(a, rule)

NotAfter(l, c, m, k) == l < m \/ (l = m /\ c <= k)
(* the declaration itself was reported, or encloses the construct *)
Encloses(d, v) == NotAfter(d.l1, d.c1, v.g1, v.h1) /\ NotAfter(v.g2, v.h2, d.l2, d.c2)
CoversLine(d, v) == d.l1 <= v.l /\ v.l <= d.l2

Suppressed(ds, cs, v) ==
    \/ v.main /\ v.l \in cs
    \/ \E d \in 1..Len(ds) : Marked(ds, d, v.rule) /\ (IF v.lines THEN CoversLine(ds[d], v) ELSE Encloses(ds[d], v))
Remaining(ds, cs, vs) == SelectSeq(vs, LAMBDA v : ~Suppressed(ds, cs, v))
=============================================================================
