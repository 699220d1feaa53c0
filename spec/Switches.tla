------------------------------ MODULE Switches -------------------------------
(* Switch statements.  Children <<condition, body>>; v = "enum" when the        *)
(* condition has the enumeration type with the enumerators of AllEnum.          *)
EXTENDS Tree

AllEnum == {"E1", "E2", "E3"}

RECURSIVE OwnCases(_)
(* the case and default labels of a switch, in source order: not those of nested switches *)
OwnCases(n) == IF n.k = "switch" \/ n.k \in {"lambda", "objcblock"} THEN <<>>
               ELSE (IF n.k \in {"case", "default"} THEN <<n>> ELSE <<>>) \o FlatMap(OwnCases, n.c)
CasesOf(sw) == OwnCases(sw.c[2])

HasDefault(sw) == \E i \in 1..Len(CasesOf(sw)) : CasesOf(sw)[i].k = "default"
Covered(sw) == sw.v = "enum" /\ AllEnum \subseteq {CasesOf(sw)[i].v : i \in {j \in 1..Len(CasesOf(sw)) : CasesOf(sw)[j].k = "case"}}
NumCases(sw) == Len(SelectSeq(CasesOf(sw), LAMBDA x : x.k = "case"))

(* the default label, when a case label comes after it *)
MisplacedDefault(sw) == LET cs == CasesOf(sw) IN
  {i \in 1..Len(cs) : cs[i].k = "default" /\ i < Len(cs)}

Jumps == {"break", "continue", "return", "throw", "atthrow"}
Leaves(s) == s.k \in {"break", "continue", "return", "atthrow"} \/ (s.k = "expr" /\ s.c[1].k = "throw")
             \/ (s.k = "block" /\ HasKind(s, Jumps))

(* walking the statements of the body: acc = <<a break was seen since the last label, violated>> *)
BreakWalk(body) == FoldLeft(LAMBDA acc, s :
    IF Leaves(s) THEN <<TRUE, acc[2]>>
    ELSE IF s.k \in {"case", "default"} THEN <<HasKind(s, Jumps), acc[2] \/ ~acc[1]>>
    ELSE acc, <<TRUE, FALSE>>, body.c)
MissingBreak(sw) == sw.c[2].k = "block" /\ (BreakWalk(sw.c[2])[2] \/ ~BreakWalk(sw.c[2])[1])

Labels(sw) == SelectSeq(Nodes(sw), LAMBDA x : x.k = "label")

SwH(rule, n) == <<[rule |-> rule, at |-> n]>>
SwitchHits(sw, min) ==
  (IF ~Covered(sw) /\ ~HasDefault(sw) THEN SwH("missing default in switch statements", sw) ELSE <<>>)
  \o (IF Covered(sw) /\ HasDefault(sw) THEN SwH("unnecessary default statement in covered switch statement", sw) ELSE <<>>)
  \o (IF NumCases(sw) < min THEN SwH("too few branches in switch statement", sw) ELSE <<>>)
  \o (IF MissingBreak(sw) THEN SwH("missing break in switch statement", sw) ELSE <<>>)
  \o FlatMap(LAMBDA i : SwH("ill-placed default label in switch statement", CasesOf(sw)[i]), SetToSeq(MisplacedDefault(sw)))
  \o FlatMap(LAMBDA n : SwH("non case label in switch statement", n), Labels(sw))

SwitchesOf(body) == SelectSeq(Nodes(body), LAMBDA n : n.k = "switch")
SwitchAll(body, min) == FlatMap(LAMBDA sw : SwitchHits(sw, min), SwitchesOf(body))
SwitchExpected(ln) == LET h == SwitchAll(ln.body, ln.lim.cases) IN {<<h[i].rule, h[i].at.p, "">> : i \in 1..Len(h)}

(* ---- laws ------------------------------------------------------------------- *)
RuleHits(h, rule) == SelectSeq(h, LAMBDA x : x.rule = rule)
OneDefault(sw) == Len(SelectSeq(CasesOf(sw), LAMBDA x : x.k = "default")) <= 1
SwitchLaws(body) == LET sws == SelectSeq(SwitchesOf(body), OneDefault) IN Len(sws) = Len(SwitchesOf(body)) => \A i \in 1..Len(sws) :
  LET sw == sws[i]
      h == SwitchHits(sw, 3)
      has(r) == RuleHits(h, r) # <<>>
  IN /\ ~(has("missing default in switch statements") /\ has("unnecessary default statement in covered switch statement"))
     /\ ~(has("missing default in switch statements") /\ has("ill-placed default label in switch statement"))
     (* every label of the program belongs to exactly one switch *)
     /\ Len(SelectSeq(Nodes(body), LAMBDA n : n.k \in {"case", "default"})) = SumOf(LAMBDA s : Len(CasesOf(s)), sws)
     (* appending break after the last statement never adds a missing break *)
     /\ sw.c[2].k = "block" => (~MissingBreak(sw) => ~MissingBreak([sw EXCEPT !.c[2].c = Append(@, N("break", "", <<>>))]))
     (* a switch in which every label is directly followed by break misses none *)
     /\ sw.c[2].k = "block" =>
          ~MissingBreak([sw EXCEPT !.c[2].c = FlatMap(LAMBDA s : <<s, N("break", "", <<>>)>>, sw.c[2].c)])
     /\ NumCases(sw) + (IF HasDefault(sw) THEN 1 ELSE 0) = Len(CasesOf(sw))
=============================================================================
