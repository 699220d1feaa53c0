--------------------------------- MODULE Gen ---------------------------------
(* A state machine that builds programs bottom-up.  The state is a stack of    *)
(* finished trees; a step completes one more construct by taking its           *)
(* constituents from the top of the stack.  A construct is a template: a tree  *)
(* with numbered holes, the sorts of the holes, its own sort and its weight.   *)
(* The total weight is bounded, so TLC visits every program up to the bound.   *)
EXTENDS Tree, Json
CONSTANTS Templates,      \* set of [t, args, s, w]
          Accepts(_, _),  \* Accepts(wanted sort, sort of the item)
          MaxWeight, MaxStack,
          IsProgram(_)    \* is this stack item a complete program?
VARIABLE stack            \* sequence of [t, s, w]

HoleIndex(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3
RECURSIVE Fill(_, _)
Fill(n, xs) == IF n.k = "hole" THEN xs[n.v]
               ELSE IF n.k = "hole_" THEN xs[HoleIndex(n.v)]
               ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Fill(n.c[i], xs)]]

Weight == FoldLeft(LAMBDA acc, e : acc + e.w, 0, stack)

Init == stack = <<>>

Build(tp) ==
  LET m == Len(tp.args)
      base == Len(stack) - m
  IN /\ base >= 0
     /\ \A i \in 1..m : Accepts(tp.args[i], stack[base + i].s)
     /\ Weight + tp.w + (IF base >= 1 THEN 1 ELSE 0) <= MaxWeight
     /\ base + 1 <= MaxStack
     /\ stack' = Append(SubSeq(stack, 1, base),
                        [t |-> Fill(tp.t, [i \in 1..m |-> stack[base + i].t]), s |-> tp.s,
                         w |-> tp.w + FoldLeft(LAMBDA acc, e : acc + e.w, 0, SubSeq(stack, base + 1, Len(stack)))])

Next == \E tp \in Templates : Build(tp)

Complete == Len(stack) = 1 /\ IsProgram(stack[1])
Program == stack[1].t
Emit == Complete => PrintT("@@" \o ToJson(Program))
=============================================================================
