------------------------------- MODULE GenReport --------------------------------
(* All texts of up to MaxText pieces of an alphabet of troublesome byte sequences *)
(* (characters with a meaning in some format, control characters, well-formed and *)
(* malformed UTF-8), and all histories of up to MaxOps findings, with the laws of *)
(* the reports checked on them.                                                   *)
EXTENDS Report, Json
CONSTANTS MaxText, MaxOps, Ops
VARIABLES txt, ops
Pieces == <<<<34>>, <<92>>, <<47>>, <<60>>, <<62>>, <<38>>, <<39>>, <<9>>, <<10>>, <<13>>, <<1>>, <<31>>, <<127>>, <<32>>, <<93>>, <<97>>, <<59>>, <<124>>,
           <<195, 169>>, <<195>>, <<169>>, <<237, 160, 128>>, <<240, 159, 152, 128>>, <<239, 191, 190>>, <<244, 144, 128, 128>>, <<192, 128>>, <<226, 130>>,
           <<224, 159, 191>>, <<240, 143, 191, 191>>, <<239, 191, 189>>, <<38, 97, 109, 112, 59>>, <<93, 93, 62>>, <<60, 47, 116, 100, 62>>, <<92, 117, 48, 48>>>>
Init == txt = <<>> /\ ops = <<>>
Next == \/ Len(txt) < MaxText /\ (\E i \in 1..Len(Pieces) : txt' = Append(txt, i)) /\ UNCHANGED ops
        \/ Len(ops) < MaxOps /\ (\E o \in Ops : (o \in {"v1", "v2", "v3"} => \E i \in 1..Len(ops) : ops[i] = "S") /\ ops' = Append(ops, o)) /\ UNCHANGED txt
T == Cat([i \in 1..Len(txt) |-> Pieces[txt[i]]])

Table(o) == LET r == CASE o = "v1" -> 1 [] o = "v2" -> 2 [] o = "v3" -> 3 [] OTHER -> 0
            IN [r |-> r, path |-> <<97 + (r \div 3)>> \o T, l |-> 3, c |-> 4, el |-> IF o \in {"v1", "b1"} THEN 5 ELSE 0, ec |-> IF o \in {"v1", "v2", "b1"} THEN 6 ELSE 0, msg |-> T \o B(o)]
Of(k) == Each(SelectSeq(ops, LAMBDA o : o \in k), Table)
Sets == LET f(a, o) == IF o = "S" THEN Append(a, <<>>) ELSE IF o \in {"v1", "v2", "v3"} THEN [a EXCEPT ![Len(a)] = Append(@, Table(o))] ELSE a
        IN FoldLeft(f, <<>>, ops)
Set(u) == [rules |-> <<[name |-> T \o <<114>>, cat |-> T, prio |-> 1], [name |-> <<115>>, cat |-> T, prio |-> 2], [name |-> T, cat |-> <<>>, prio |-> 3]>>,
           sets |-> Sets, e |-> Of({"e1", "e2"}), w |-> Of({"w1"}), b |-> Of({"b1"}), uniq |-> u]
WellFormed(s) == \A i \in 1..Len(s) : \E j \in 1..i : At(s, j) > i - j
TextLaws ==
  /\ Unicode(Unicode(T)) = Unicode(T) /\ Xml(Xml(T)) = Xml(T) /\ Xml(Unicode(T)) = Xml(T) /\ WellFormed(Unicode(T))
  /\ (WellFormed(T) => Unicode(T) = T)
  /\ \A i \in 1..Len(Xml(T)) : Xml(T)[i] >= 32 \/ Xml(T)[i] \in {9, 10, 13}
  (* ASCII bytes are never touched by Unicode *)
  /\ SelectSeq(Unicode(T), LAMBDA x : x < 128) = SelectSeq(T, LAMBDA x : x < 128)
Sub(a, b) == \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
DocLaws ==
  LET R == Set(FALSE)  U == Set(TRUE)  n == Len(Errors(R)) + Len(Warnings(R)) + Len(Bugs(R)) + Len(Violations(R))
      rd == JsonDoc(R)  ud == JsonDoc(U)
  IN /\ Len(PmdDoc(R)) = n /\ Len(HtmlDoc(R).rows) = n /\ Len(rd.v) + Len(rd.b) + Len(Errors(R)) + Len(Warnings(R)) = n
     /\ rd.counts[3] + rd.counts[4] + rd.counts[5] = Len(rd.v)
     /\ Sub(ud.v, rd.v) /\ Sub(rd.v, ud.v) /\ Sub(ud.b, rd.b) /\ Sub(rd.b, ud.b)
     /\ \A i, j \in 1..Len(Violations(U)) : i # j => Violations(U)[i] # Violations(U)[j]
     /\ ud.counts[1] = rd.counts[1] /\ ud.counts[2] = rd.counts[2]
     (* without findings of a kind there is no section for them; Xcode shows rule violations only *)
     /\ (R.e = <<>> /\ R.w = <<>> /\ R.b = <<>> => TextDoc(R)[3] = 79)
     /\ Len(XcodeDoc([R EXCEPT !.e = <<>>, !.w = <<>>, !.b = <<>>])) = Len(XcodeDoc(R))
EmitText == PrintT("@@" \o ToJson(T))
EmitOps == PrintT("@@" \o ToJson(ops))
=================================================================================
