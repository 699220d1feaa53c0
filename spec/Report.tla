--------------------------------- MODULE Report ---------------------------------
(* The reports: what a reader finds in each format for a set of results.  Texts   *)
(* are sequences of bytes.  A result set R holds the rules (name, category,       *)
(* priority), the violation sets of the files, the compiler errors and warnings,  *)
(* the analyzer's bugs, and whether duplicates are dropped.  A violation is       *)
(* [r, path, l, c, el, ec, msg], r the number of its rule (0 for diagnostics).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

-------------------------------------------------------------------------------
(* UTF-8: the length of the well-formed sequence at a position, 0 if there is none *)
Byte(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Tail1(s, i) == Byte(s, i) \in 128..191
At(s, i) ==
  LET a == s[i]  b == Byte(s, i + 1)
  IN CASE a < 128 -> 1
       [] a \in 194..223 /\ Tail1(s, i + 1) -> 2
       [] a \in 224..239 /\ b \in (IF a = 224 THEN 160..191 ELSE IF a = 237 THEN 128..159 ELSE 128..191) /\ Tail1(s, i + 2) -> 3
       [] a \in 240..244 /\ b \in (IF a = 240 THEN 144..191 ELSE IF a = 244 THEN 128..143 ELSE 128..191) /\ Tail1(s, i + 2) /\ Tail1(s, i + 3) -> 4
       [] OTHER -> 0
Replacement == <<239, 191, 189>>
RECURSIVE CharsFrom(_, _)
(* the characters of s from position i on, stray bytes replaced *)
CharsFrom(s, i) == IF i > Len(s) THEN <<>>
                   ELSE LET n == At(s, i) IN IF n = 0 THEN <<Replacement>> \o CharsFrom(s, i + 1) ELSE <<SubSeq(s, i, i + n - 1)>> \o CharsFrom(s, i + n)
Chars(s) == CharsFrom(s, 1)
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Unicode(s) == Cat(Chars(s))
(* characters XML cannot represent *)
NoXml(ch) == (Len(ch) = 1 /\ ch[1] < 32 /\ ch[1] \notin {9, 10, 13}) \/ ch \in {<<239, 191, 190>>, <<239, 191, 191>>}
Xml(s) == LET cs == Chars(s) IN Cat([i \in 1..Len(cs) |-> IF NoXml(cs[i]) THEN Replacement ELSE cs[i]])

(* the bytes of a literal *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [ch \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = ch)]
B(lit) == [i \in 1..Len(lit) |-> Code[SubSeq(lit, i, i)]]
N(n) == B(ToString(n))

-------------------------------------------------------------------------------
(* the lists a reporter is given *)
Once(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
View(R, s) == IF R.uniq THEN Once(s) ELSE s
Violations(R) == View(R, Cat(R.sets))
Errors(R) == View(R, R.e)
Warnings(R) == View(R, R.w)
Bugs(R) == View(R, R.b)
Files(R) == Len(R.sets)
Dirty(R) == Cardinality({R.sets[i][1].path : i \in {j \in 1..Len(R.sets) : R.sets[j] # <<>>}})
Prio(R, p) == LET v == Violations(R) IN Cardinality({i \in 1..Len(v) : R.rules[v[i].r].prio = p})
Counts(R) == <<Files(R), Dirty(R), Prio(R, 1), Prio(R, 2), Prio(R, 3)>>
Each(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

-------------------------------------------------------------------------------
(* JSON and XML: one record per violation and analyzer bug; ends only if known *)
Entry(R, v, f(_)) ==
  [path |-> f(v.path), l |-> v.l, c |-> v.c, msg |-> f(v.msg),
   end |-> IF v.el # 0 /\ v.ec # 0 THEN <<v.el, v.ec>> ELSE <<>>,
   rule |-> IF v.r = 0 THEN <<>> ELSE <<f(R.rules[v.r].name), f(R.rules[v.r].cat), R.rules[v.r].prio>>]
Structured(R, f(_)) == [counts |-> Counts(R), v |-> Each(Violations(R), LAMBDA v : Entry(R, v, f)), b |-> Each(Bugs(R), LAMBDA v : Entry(R, v, f))]
JsonDoc(R) == Structured(R, Unicode)
XmlDoc(R) == Structured(R, Xml)

(* PMD: errors, warnings, violations, bugs, each in a file element of its own *)
PmdEntry(v, name, cat, prio) == [path |-> Xml(v.path), l |-> v.l, c |-> v.c, el |-> v.el, ec |-> v.ec, rule |-> Xml(name), set |-> Xml(cat), prio |-> prio, msg |-> Xml(v.msg)]
PmdDoc(R) == Each(Errors(R), LAMBDA v : PmdEntry(v, B("compiler error"), B("clang"), 1))
             \o Each(Warnings(R), LAMBDA v : PmdEntry(v, B("compiler warning"), B("clang"), 2))
             \o Each(Violations(R), LAMBDA v : PmdEntry(v, R.rules[v.r].name, R.rules[v.r].cat, 2 * R.rules[v.r].prio - 1))
             \o Each(Bugs(R), LAMBDA v : PmdEntry(v, B("clang static analyzer"), B("clang"), 2))

(* HTML: a row of counts, and a row of cells for each finding *)
Place(v) == N(v.l) \o B(":") \o N(v.c)
DiagRow(v, what, level) == <<Unicode(v.path), Place(v), B(what), <<>>, B(level), Unicode(v.msg)>>
HtmlDoc(R) ==
  [counts |-> Each(Counts(R) \o <<Len(Errors(R)), Len(Warnings(R)), Len(Bugs(R))>>, N),
   rows |-> Each(Violations(R), LAMBDA v : <<Unicode(v.path), Place(v), Unicode(R.rules[v.r].name), Unicode(R.rules[v.r].cat), N(R.rules[v.r].prio), Unicode(v.msg)>>)
            \o Each(Errors(R), LAMBDA v : DiagRow(v, "compiler error", "error"))
            \o Each(Warnings(R), LAMBDA v : DiagRow(v, "compiler warning", "warning"))
            \o Each(Bugs(R), LAMBDA v : DiagRow(v, "clang static analyzer", "checker bug"))]

(* text, up to the line that names the program: sections, each finding a line *)
NL == <<10>>
Where(v) == v.path \o B(":") \o Place(v) \o B(": ")
RuleText(R, v) == R.rules[v.r].name \o B(" [") \o R.rules[v.r].cat \o B("|P") \o N(R.rules[v.r].prio) \o B("] ") \o v.msg
Lines(s, f(_)) == Cat(Each(s, LAMBDA v : f(v) \o NL))
Section(head, s) == IF s = <<>> THEN <<>> ELSE NL \o head \o NL \o NL \o Lines(s, LAMBDA v : Where(v) \o v.msg)
TextDoc(R) ==
  Section(B("Compiler Errors:") \o NL \o B("(please be aware that these errors will prevent OCLint from analyzing this source code)"), Errors(R))
  \o Section(B("Compiler Warnings:"), Warnings(R))
  \o Section(B("Clang Static Analyzer Results:"), Bugs(R))
  \o NL \o NL \o B("OCLint Report") \o NL \o NL
  \o (LET c == Counts(R) IN B("Summary: TotalFiles=") \o N(c[1]) \o B(" FilesWithViolations=") \o N(c[2]) \o B(" P1=") \o N(c[3]) \o B(" P2=") \o N(c[4]) \o B(" P3=") \o N(c[5]) \o B(" "))
  \o NL \o NL
  \o Lines(Violations(R), LAMBDA v : Where(v) \o RuleText(R, v))
  \o NL
XcodeDoc(R) == Lines(Violations(R), LAMBDA v : Where(v) \o B("warning: ") \o RuleText(R, v))

Doc(R, format) == CASE format = "json" -> JsonDoc(R) [] format = "xml" -> XmlDoc(R) [] format = "pmd" -> PmdDoc(R) [] format = "html" -> HtmlDoc(R)
                    [] format = "text" -> TextDoc(R) [] format = "xcode" -> XcodeDoc(R)
=================================================================================
