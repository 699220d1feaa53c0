-------------------------------- MODULE Literals --------------------------------
(* Calls that a literal, a boxed expression or a subscript can replace.            *)
(*   argument [k, t]: lit (a number, type t), chr, yes (YES or NO), enum, var, bin *)
(*       (a value of type t), call, cast, par (around c[1])                        *)
(*   message  [k, sel, r, a, p, c]: k  num, str, arr, dict, elem; sel; r receiver: *)
(*       a class for the first four, the declared type of a variable for elem (or  *)
(*       another expression of a class); a argument; c messages inside             *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
NumType == [numberWithInt |-> "int", numberWithUnsignedInt |-> "unsigned int", numberWithLong |-> "long", numberWithUnsignedLong |-> "unsigned long",
            numberWithLongLong |-> "long long", numberWithUnsignedLongLong |-> "unsigned long long", numberWithFloat |-> "float", numberWithDouble |-> "double",
            numberWithChar |-> "char", numberWithBool |-> "BOOL", numberWithShort |-> "short"]
(* the type of an argument, and whether it must be read from a variable *)
RECURSIVE Core(_)
Core(a) == IF a.k = "par" THEN Core(a.c[1]) ELSE a
IsVar(a) == Core(a).k = "var"
(* the type a has before any conversion; truth values and characters have another type in C than in C++ *)
TypeOf(a, cxx) == LET x == Core(a) IN CASE x.k = "cmp" -> IF cxx THEN "bool" ELSE "int"
                                       [] x.k = "chr" -> IF cxx THEN "char" ELSE "int"
                                       [] x.k = "enum" -> IF cxx THEN "enum" ELSE "int"
                                       [] x.k = "yes" -> "BOOL"
                                       [] OTHER -> x.t
Literal(m) == /\ m.k = "num" /\ m.r = "NSNumber"
              /\ \/ m.a.k = "lit" /\ m.sel \notin {"numberWithChar", "numberWithBool", "numberWithShort"} /\ m.a.t = NumType[m.sel]
                 \/ m.a.k = "chr" /\ m.sel = "numberWithChar"
                 \/ m.a.k = "yes" /\ m.sel = "numberWithBool"
Boxed(m, cxx) ==
  \/ /\ m.k = "num" /\ m.r = "NSNumber"
     /\ \/ m.a.k = "par" /\ ~IsVar(m.a) /\ m.sel \notin {"numberWithBool", "numberWithShort"} /\ TypeOf(m.a, cxx) = NumType[m.sel]
        \/ m.a.k = "par" /\ m.sel = "numberWithBool" /\ (IsVar(m.a) <=> TypeOf(m.a, cxx) = "BOOL")
        \/ m.a.k = "enum" /\ m.sel = "numberWithInt" /\ ~cxx
  \/ /\ m.k = "str" /\ m.r = "NSString" /\ m.sel = "stringWithUTF8String"
     /\ m.a.k \in {"par", "call"} /\ ~IsVar(m.a) /\ TypeOf(m.a, cxx) = "char *"
ArraySels == {"array", "arrayWithObject:", "arrayWithObjects:count:", "arrayWithObjects:"}
DictSels == {"dictionary", "dictionaryWithObject:forKey:", "dictionaryWithObjects:forKeys:count:", "dictionaryWithObjectsAndKeys:", "dictionaryWithObjects:forKeys:"}
Container(m) == (m.k = "arr" /\ m.r = "NSArray" /\ m.sel \in ArraySels) \/ (m.k = "dict" /\ m.r = "NSDictionary" /\ m.sel \in DictSels)
Subscript(m) == m.k = "elem" /\
  CASE m.r = "NSArray *" -> m.sel \in {"objectAtIndex:", "objectAtIndexedSubscript:"}
    [] m.r = "NSMutableArray *" -> m.sel \in {"replaceObjectAtIndex:withObject:", "setObject:atIndexedSubscript:"}
    [] m.r = "NSDictionary *" -> m.sel \in {"objectForKey:", "objectForKeyedSubscript:"}
    [] m.r = "NSMutableDictionary *" -> m.sel \in {"setObject:forKey:", "setObject:forKeyedSubscript:"}
    [] OTHER -> FALSE
Names(m, cxx) == (IF Literal(m) THEN {"use number literal"} ELSE {}) \cup (IF Boxed(m, cxx) THEN {"use boxed expression"} ELSE {})
                 \cup (IF Container(m) THEN {"use container literal"} ELSE {}) \cup (IF Subscript(m) THEN {"use object subscripting"} ELSE {})
RECURSIVE Advice(_, _)
Advice(m, cxx) == {<<x, m.p, "">> : x \in Names(m, cxx)} \cup UNION {Advice(m.c[i], cxx) : i \in 1..Len(m.c)}
LiteralsExpected(ln) == UNION {Advice(ln.ms[i], ln.cxx) : i \in 1..Len(ln.ms)}
(* ---- laws: at most one piece of advice per message; only the class itself; what is proposed as a literal is one *)
OneAdvice(m) == \A cxx \in BOOLEAN : Cardinality(Names(m, cxx)) <= 1
OtherClass(m) == m.k # "elem" => \A cxx \in BOOLEAN : Names([m EXCEPT !.r = "NSOther"], cxx) = {}
Parens(m) == m.k = "num" => \A cxx \in BOOLEAN : "use number literal" \notin Names([m EXCEPT !.a = [k |-> "par", t |-> "", c |-> <<@>>]], cxx)
=================================================================================
