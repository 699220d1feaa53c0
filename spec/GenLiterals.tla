------------------------------- MODULE GenLiterals ------------------------------
(* All messages of one kind. *)
EXTENDS Literals, Json
VARIABLE m
Ar(k, t, c) == [k |-> k, t |-> t, c |-> c]
None == Ar("", "", <<>>)
NumTypes == {NumType[s] : s \in DOMAIN NumType}
Plain0 == {Ar("lit", t, <<>>) : t \in NumTypes \ {"char", "BOOL", "short"}} \cup {Ar("chr", "", <<>>), Ar("yes", "", <<>>), Ar("enum", "", <<>>), Ar("cmp", "", <<>>)}
          \cup {Ar(k, t, <<>>) : k \in {"var", "call", "cast"}, t \in NumTypes} \cup {Ar("bin", t, <<>>) : t \in NumTypes \ {"char", "BOOL", "short"}}
Par(a) == Ar("par", "", <<a>>)
Args == Plain0 \cup {Par(a) : a \in Plain0} \cup {Par(Par(a)) : a \in Plain0}
Strs == {Ar(k, t, <<>>) : k \in {"var", "call", "cast"}, t \in {"char *", "const char *"}} \cup {Ar("slit", "char[]", <<>>)}
StrArgs == Strs \cup {Par(a) : a \in Strs}
Msg(k, sel, r, a) == [k |-> k, sel |-> sel, r |-> r, a |-> a, p |-> "p", c |-> <<>>]
ElemTypes == {"NSArray *", "NSMutableArray *", "NSDictionary *", "NSMutableDictionary *", "MyArray *", "alias", "result"}
ElemSels == {"objectAtIndex:", "objectAtIndexedSubscript:", "replaceObjectAtIndex:withObject:", "setObject:atIndexedSubscript:", "objectForKey:", "objectForKeyedSubscript:",
             "setObject:forKey:", "setObject:forKeyedSubscript:", "count"}
Init == \/ \E s \in DOMAIN NumType, a \in Args, r \in {"NSNumber", "MyNumber"} : m = Msg("num", s, r, a)
        \/ \E s \in {"stringWithUTF8String", "stringWithCString"}, a \in StrArgs, r \in {"NSString", "MyString"} : m = Msg("str", s, r, a)
        \/ \E s \in ArraySels \cup {"arrayWithArray:", "new"}, r \in {"NSArray", "NSMutableArray", "MyArray"} : m = Msg("arr", s, r, None)
        \/ \E s \in DictSels \cup {"dictionaryWithDictionary:", "new"}, r \in {"NSDictionary", "NSMutableDictionary"} : m = Msg("dict", s, r, None)
        \/ \E s \in ElemSels, r \in ElemTypes : m = Msg("elem", s, r, None)
Next == FALSE /\ m' = m
Laws == OneAdvice(m) /\ OtherClass(m) /\ Parens(m)
Emit == PrintT("@@" \o ToJson(m))
=================================================================================
