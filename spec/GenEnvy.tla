--------------------------------- MODULE GenEnvy --------------------------------
(* All methods of up to MaxLen uses, with the laws of Envy. *)
EXTENDS Envy, Json
CONSTANTS MaxLen, Classes_
VARIABLES own, inst, es
Rec == {EE("self", "", <<>>), EE("super", "", <<>>), EE("id", "", <<>>), EE("pid", "", <<>>)} \cup {EE("var", c, <<>>) : c \in Classes_}
       \cup {EE("name", c, <<>>) : c \in Classes_}
Simple == {Sent(r) : r \in Rec}
          \cup {EE("get", "", <<r>>) : r \in {x \in Rec : x.k \notin {"id"}}}
          \cup {EE("set", "", <<EE("var", c, <<>>), EE("num", "", <<>>)>>) : c \in Classes_}
          \cup {EE("ivar", "", <<EE("var", c, <<>>)>>) : c \in Classes_} \cup {EE("own", "", <<>>)}
          \cup {EE("send", "", <<EE("send", c, <<EE("self", "", <<>>)>>)>>) : c \in Classes_}
          \cup {EE("get", "", <<EE("get", c, <<EE("var", d, <<>>)>>)>>) : c \in Classes_, d \in Classes_}
          \cup {EE("set", "", <<EE("self", "", <<>>), EE("get", "", <<EE("var", c, <<>>)>>)>>) : c \in Classes_}
Ok(i, e) == i \/ e.k # "own"
Init == own \in Classes_ /\ inst \in BOOLEAN /\ es = <<>>
Next == Len(es) < MaxLen /\ UNCHANGED <<own, inst>> /\ \E e \in Simple : Ok(inst, e) /\ es' = Append(es, e)
Laws == /\ NotOwn(own, es) /\ SelfSoothes(own, es) /\ Nesting(own, es) /\ Doubling(own, es) /\ Neutral(own, es)
        /\ \A d \in Classes_ : OtherOnly(own, es, d)
Emit == es # <<>> => PrintT("@@" \o ToJson([own |-> own, inst |-> inst, body |-> es]))
=================================================================================
