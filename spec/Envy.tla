---------------------------------- MODULE Envy ----------------------------------
(* Feature envy: what a method uses of its own class and of others.                *)
(*   expression [k, n, c]: self, super; var (of class n); id, pid (a protocol's);  *)
(*       name (of class n, possibly by an alias); num                              *)
(*       send, get, set, ivar with the receiver c[1] (set: and the value c[2])     *)
(*       whose value is of class n ("" if it is none); own: an instance variable   *)
(*       of self by its name alone                                                 *)
(*       blk: a block or statement around expressions                              *)
(*   method     [n selector, own class, inst, p, body : Seq(expression)]           *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

(* the class whose business an expression's receiver is; "" if it is nobody's *)
Whose(own, e) == CASE e.k = "self" -> own
                   [] e.k \in {"var", "name", "send", "get", "ivar", "own"} -> e.n
                   [] OTHER -> ""
Used(own, e) == CASE e.k \in {"send", "get", "set", "ivar"} -> Whose(own, e.c[1])
                  [] e.k = "own" -> own
                  [] OTHER -> ""
RECURSIVE Uses_(_, _)
Uses_(own, es) == FoldLeft(LAMBDA acc, e : acc \o (IF Used(own, e) = "" THEN <<>> ELSE <<Used(own, e)>>) \o Uses_(own, e.c), <<>>, es)
Times_(us, c) == Len(SelectSeq(us, LAMBDA x : x = c))
Envied(own, es) == LET us == Uses_(own, es)
                   IN {c \in {us[i] : i \in 1..Len(us)} : Times_(us, c) > Times_(us, own)}
MethodEnvy(m) == {<<"feature envy", m.p, "Method " \o m.n \o " messages " \o c \o " more than self.">> : c \in Envied(m.own, m.body)}
EnvyExpected(ln) == UNION {MethodEnvy(ln.ms[i]) : i \in 1..Len(ln.ms)}

(* ---- laws -------------------------------------------------------------------- *)
EE(k, n, c) == [k |-> k, n |-> n, c |-> c]
Sent(r) == EE("send", "", <<r>>)
NotOwn(own, es) == own \notin Envied(own, es)
(* using oneself once more envies nobody new; using another affects that one only *)
SelfSoothes(own, es) == Envied(own, Append(es, Sent(EE("self", "", <<>>)))) \subseteq Envied(own, es)
OtherOnly(own, es, d) == d # own => Envied(own, es) \subseteq Envied(own, Append(es, Sent(EE("var", d, <<>>))))
                                    /\ Envied(own, Append(es, Sent(EE("var", d, <<>>)))) \ Envied(own, es) \subseteq {d}
(* order and nesting do not matter, nor does doing everything twice *)
Nesting(own, es) == Envied(own, <<EE("blk", "", Reverse(es))>>) = Envied(own, es)
Doubling(own, es) == Envied(own, es \o es) = Envied(own, es)
(* to super, id or a protocol one may send as much as one likes *)
Neutral(own, es) == \A k \in {"super", "id", "pid"} : Envied(own, Append(es, Sent(EE(k, "", <<>>)))) = Envied(own, es)
=================================================================================
