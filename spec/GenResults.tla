------------------------------ MODULE GenResults -------------------------------
(* Every history up to a length over a table of violations that differ from the   *)
(* first one in exactly one field.                                                 *)
EXTENDS Results, Json
CONSTANTS MaxLen, Vs, Ds
VARIABLE ops
Tab == <<[prio |-> 1, path |-> "f"], [prio |-> 2, path |-> "f"], [prio |-> 1, path |-> "g"]>>
       \o [i \in 1..5 |-> [prio |-> 1, path |-> "f"]]
Init == ops = <<>>
Next == /\ Len(ops) < MaxLen
        /\ \/ ops' = Append(ops, <<"S", 0>>)
           \/ \E i \in Vs : Len(Of(ops, "S")) > 0 /\ ops' = Append(ops, <<"v", i>>)
           \/ \E k \in {"e", "w", "b"}, i \in Ds : ops' = Append(ops, <<k, i>>)
Emit == PrintT("@@" \o ToJson(ops))
Inv == Laws(Tab, ops)
===============================================================================
