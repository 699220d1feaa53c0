----------------------------- MODULE GenCompose ------------------------------
(* Runs over a few files with a few rules: the machine that produces the report *)
(* step by step, its laws, and the runs to replay.  The machine is written the  *)
(* way a run proceeds (compile, apply rules to a context of its own, keep the   *)
(* set, at the end list the sets); Compose says what must come out.             *)
EXTENDS Compose, TLC, Json
CONSTANTS NF, NR, MaxLen
VARIABLES cmds, rules, glob, dups, t, brk, pc, next, rule, set, sets, loaded, report
vars == <<cmds, rules, glob, dups, t, brk, pc, next, rule, set, sets, loaded, report>>

Files == [f \in 1..NF |-> CASE f = 1 -> <<1>> [] f = 2 -> <<1, 2>> [] f = 3 -> <<2, 1, 2>> [] OTHER -> <<2>>]
SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}
Subsets == {x \in SeqsOf(1..NR, NR) : Len(x) > 0 /\ \A a, b \in 1..Len(x) : a < b => x[a] < x[b]}
Tables == {[b \in 1..2 |-> IF b = 1 THEN x ELSE y] :
              x \in {[r \in 1..NR |-> <<<<1, r, 1>>>>], [r \in 1..NR |-> IF r = 1 THEN <<>> ELSE <<<<1, r, 1>>, <<1, r, 1>>>>]},
              y \in {[r \in 1..NR |-> IF r \in q THEN <<<<2, r, 1>>, <<2, r, 2>>>> ELSE <<>>] : q \in SUBSET (1..NR)}}

Init == /\ cmds \in {c \in SeqsOf(1..NF, MaxLen) : Len(c) > 0}
        /\ rules \in Subsets /\ glob \in BOOLEAN /\ dups \in BOOLEAN
        /\ t \in Tables /\ brk \in {{}, {NF}}
        /\ pc = "next" /\ next = 1 /\ rule = 0 /\ set = <<>> /\ sets = <<>> /\ loaded = <<>> /\ report = <<>>
con == <<cmds, rules, glob, dups, t, brk>>
(* take the next command: compile it; analyse at once, or after all are compiled *)
Compile == /\ pc = "next" /\ next <= Len(cmds)
           /\ IF cmds[next] \in brk
              THEN next' = next + 1 /\ UNCHANGED <<pc, loaded, rule, set>>
              ELSE IF glob
              THEN next' = next + 1 /\ loaded' = Append(loaded, cmds[next]) /\ UNCHANGED <<pc, rule, set>>
              ELSE pc' = "apply" /\ rule' = 1 /\ set' = <<>> /\ loaded' = <<cmds[next]>> /\ next' = next + 1
           /\ UNCHANGED <<sets, report, con>>
Start == /\ pc = "next" /\ next > Len(cmds) /\ glob /\ Len(loaded) > 0
         /\ pc' = "apply" /\ rule' = 1 /\ set' = <<>>
         /\ UNCHANGED <<next, loaded, sets, report, con>>
(* one rule examines one file *)
Apply == /\ pc = "apply" /\ rule <= Len(rules)
         /\ set' = set \o Group(t, Files, loaded[1], rules[rule])
         /\ rule' = rule + 1
         /\ UNCHANGED <<pc, next, loaded, sets, report, con>>
EndFile == /\ pc = "apply" /\ rule > Len(rules)
           /\ sets' = Append(sets, set) /\ loaded' = Tail(loaded) /\ set' = <<>>
           /\ IF loaded' # <<>> THEN pc' = "apply" /\ rule' = 1 ELSE pc' = "next" /\ rule' = 0
           /\ UNCHANGED <<next, report, con>>
Finish == /\ pc = "next" /\ next > Len(cmds) /\ loaded = <<>>
          /\ pc' = "done" /\ report' = IF dups THEN Cat(sets) ELSE Uniq(Cat(sets))
          /\ UNCHANGED <<next, loaded, rule, set, sets, con>>
Next == Compile \/ Start \/ Apply \/ EndFile \/ Finish

Done == pc = "done"
(* the report is the composition of the table *)
Composed == Done => report = Report(t, Files, Analysed(cmds, brk), rules, dups)
OneSet == Done => Len(sets) = Len(Analysed(cmds, brk))
(* each file and rule: as if analysed alone, once per occurrence of the file *)
Alone == Done => \A f \in (1..NF) \ brk : \A r \in {rules[i] : i \in 1..Len(rules)} :
            (\E i \in 1..Len(cmds) : cmds[i] = f) /\ dups =>
                LET occ == Cardinality({i \in 1..Len(cmds) : cmds[i] = f})
                    one == Group(t, Files, f, r)
                IN \A e \in {one[i] : i \in 1..Len(one)} : Cardinality({i \in 1..Len(report) : report[i] = e}) = occ * Cardinality({i \in 1..Len(one) : one[i] = e})
(* nothing appears for files that were not given or do not compile *)
Nothing == Done => \A i \in 1..Len(report) : report[i][1] \notin brk /\ \E j \in 1..Len(cmds) : cmds[j] = report[i][1]
(* the modes agree *)
Modes == Done /\ ~dups => report = Uniq(Report(t, Files, Analysed(cmds, brk), rules, TRUE))
(* a second run of the same repeats the first; more files only add at the end *)
Prefix == Done => \A n \in 0..Len(cmds) : dups =>
            LET p == Report(t, Files, Analysed(SubSeq(cmds, 1, n), brk), rules, dups)
            IN p = SubSeq(report, 1, Len(p))
EmitOn == t = CHOOSE x \in Tables : TRUE
Emit == Done /\ EmitOn => PrintT("@@" \o ToJson([cmds |-> cmds, rules |-> rules, glob |-> glob, dups |-> dups]))
=============================================================================
