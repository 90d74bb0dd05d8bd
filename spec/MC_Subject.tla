----------------------------- MODULE MC_Subject -----------------------------
EXTENDS Subject, Json

CONSTANTS Cfgs, Progs, N   \* thread 0 registers 1..N, the clients 1..N run, thread 0 emits

VARIABLES cfg, prog, pc
mvars == <<reg, ghost, pend, must, may, got, cfg, prog, pc>>

\* operations [op, k] of client t on its observer k: 0 the one that thread 0 has registered, 1 and 2 its own
Who(t, k) == IF k = 0 THEN t ELSE 10 * t + k
Add0 == [i \in 1..N |-> [op |-> "add", k |-> i]]
Main == Add0 \o <<[op |-> "emit", k |-> 99]>>
Line(t) == IF t = 0 THEN Main ELSE prog[t]
Arg(t) == LET o == Line(t)[pc[t]] IN IF t = 0 THEN o.k ELSE IF o.op = "emit" THEN 10 * t + pc[t] ELSE Who(t, o.k)
MInit == /\ Init0
         /\ \E c \in Cfgs, f \in [1..N -> DOMAIN Progs] :
              /\ \A i \in 1..(N - 1) : f[i] <= f[i + 1]
              /\ cfg = c /\ prog = [t \in 1..N |-> Progs[f[t]]]
         /\ pc = [t \in 0..N |-> 1]
Enabled(t) == /\ pend[t].op = "" /\ pc[t] <= Len(Line(t))
              /\ t # 0 => pc[0] > N
              /\ t = 0 => (pc[0] > N => \A c \in 1..N : pc[c] > Len(prog[c]))
Step(t) == \/ Enabled(t) /\ Call(t, Line(t)[pc[t]].op, Arg(t)) /\ UNCHANGED <<cfg, prog, pc>>
           \/ Effect(t) /\ UNCHANGED <<cfg, prog, pc>>
           \/ \E o \in may[t] : Seen(t, o, pend[t].a) /\ UNCHANGED <<cfg, prog, pc>>
           \/ pend[t].op # "" /\ Ret(t) /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<cfg, prog>>
MNext == \E t \in 0..N : Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in 0..N : WF_mvars(Step(t))
Nothing == FALSE /\ UNCHANGED mvars

\* what the history of the calls alone demands of an emission
LastOf(t, k) == LET S == {i \in 1..(pc[t] - 1) : prog[t][i].op # "emit" /\ prog[t][i].k = k}
                IN IF S = {} THEN (IF k = 0 THEN "add" ELSE "rem") ELSE prog[t][CHOOSE i \in S : \A j \in S : j <= i].op
Calm == \A t \in 1..N : pend[t].op \in {"", "emit"}
Exact == (pc[0] > N /\ Calm) => reg = {Who(c, k) : <<c, k>> \in {<<c, k>> \in (1..N) \X (0..2) : LastOf(c, k) = "add"}}
Kept == \A t \in 0..N : pend[t].op = "emit" => must[t] \subseteq may[t] /\ got[t] \subseteq may[t] /\ must[t] \subseteq reg
NoGhosts == (\A t \in 0..N : pend[t].op # "emit") => ghost = {}
\* the emission at the end calls exactly those
LastEmit == (pc[0] = N + 1 /\ pend[0].op = "emit") => must[0] = may[0] /\ must[0] = reg
Over == \A t \in 0..N : pc[t] > Len(Line(t))
Finishes == <>Over

EmitProgram == (\A t \in 0..N : pc[t] = 1 /\ pend[t] = Idle) =>
  PrintT("@CASE " \o ToJson([cfg |-> cfg, first |-> [i \in 1..N |-> [op |-> "add", a |-> i, b |-> i]],
    prog |-> [t \in 1..N |-> [i \in DOMAIN prog[t] |-> LET o == prog[t][i] IN
       [op |-> o.op, a |-> IF o.op = "emit" THEN 10 * t + i ELSE Who(t, o.k), b |-> (t + i + (IF o.op = "add" /\ o.k = 1 /\ t = 2 THEN 4 ELSE 0))]]]]))

a(k) == [op |-> "add", k |-> k]
r(k) == [op |-> "rem", k |-> k]
d(k) == [op |-> "drop", k |-> k]
e == [op |-> "emit", k |-> 0]
progs == << <<e>>, <<a(1)>>, <<r(0)>>, <<d(0)>>, <<a(1), e>>, <<a(1), a(2)>>, <<a(1), r(1)>>, <<r(0), e>>, <<r(0), a(0)>>, <<a(1), r(0), e>>, <<a(1), d(1)>>, <<e, e>>,
            <<a(1), r(1), a(1)>>, <<d(0), e>> >>
few == << <<e>>, <<a(1), r(1)>>, <<r(0), e>>, <<a(1), e>>, <<d(0)>>, <<a(1), a(2)>> >>
tiny == << <<e>>, <<a(1)>>, <<r(0), e>>, <<d(0)>> >>
cns == {[cns |-> 0], [cns |-> 1]}
one == {[cns |-> 1]}
t2 == 0..2
t3 == 0..3
t4 == 0..4
=============================================================================
