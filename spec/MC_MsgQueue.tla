---------------------------- MODULE MC_MsgQueue ----------------------------
EXTENDS MsgQueue, Json

CONSTANTS Progs, N, Last    \* programs of the clients 1..N, and of thread 0 when they are done

VARIABLES prog, pc, got
mvars == <<items, cleared, pend, prog, pc, got>>

\* programs are sequences of operation names; message 10t+i is the i-th operation of client t
Key(p) == CHOOSE k \in DOMAIN Progs : Progs[k] = p
MInit == /\ Init0
         /\ \E f \in [1..N -> DOMAIN Progs] : /\ \A i \in 1..(N - 1) : f[i] <= f[i + 1]
                                              /\ prog = [t \in 0..N |-> IF t = 0 THEN Last ELSE Progs[f[t]]]
         /\ pc = [t \in 0..N |-> 1] /\ got = <<>>
ClientsDone == \A t \in 1..N : pc[t] > Len(prog[t])
Step(t) == \/ /\ pend[t].op = "" /\ pc[t] <= Len(prog[t]) /\ (t = 0 => ClientsDone)
              /\ Call(t, prog[t][pc[t]], IF prog[t][pc[t]] = "put" THEN 10 * t + pc[t] ELSE 0)
              /\ UNCHANGED <<prog, pc, got>>
           \/ Internal(t) /\ UNCHANGED <<prog, pc, got>>
           \/ /\ pend[t].op # "" /\ Ret(t, pend[t].res)
              /\ got' = IF pend[t].op = "pop" /\ pend[t].res # 0 THEN Append(got, pend[t].res) ELSE got
              /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
MNext == \E t \in 0..N : Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in 0..N : WF_mvars(Step(t))

Pairs == UNION {{<<t, i>> : i \in 1..(IF pc[t] - 1 < Len(prog[t]) THEN pc[t] - 1 ELSE Len(prog[t]))} : t \in 0..N}
PutSoFar == {10 * x[1] + x[2] : x \in {y \in Pairs : prog[y[1]][y[2]] = "put"}} \cup {pend[t].a : t \in {u \in 0..N : pend[u].op = "put"}}
\* delivered at most once, and only what was put
Exact == /\ \A i, j \in DOMAIN got : i # j => got[i] # got[j]
         /\ \A i \in DOMAIN got : got[i] \in PutSoFar /\ got[i] \notin items
\* without clear, every message is in the queue, delivered, or on its way
Kept == (~cleared /\ \A t \in 0..N : pend[t].op = "") =>
          PutSoFar = items \cup {got[i] : i \in DOMAIN got}
Stuck == \A t \in 0..N : (pc[t] <= Len(prog[t]) /\ (t # 0 \/ ClientsDone)) => (At(t, "pop") /\ items = {} /\ ~cleared)
QuietIsEnd == (~ENABLED MNext) => Quiet /\ Stuck
\* a consumer gets something once the queue is cleared
Sent == \A t \in 0..N : (cleared /\ pend[t].op = "pop") ~> pend[t].op # "pop"
EmitProgram == (\A t \in 0..N : pc[t] = 1 /\ pend[t] = Idle) =>
                 PrintT("@CASE " \o ToJson([cfg |-> [kind |-> "queue"], prog |-> [t \in 1..N |-> prog[t]], last |-> Last]))

pool == << <<"put">>, <<"put", "put">>, <<"pop">>, <<"pop", "pop">>, <<"clear">>, <<"pop", "put">>, <<"put", "pop">>, <<"put", "clear">>, <<"empty", "pop">>, <<"put", "empty">> >>
few == << <<"put">>, <<"put", "put">>, <<"pop">>, <<"pop", "pop">>, <<"clear">>, <<"put", "pop">> >>
last == <<"empty", "pop", "pop">>
t3 == 0..3
t4 == 0..4
=============================================================================
