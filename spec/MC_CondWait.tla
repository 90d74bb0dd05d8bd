---------------------------- MODULE MC_CondWait ----------------------------
(* Client programs over the conditional wait objects: TLC checks the         *)
(* properties for every program and interleaving, and emits the programs.    *)
EXTENDS CondWait, Json

CONSTANTS Cfgs, WaitProgs, SetProgs, NW, NS

VARIABLES prog, pc, log
mvars == <<cfg, count, pend, prog, pc, log>>

\* threads 1..NW wait, the others set; programs of equal threads are sorted
Rank(S) == [x \in S |-> Cardinality({y \in S : y.n < x.n})]
Sorted(p, lo, hi) == \A i \in lo..(hi - 1) : p[i].n <= p[i + 1].n
Programs == {p \in [Threads -> WaitProgs \cup SetProgs] :
               /\ \A t \in Threads : p[t] \in (IF t <= NW THEN WaitProgs ELSE SetProgs)
               /\ Sorted(p, 1, NW) /\ Sorted(p, NW + 1, NW + NS)}
MInit == /\ \E c \in Cfgs : Init0(c)
         /\ prog \in Programs
         /\ pc = [t \in Threads |-> 1] /\ log = {}
Ops(t) == prog[t].ops
Step(t) == \/ /\ pend[t].op = "" /\ pc[t] <= Len(Ops(t))
              /\ Call(t, Ops(t)[pc[t]].op, Ops(t)[pc[t]].a, 0)
              /\ UNCHANGED <<prog, pc, log>>
           \/ Internal(t, 1000000)  \* the time of a timed wait may be up whenever
              /\ UNCHANGED <<prog, pc, log>>
           \/ /\ \E r \in {0, 1} : Ret(t, r) /\ log' = (IF pend[t].op \in Waits THEN log \cup {<<pend[t].op, r, count>>} ELSE log)
              /\ pc' = [pc EXCEPT ![t] = @ + 1]
              /\ UNCHANGED prog
MNext == \E t \in Threads : Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads : WF_mvars(Step(t))

\* a wait without a timeout returns only when the condition holds; a timed wait says whether it did
Truthful == \A w \in log : (w[1] = "wait" \/ w[2] = 1) => w[3] >= cfg.max
\* when nothing goes on any more: nobody waits if the condition was set for all, or often enough
Ended == \A t \in Threads : IF pend[t].op = "" THEN pc[t] > Len(Ops(t)) ELSE pend[t].op = "wait" /\ pend[t].st = "waiting"
Blocked == {t \in Threads : pend[t].op # ""}
AllSet(op) == Cardinality({<<t, i>> \in UNION {{<<t, i>> : i \in DOMAIN Ops(t)} : t \in Threads} : Ops(t)[i].op = op})
Awakened == Ended => /\ (Blocked # {} /\ Matched) => AllSet("set") < cfg.max - 1 + NW + AllSet("setall") + AllSet("kill")
                     /\ (cfg.max = 1 /\ (AllSet("setall") + AllSet("kill") > 0 \/ AllSet("set") >= NW)) => Blocked = {}
                     /\ Blocked = {} \/ Quiet
\* every wait ends once somebody sets the condition for all
Leave == (cfg.max = 1 /\ AllSet("setall") + AllSet("kill") > 0) ~> (Blocked = {} /\ Ended)
\* every timed wait ends
TimedLeave == \A t \in Threads : pend[t].op = "waitfor" ~> pend[t].op # "waitfor"

EmitProgram == (pc = [t \in Threads |-> 1] /\ count = 0 /\ \A t \in Threads : pend[t] = Idle) =>
                 PrintT("@CASE " \o ToJson([cfg |-> cfg, prog |-> [t \in Threads |-> Ops(t)]]))

o(op) == [op |-> op, a |-> 0]
wf(d) == [op |-> "waitfor", a |-> d]
P(n, s) == [n |-> n, ops |-> s]
kWaits == {P(1, <<o("wait")>>), P(2, <<wf(2)>>), P(4, <<o("ask"), wf(1), o("ask")>>), P(5, <<o("wait"), o("ask")>>)}
mWaits == {P(1, <<o("wait")>>), P(2, <<wf(2)>>), P(3, <<wf(1), o("wait")>>), P(5, <<o("wait"), o("wait")>>)}
mSets == {P(11, <<o("set")>>), P(12, <<o("setall")>>), P(13, <<o("set"), o("set")>>), P(14, <<>>)}
mKills == {P(11, <<o("set")>>), P(12, <<o("kill")>>), P(13, <<o("set"), o("kill")>>)}
mCfgs == {[kind |-> "bool", max |-> 1], [kind |-> "int", max |-> 2], [kind |-> "int", max |-> 3]}
kCfgs == {[kind |-> "killer", max |-> 1]}
iWaits == {P(1, <<o("wait")>>), P(2, <<wf(2)>>), P(5, <<o("wait"), o("wait")>>)}
t3 == 1..3
t4 == 1..4
t2 == 1..2
=============================================================================
