------------------------------ MODULE MC_Pool ------------------------------
EXTENDS Pool, Json

CONSTANTS Sizes, Progs, N, Mains, Lasts   \* the clients 1..N run at the same time as thread 0 runs main, then it runs last

VARIABLES prog, main, last, pc, log
mvars == <<n, live, up, closing, down, task, gates, pend, prog, main, last, pc, log>>

\* an operation is [op, k]: queue (k: kind), get (the client's k-th task), active, open, settle, join, destroy, create (k: size)
Id(t, i) == 10 * t + i
Line(t) == IF t = 0 THEN main ELSE prog[t]
Arg(t, i) == LET o == Line(t)[i] IN
  CASE o.op = "queue" -> Id(t, i) [] o.op = "get" -> Id(t, o.k) [] o.op = "getof" -> o.k [] OTHER -> o.k
OpName(o) == IF o.op = "getof" THEN "get" ELSE o.op
HasKind(l, k) == \E i \in DOMAIN l : l[i].op = "queue" /\ l[i].k = k
HasOp(l, op) == \E i \in DOMAIN l : l[i].op = op
AllTasks(f) == UNION {{Id(t, i) : i \in {j \in DOMAIN Progs[f[t]] : Progs[f[t]][j].op = "queue"}} : t \in 1..N}
GetAll(S) == LET RECURSIVE G(_)
                 G(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z
                                                  IN <<[op |-> "getof", k |-> x]>> \o G(X \ {x})
             IN G(S)
Fair(f, m) == LET gated == \E t \in 1..N : HasKind(Progs[f[t]], 2)
                  opened == HasOp(m, "open") \/ \E t \in 1..N : HasOp(Progs[f[t]], "open")
              IN gated <=> opened
MInit == /\ Init0
         /\ \E size \in Sizes, f \in [1..N -> DOMAIN Progs], m \in Mains, l \in Lasts :
              /\ \A i \in 1..(N - 1) : f[i] <= f[i + 1]
              /\ Fair(f, m)
              /\ prog = [t \in 1..N |-> Progs[f[t]]]
              /\ last = l \o (IF Tasks THEN GetAll(AllTasks(f)) ELSE <<>>)
              /\ main = <<[op |-> "create", k |-> size]>> \o m \o last
         /\ pc = [t \in 0..N |-> 1] /\ log = [runs |-> [k \in {} |-> 0], max |-> 0]
ClientsDone == \A t \in 1..N : pc[t] > Len(prog[t])
Enabled(t) == /\ pend[t].op = "" /\ pc[t] <= Len(Line(t))
              /\ (t # 0 => up) /\ (t = 0 /\ pc[0] > Len(main) - Len(last) => ClientsDone)
More == log' = [log EXCEPT !.max = IF Cardinality(Active') > @ THEN Cardinality(Active') ELSE @]
Step(t) == \/ /\ Enabled(t)
              /\ LET o == Line(t)[pc[t]] IN
                 IF o.op = "settle" THEN Settled /\ pc' = [pc EXCEPT ![t] = @ + 1]
                 ELSE Call(t, OpName(o), Arg(t, pc[t]), IF o.op = "queue" THEN o.k ELSE 0) /\ UNCHANGED pc
              /\ UNCHANGED <<prog, main, last, log>>
           \/ /\ pend[t].op # ""
              /\ \E r \in {pend[t].res, pend[t].a, -1, -2} : Ret(t, r)
              /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<prog, main, last, log>>
Work == \/ Internal /\ UNCHANGED <<prog, main, last, pc>> /\ More
        \/ \E k \in DOMAIN task : Start(k) /\ log' = [log EXCEPT !.runs = IF k \in DOMAIN @ THEN [@ EXCEPT ![k] = @ + 1] ELSE @ @@ (k :> 1)]
                                           /\ UNCHANGED <<prog, main, last, pc>>
        \/ \E k \in DOMAIN task : task[k].st = "running" /\ ~Gated(k) /\ End(k) /\ UNCHANGED <<prog, main, last, pc, log>>
        \/ pend[0].op = "create" /\ live < n /\ Born /\ UNCHANGED <<prog, main, last, pc, log>>
        \/ closing /\ In({"accepted"}) \cup Active = {} /\ Gone /\ UNCHANGED <<prog, main, last, pc, log>>
MNext == Work \/ \E t \in 0..N : Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Work) /\ \A t \in 0..N : WF_mvars(Step(t))

AtMostOnce == Tasks => \A k \in DOMAIN log.runs : log.runs[k] <= 1
Bounded == Life => log.max <= n
NothingLate == down # "" => In(IF Life THEN {"taken", "running"} ELSE {"taken"}) = {}
Over == ClientsDone /\ pc[0] > Len(main)
\* when all is over every future is settled, and what was never run was dropped
AllSettled == (Over /\ ~ENABLED Work) => \A k \in DOMAIN task : task[k].st \in {"released", "dropped"}
Finishes == <>[]Over

EmitProgram == (pc = [t \in 0..N |-> 1] /\ \A t \in 0..N : pend[t] = Idle) =>
  LET sh(t, l) == [i \in DOMAIN l |-> [op |-> OpName(l[i]), a |-> (CASE l[i].op = "queue" -> Id(t, i) [] l[i].op = "get" -> Id(t, l[i].k) [] OTHER -> l[i].k),
                                       b |-> IF l[i].op = "queue" THEN l[i].k ELSE 0]]
  IN PrintT("@CASE " \o ToJson([size |-> main[1].k, main |-> sh(0, SubSeq(main, 2, Len(main) - Len(last))), last |-> sh(0, last), prog |-> [t \in 1..N |-> sh(t, prog[t])]]))

q(k) == [op |-> "queue", k |-> k]
g(i) == [op |-> "get", k |-> i]
o(x) == [op |-> x, k |-> 1]
tProgs == << <<>>, <<q(0)>>, <<q(1), q(0)>>, <<q(0), g(1)>>, <<q(1), g(1), q(0)>>, <<q(0), q(1), g(2), g(1)>>, <<q(2), q(0)>>, <<q(3), g(1)>> >>
tMains == { <<>>, <<o("join")>>, <<o("open")>>, <<o("open"), o("join")>> }
tLasts == { <<o("destroy")>> }
lProgs == << <<>>, <<q(0)>>, <<q(0), q(1)>>, <<q(2), q(0)>>, <<o("active"), q(0), o("active")>>, <<q(2), o("active")>>, <<q(3)>> >>
lMains == { <<>>, <<o("join")>>, <<o("join"), o("join")>>, <<o("open")>>, <<o("active"), o("open"), o("active")>>, <<o("settle"), o("active"), o("open"), o("settle"), o("active")>>,
            <<o("settle"), o("active")>>, <<o("open"), o("join")>> }
lLasts == { <<o("destroy")>>, <<o("settle"), o("active"), o("destroy")>> }
tFew == << <<>>, <<q(0)>>, <<q(1), g(1)>>, <<q(2)>>, <<q(3), g(1)>> >>
lFew == << <<>>, <<q(1)>>, <<q(2), o("active")>>, <<q(3)>> >>
Nothing == FALSE /\ UNCHANGED mvars
s12 == {1, 2}
s123 == {1, 2, 3}
s2 == {2}
s3 == {3}
t2 == 0..2
t3 == 0..3
cTasks == "tasks"
cLife == "life"
=============================================================================
