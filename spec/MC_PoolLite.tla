----------------------------- MODULE MC_PoolLite -----------------------------
EXTENDS PoolLite, Json

CONSTANTS Sizes, Progs, N, Mains   \* the clients 1..N run at the same time as thread 0 runs main; then the pool is destroyed

VARIABLES prog, main, pc, log
mvars == <<n, live, up, stop, line, task, gates, pend, prog, main, pc, log>>

Id(t, i) == 10 * t + i
Line(t) == IF t = 0 THEN main ELSE prog[t]
Arg(t, i) == LET o == Line(t)[i] IN CASE o.op = "queue" -> Id(t, i) [] o.op = "get" -> Id(t, o.k) [] OTHER -> o.k
HasKind(l, k) == \E i \in DOMAIN l : l[i].op = "queue" /\ l[i].k = k
HasOp(l, op) == \E i \in DOMAIN l : l[i].op = op
Fair(f, m) == (\E t \in 1..N : HasKind(Progs[f[t]], 2)) <=> (HasOp(m, "open") \/ \E t \in 1..N : HasOp(Progs[f[t]], "open"))
MInit == /\ Init0
         /\ \E size \in Sizes, f \in [1..N -> DOMAIN Progs], m \in Mains :
              /\ \A i \in 1..(N - 1) : f[i] <= f[i + 1]
              /\ Fair(f, m)
              /\ prog = [t \in 1..N |-> Progs[f[t]]]
              /\ main = <<[op |-> "create", k |-> size]>> \o m \o <<[op |-> "destroy", k |-> 1]>>
         /\ pc = [t \in 0..N |-> 1] /\ log = [order |-> <<>>, starts |-> <<>>]
ClientsDone == \A t \in 1..N : pc[t] > Len(prog[t])
Enabled(t) == /\ pend[t].op = "" /\ pc[t] <= Len(Line(t))
              /\ (t # 0 => up) /\ (t = 0 /\ pc[0] = Len(main) => ClientsDone)
Kept == UNCHANGED <<prog, main, pc>>
Step(t) == \/ /\ Enabled(t)
              /\ LET o == Line(t)[pc[t]] IN
                 IF o.op = "settle" THEN Settled /\ pc' = [pc EXCEPT ![t] = @ + 1]
                 ELSE Call(t, o.op, Arg(t, pc[t]), IF o.op = "queue" THEN o.k ELSE 0) /\ UNCHANGED pc
              /\ UNCHANGED <<prog, main, log>>
           \/ /\ pend[t].op # ""
              /\ \E r \in {pend[t].a, 0, -1, -9} : Ret(t, r)
              /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<prog, main, log>>
Child(k) == k + 50
Work == \/ Internal /\ Kept /\ log' = [log EXCEPT !.order = IF Len(line') > Len(line) THEN Append(@, line'[Len(line')]) ELSE @]
        \/ \E k \in DOMAIN task : Start(k) /\ log' = [log EXCEPT !.starts = Append(@, k)] /\ Kept
        \* a task of kind 3 offers another one before it ends
        \/ \E k \in DOMAIN task : /\ task[k].st = "running" /\ task[k].kind = 3 /\ Child(k) \notin DOMAIN task
                                  /\ task' = task @@ (Child(k) :> [st |-> "offered", kind |-> 0])
                                  /\ Kept /\ UNCHANGED <<n, live, up, stop, line, gates, pend, log>>
        \/ \E k \in DOMAIN task : /\ task[k].st = "running" /\ ~Gated(k)
                                  /\ task[k].kind = 3 => Child(k) \in DOMAIN task /\ task[Child(k)].st # "offered"
                                  /\ End(k) /\ Kept /\ UNCHANGED log
        \/ n > 0 /\ stop = "" /\ Born /\ Kept /\ UNCHANGED log
        \/ Active = {} /\ Gone /\ Kept /\ UNCHANGED log
MNext == Work \/ \E t \in 0..N : Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Work) /\ \A t \in 0..N : WF_mvars(Step(t))
Nothing == FALSE /\ UNCHANGED mvars

AtMostOnce == \A i, j \in DOMAIN log.starts : log.starts[i] = log.starts[j] => i = j
\* one worker starts the tasks in the order they were accepted
InOrder == n = 1 => \A i \in DOMAIN log.starts : log.order[i] = log.starts[i]
Over == ClientsDone /\ pc[0] > Len(main)
Drained == stop = "over" => \A k \in DOMAIN task : task[k].st \in {"released", "refused"} /\ (task[k].st = "released" => \E i \in DOMAIN log.starts : log.starts[i] = k)
\* only a task can be refused work: clients are done when the pool stops
OnlyLate == \A k \in In({"refused"}) : k > 50
Finishes == <>[]Over

EmitProgram == (pc = [t \in 0..N |-> 1] /\ \A t \in 0..N : pend[t] = Idle) =>
  LET sh(t, l) == [i \in DOMAIN l |-> [op |-> l[i].op, a |-> (CASE l[i].op = "queue" -> Id(t, i) [] l[i].op = "get" -> Id(t, l[i].k) [] OTHER -> l[i].k),
                                       b |-> IF l[i].op = "queue" THEN l[i].k ELSE 0]]
  IN PrintT("@CASE " \o ToJson([size |-> main[1].k, main |-> sh(0, SubSeq(main, 2, Len(main) - 1)), prog |-> [t \in 1..N |-> sh(t, prog[t])]]))

q(k) == [op |-> "queue", k |-> k]
g(i) == [op |-> "get", k |-> i]
o(x) == [op |-> x, k |-> 1]
progs == << <<>>, <<q(0)>>, <<q(1), q(0)>>, <<q(0), g(1)>>, <<q(1), g(1), q(0)>>, <<q(0), q(1), q(0), g(2)>>, <<q(2), q(0)>>, <<q(3), g(1)>>, <<q(3), q(3)>> >>
few == << <<>>, <<q(0)>>, <<q(1), g(1)>>, <<q(2)>>, <<q(3)>> >>
mains == { <<>>, <<o("open")>>, <<o("settle"), o("open")>> }
s12 == {1, 2}
s123 == {1, 2, 3}
t2 == 0..2
t3 == 0..3
=============================================================================
