-------------------------------- MODULE Pool --------------------------------
(* The thread pool: tasks are queued and run by n workers, each task has a    *)
(* future, join() and destruction shut the pool down.                         *)
(*                                                                           *)
(* Claim selects what is demanded: "tasks" (C18: what becomes of tasks and    *)
(* futures) or "life" (C19: construction, shutdown, workers, active count).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Claim,
          Again     \* whether "life" tolerates that a task is run again (that is for "tasks" to judge)

VARIABLES n,        \* the number of workers
          live,     \* worker threads running
          up,       \* construction has returned
          closing,  \* a shutdown has begun
          down,     \* "", "joined" or "destroyed": which shutdown has returned
          task,     \* per task, its state and kind
          gates,    \* open gates
          pend      \* per thread, the operation under way
vars == <<n, live, up, closing, down, task, gates, pend>>
Tasks == Claim = "tasks"
Life == Claim = "life"

\* kinds of tasks: 0 returns a value, 1 throws, 2 waits for gate 1, 3 queues another task
Idle == [op |-> "", a |-> 0, b |-> 0, st |-> "", res |-> 0]
Init0 == /\ n = 0 /\ live = 0 /\ up = FALSE /\ closing = FALSE /\ down = ""
         /\ task = [k \in {} |-> 0] /\ gates = {} /\ pend = [t \in Threads |-> Idle]

In(S) == {k \in DOMAIN task : task[k].st \in S}
Active == In({"taken", "running", "ended"})
Move(k, s) == task' = [task EXCEPT ![k].st = s]

\* ---- operations of the clients
Call(t, op, a, b) ==
  /\ pend[t].op = ""
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, b |-> b, st |-> "called", res |-> 0]]
  /\ n' = IF op = "create" THEN (IF a > 0 THEN a ELSE b) ELSE n
  /\ closing' = (closing \/ op \in {"join", "destroy"})
  /\ task' = IF op = "queue" THEN task @@ (a :> [st |-> "offered", kind |-> b, early |-> FALSE]) ELSE task
  /\ gates' = IF op = "open" THEN gates \cup {a} ELSE gates
  /\ UNCHANGED <<live, up, down>>

\* what has been accepted by the time a shutdown begins is settled when it ends
Shut(op) == /\ \A k \in DOMAIN task : task[k].early \/ op = "destroy" => task[k].st \in {"dropped", "released"}
            /\ Active = {} /\ live = 0
Result(t, r) ==
  LET p == pend[t] k == p.a IN
  CASE p.op = "create" -> Tasks \/ live = n
    [] p.op = "queue" -> task[k].st # "offered"
    [] p.op = "get" -> Life \/ \/ task[k].st \in {"ended", "released"} /\ r = (IF task[k].kind = 1 THEN -1 ELSE k)
                               \/ task[k].st = "dropped" /\ r = -2
    [] p.op \in {"join", "destroy"} -> In({"taken"}) = {} /\ (Tasks \/ Shut(p.op))
    [] p.op = "active" -> Tasks \/ (p.st = "done" /\ r = p.res)
    [] OTHER -> TRUE
Ret(t, r) ==
  /\ pend[t].op # "" /\ Result(t, r)
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ up' = (up \/ pend[t].op = "create")
  /\ down' = CASE pend[t].op = "destroy" -> "destroyed" [] pend[t].op = "join" -> "joined" [] OTHER -> down
  /\ task' = IF pend[t].op = "queue" /\ ~closing THEN [task EXCEPT ![pend[t].a].early = TRUE] ELSE task
  /\ UNCHANGED <<n, live, closing, gates>>

\* ---- what workers do; they may begin before the call that queued the task returns
Accept(k) == task[k].st = "offered" /\ Move(k, "accepted") /\ UNCHANGED <<n, live, up, closing, down, gates, pend>>
Take(k) == /\ task[k].st = "accepted" \/ (Life /\ Again /\ task[k].st = "released")
           /\ down = "" /\ (Life => Cardinality(Active) < n)
           /\ Move(k, "taken") /\ UNCHANGED <<n, live, up, closing, down, gates, pend>>
Release(k) == task[k].st = "ended" /\ Move(k, "released") /\ UNCHANGED <<n, live, up, closing, down, gates, pend>>
Drop(k) == closing /\ task[k].st = "accepted" /\ Move(k, "dropped") /\ UNCHANGED <<n, live, up, closing, down, gates, pend>>
Count(t) == /\ pend[t].op = "active" /\ pend[t].st = "called" /\ Life
            /\ pend' = [pend EXCEPT ![t].st = "done", ![t].res = Cardinality(Active)]
            /\ UNCHANGED <<n, live, up, closing, down, task, gates>>
Internal == \/ \E k \in DOMAIN task : Accept(k) \/ Take(k) \/ Release(k) \/ Drop(k)
            \/ \E t \in Threads : Count(t)

\* ---- events of the workers
Start(k) == k \in DOMAIN task /\ task[k].st = "taken" /\ down = "" /\ Move(k, "running") /\ UNCHANGED <<n, live, up, closing, down, gates, pend>>
End(k) == k \in DOMAIN task /\ task[k].st = "running" /\ Move(k, "ended") /\ UNCHANGED <<n, live, up, closing, down, gates, pend>>
Born == live' = live + 1 /\ UNCHANGED <<n, up, closing, down, task, gates, pend>>
Gone == live > 0 /\ live' = live - 1 /\ UNCHANGED <<n, up, closing, down, task, gates, pend>>

Gated(k) == task[k].st = "running" /\ task[k].kind = 2 /\ 1 \notin gates
\* nobody can do anything: an idle worker takes a task, a task that may end ends
Stable == /\ Tasks => /\ (up /\ ~closing) => (In({"offered", "accepted"}) = {} \/ Cardinality({k \in DOMAIN task : Gated(k)}) >= n)
                      /\ In({"taken"}) = {}
          /\ Life => /\ In({"taken", "ended"}) = {} /\ \A k \in In({"running"}) : Gated(k)
Settled == Stable /\ UNCHANGED vars
MayBlock(t) == LET p == pend[t] IN
  CASE p.op = "" -> TRUE
    [] p.op = "get" -> \/ Life
                       \/ Gated(p.a)
                       \/ task[p.a].st \in {"accepted", "offered"} /\ down # "destroyed" /\ ~(down = "joined" /\ task[p.a].early)
    [] p.op = "create" -> Tasks
    [] p.op \in {"join", "destroy"} -> Tasks \/ \E k \in DOMAIN task : Gated(k)
    [] OTHER -> FALSE
Quiet == Stable /\ \A t \in Threads : MayBlock(t)
=============================================================================
