------------------------------ MODULE PoolLite ------------------------------
(* The lightweight pool: n workers take tasks from a line in the order they   *)
(* were accepted; destruction stops the intake, and drains the line.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES n,        \* the number of workers
          live,     \* worker threads running
          up,       \* construction has returned
          stop,     \* "", "asked" (destruction has begun), "set" (no intake any more), "over" (destruction has returned)
          line,     \* tasks accepted and not yet taken
          task,     \* per task, its state and kind
          gates,    \* open gates
          pend      \* per thread, the operation under way
vars == <<n, live, up, stop, line, task, gates, pend>>

\* kinds of tasks: 0 returns a value, 1 throws, 2 waits for gate 1, 3 offers another task
Idle == [op |-> "", a |-> 0, b |-> 0]
Init0 == /\ n = 0 /\ live = 0 /\ up = FALSE /\ stop = "" /\ line = <<>>
         /\ task = [k \in {} |-> 0] /\ gates = {} /\ pend = [t \in Threads |-> Idle]

In(S) == {k \in DOMAIN task : task[k].st \in S}
Active == In({"taken", "running", "ended"})
Move(k, s) == task' = [task EXCEPT ![k].st = s]

\* ---- operations of the clients
Call(t, op, a, b) ==
  /\ pend[t].op = ""
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, b |-> b]]
  /\ n' = IF op = "create" THEN a ELSE n
  /\ stop' = IF op = "destroy" THEN "asked" ELSE stop
  /\ task' = IF op = "queue" THEN task @@ (a :> [st |-> "offered", kind |-> b]) ELSE task
  /\ gates' = IF op = "open" THEN gates \cup {a} ELSE gates
  /\ UNCHANGED <<live, up, line>>
Result(t, r) ==
  LET p == pend[t] k == p.a IN
  CASE p.op = "queue" -> IF task[k].st = "refused" THEN r = -9 ELSE r = 0 /\ task[k].st # "offered"
    [] p.op = "get" -> task[k].st \in {"ended", "released"} /\ r = (IF task[k].kind = 1 THEN -1 ELSE k)
    [] p.op = "destroy" -> stop = "set" /\ line = <<>> /\ Active = {} /\ live = 0
    [] OTHER -> TRUE
Ret(t, r) ==
  /\ pend[t].op # "" /\ Result(t, r)
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ up' = (up \/ pend[t].op = "create")
  /\ stop' = IF pend[t].op = "destroy" THEN "over" ELSE stop
  /\ UNCHANGED <<n, live, line, task, gates>>

\* ---- what happens inside
Accept(k) == /\ task[k].st = "offered" /\ stop \in {"", "asked"} /\ Move(k, "accepted") /\ line' = Append(line, k)
             /\ UNCHANGED <<n, live, up, stop, gates, pend>>
Refuse(k) == task[k].st = "offered" /\ stop \in {"set", "over"} /\ Move(k, "refused") /\ UNCHANGED <<n, live, up, stop, line, gates, pend>>
SetStop == stop = "asked" /\ stop' = "set" /\ UNCHANGED <<n, live, up, line, task, gates, pend>>
Take == /\ line # <<>> /\ Cardinality(Active) < n
        /\ Move(Head(line), "taken") /\ line' = Tail(line) /\ UNCHANGED <<n, live, up, stop, gates, pend>>
Release(k) == task[k].st = "ended" /\ Move(k, "released") /\ UNCHANGED <<n, live, up, stop, line, gates, pend>>
Internal == \/ \E k \in DOMAIN task : Accept(k) \/ Refuse(k) \/ Release(k)
            \/ SetStop \/ Take

\* ---- events of the workers
Start(k) == k \in DOMAIN task /\ task[k].st = "taken" /\ Move(k, "running") /\ UNCHANGED <<n, live, up, stop, line, gates, pend>>
End(k) == k \in DOMAIN task /\ task[k].st = "running" /\ Move(k, "ended") /\ UNCHANGED <<n, live, up, stop, line, gates, pend>>
Born == live' = live + 1 /\ live < n /\ UNCHANGED <<n, up, stop, line, task, gates, pend>>
Gone == live > 0 /\ stop = "set" /\ line = <<>> /\ live' = live - 1 /\ UNCHANGED <<n, up, stop, line, task, gates, pend>>

Gated(k) == task[k].st = "running" /\ task[k].kind = 2 /\ 1 \notin gates
Gates == Cardinality({k \in DOMAIN task : Gated(k)})
\* nobody can do anything: an idle worker takes a task, a task that may end ends
Stable == /\ In({"offered"}) \cup In({"taken", "ended"}) = {}
          /\ (up /\ stop # "over") => (line = <<>> \/ Gates >= n)
          /\ \A k \in In({"running"}) : Gated(k)
Settled == Stable /\ UNCHANGED vars
MayBlock(t) == LET p == pend[t] IN
  CASE p.op = "" -> TRUE
    [] p.op = "get" -> Gated(p.a) \/ task[p.a].st = "accepted"
    [] p.op = "destroy" -> Gates > 0
    [] OTHER -> FALSE
Quiet == Stable /\ \A t \in Threads : MayBlock(t)
=============================================================================
