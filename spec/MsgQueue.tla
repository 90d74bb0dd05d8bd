------------------------------ MODULE MsgQueue ------------------------------
(* The threaded message queue: producers put messages, consumers wait for     *)
(* them, clear() discards what is there and sends all consumers away.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES items,    \* the messages in the queue
          cleared,
          pend      \* per thread, the operation under way
vars == <<items, cleared, pend>>

Idle == [op |-> "", a |-> 0, st |-> "", res |-> 0]
Init0 == items = {} /\ cleared = FALSE /\ pend = [t \in Threads |-> Idle]

Call(t, op, a) == /\ pend[t].op = ""
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, st |-> "called", res |-> 0]]
                  /\ UNCHANGED <<items, cleared>>
At(t, op) == pend[t].op = op /\ pend[t].st = "called"
Done(t, r) == pend' = [pend EXCEPT ![t].st = "done", ![t].res = r]

Put(t) == /\ At(t, "put")
          /\ items' = items \cup {pend[t].a} /\ Done(t, 0) /\ UNCHANGED cleared
Pop(t) == /\ At(t, "pop") /\ UNCHANGED cleared
          /\ \/ cleared /\ Done(t, 0) /\ UNCHANGED items
             \/ ~cleared /\ \E m \in items : items' = items \ {m} /\ Done(t, m)
Clear(t) == /\ At(t, "clear")
            /\ items' = {} /\ cleared' = TRUE /\ Done(t, 0)
Empty(t) == /\ At(t, "empty")
            /\ Done(t, IF items = {} THEN 1 ELSE 0) /\ UNCHANGED <<items, cleared>>
Internal(t) == Put(t) \/ Pop(t) \/ Clear(t) \/ Empty(t)
Ret(t, r) == /\ pend[t].op # "" /\ pend[t].st = "done" /\ pend[t].res = r
             /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<items, cleared>>

\* nothing goes on any more: only consumers of an empty queue may be left
Quiet == \A t \in Threads : \/ pend[t].op = ""
                            \/ At(t, "pop") /\ items = {} /\ ~cleared
=============================================================================
