---------------------------- MODULE SharedStore ----------------------------
(* The option store used by several threads at the same time: every write and *)
(* every lookup takes effect at one moment between its call and its return.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES val,   \* key -> value, for the keys that have been written
          pend,  \* per thread, the operation under way
          shown  \* what the walk under way has shown
vars == <<val, pend, shown>>

Idle == [op |-> "", s |-> "", a |-> 0, st |-> "", res |-> 0]
Init0 == val = [k \in {} |-> 0] /\ pend = [t \in Threads |-> Idle] /\ shown = [k \in {} |-> 0]

\* dotted keys: p is k, or an ancestor of it
Within(p, k) == /\ Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
                /\ Len(k) = Len(p) \/ SubSeq(k, Len(p) + 1, Len(p) + 1) = "."
Bit(b) == IF b THEN 1 ELSE 0

Call(t, op, s, a) ==
  /\ pend[t].op = ""
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, s |-> s, a |-> a, st |-> "called", res |-> 0]]
  /\ shown' = IF op = "walk" THEN [k \in {} |-> 0] ELSE shown
  /\ UNCHANGED val
Answer(p) == CASE p.op \in {"has", "get"} -> Bit(p.s \in DOMAIN val)
               [] p.op = "sub" -> Bit(\E k \in DOMAIN val : Within(p.s, k))
               [] p.op = "val" -> IF p.s \in DOMAIN val THEN val[p.s] ELSE -1
               [] OTHER -> 0
Effect(t) ==
  LET p == pend[t] IN
  /\ p.op # "" /\ p.st = "called"
  /\ val' = IF p.op = "set" THEN (p.s :> p.a) @@ val ELSE val
  /\ pend' = [pend EXCEPT ![t].st = "done", ![t].res = Answer(p)]
  /\ UNCHANGED shown
Leaf(k, x) == k \notin DOMAIN shown /\ shown' = shown @@ (k :> x) /\ UNCHANGED <<val, pend>>
Ret(t, r) == /\ pend[t].op # "" /\ pend[t].st = "done" /\ r = pend[t].res
             /\ pend[t].op = "walk" => shown = val
             /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<val, shown>>
\* no thread ever waits for ever
Quiet == \A t \in Threads : pend[t].op = ""
=============================================================================
