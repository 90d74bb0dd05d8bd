------------------------------ MODULE CondWait ------------------------------
(* The conditional wait objects (conditional_wait_for_bool, _for_int, and the *)
(* timer killer). Several threads use one object; an operation takes effect   *)
(* at some moment between its call and its return.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES cfg,      \* [kind, max]: the condition is that it has been set max times
          count,    \* how often it has been set
          pend      \* per thread, the operation under way
vars == <<cfg, count, pend>>

Idle == [op |-> "", a |-> 0, st |-> "", ts |-> 0, res |-> 0]
Waits == {"wait", "waitfor"}
SetsAll == {"setall", "kill"}
Matched == count >= cfg.max

Init0(c) == cfg = c /\ count = 0 /\ pend = [t \in Threads |-> Idle]

Call(t, op, a, ts) == /\ pend[t].op = ""
                      /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, st |-> "called", ts |-> ts, res |-> 0]]
                      /\ UNCHANGED <<cfg, count>>

Waiting == {w \in Threads : pend[w].op \in Waits /\ pend[w].st = "waiting"}
Done(t, p) == [p EXCEPT ![t].st = "done"]
Release(W, p) == [w \in Threads |-> IF w \in W THEN [p[w] EXCEPT !.st = "released"] ELSE p[w]]

\* set: one of those who wait for the condition is released by it
Set(t) == /\ pend[t].op = "set" /\ pend[t].st = "called"
          /\ count' = count + 1
          /\ IF count + 1 >= cfg.max /\ Waiting # {}
             THEN \E w \in Waiting : pend' = Release({w}, Done(t, pend))
             ELSE pend' = Done(t, pend)
          /\ UNCHANGED cfg
\* set for all, kill: everybody who waits is released if the condition holds
SetAll(t) == /\ pend[t].op \in SetsAll /\ pend[t].st = "called"
             /\ count' = count + 1
             /\ pend' = IF count + 1 >= cfg.max THEN Release(Waiting, Done(t, pend)) ELSE Done(t, pend)
             /\ UNCHANGED cfg
\* a wait begins: there is nothing to wait for if the condition holds already
Enter(t) == /\ pend[t].op \in Waits /\ pend[t].st = "called"
            /\ pend' = [pend EXCEPT ![t].st = IF Matched THEN "released" ELSE "waiting"]
            /\ UNCHANGED <<cfg, count>>
\* the time of a timed wait is up (before the horizon h) and the condition does not hold
TimeOut(t, h) == /\ pend[t].op = "waitfor" /\ pend[t].st \in {"called", "waiting"}
                 /\ ~Matched /\ h >= pend[t].ts + pend[t].a
                 /\ pend' = [pend EXCEPT ![t].st = "timedout"]
                 /\ UNCHANGED <<cfg, count>>
Ask(t) == /\ pend[t].op = "ask" /\ pend[t].st = "called"
          /\ pend' = [pend EXCEPT ![t].st = "done", ![t].res = IF Matched THEN 1 ELSE 0]
          /\ UNCHANGED <<cfg, count>>
Internal(t, h) == Set(t) \/ SetAll(t) \/ Enter(t) \/ TimeOut(t, h) \/ Ask(t)

\* what an operation may return at this moment
Result(t, r) == CASE pend[t].op = "wait" -> Matched /\ r = 1
                  [] pend[t].op = "waitfor" -> \/ r = 1 /\ Matched
                                               \/ r = 0 /\ pend[t].st = "timedout"
                  [] pend[t].op = "ask" -> pend[t].st = "done" /\ r = pend[t].res
                  [] OTHER -> pend[t].st = "done" /\ r = 0
Ret(t, r) == /\ pend[t].op # "" /\ Result(t, r)
             /\ pend' = [pend EXCEPT ![t] = Idle]
             /\ UNCHANGED <<cfg, count>>

\* nothing goes on any more: only unreleased waits without a timeout may be left
Quiet == \A t \in Threads : \/ pend[t].op = ""
                            \/ pend[t].op = "wait" /\ pend[t].st = "waiting"
                            \/ pend[t].op = "wait" /\ pend[t].st = "called" /\ ~Matched
=============================================================================
