------------------------------ MODULE Subject ------------------------------
(* A lockable subject used by several threads at the same time: they register *)
(* and remove observers, emit, and give observers up.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES reg,   \* the registered observers
          ghost, \* given up, but an emission under way may still hold them
          pend,  \* per thread, the operation under way
          must,  \* per thread, whom the emission under way has to call
          may,   \* ... is entitled to call
          got    \* ... and has called
vars == <<reg, ghost, pend, must, may, got>>

Idle == [op |-> "", a |-> 0, st |-> ""]
Init0 == /\ reg = {} /\ ghost = {} /\ pend = [t \in Threads |-> Idle]
         /\ must = [t \in Threads |-> {}] /\ may = must /\ got = must
Emitting == {t \in Threads : pend[t].op = "emit"}

Call(t, op, a) ==
  /\ pend[t].op = ""
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, st |-> "called"]]
  /\ must' = IF op = "emit" THEN [must EXCEPT ![t] = reg] ELSE must
  /\ may' = IF op = "emit" THEN [may EXCEPT ![t] = reg \cup ghost] ELSE may
  /\ got' = [got EXCEPT ![t] = {}]
  /\ UNCHANGED <<reg, ghost>>
\* the moment a registration, a removal or the end of an observer takes effect
Effect(t) ==
  LET p == pend[t] o == p.a IN
  /\ p.op \in {"add", "rem", "drop"} /\ p.st = "called"
  /\ pend' = [pend EXCEPT ![t].st = "done"]
  /\ reg' = IF p.op = "add" THEN reg \cup {o} ELSE reg \ {o}
  /\ ghost' = IF p.op = "drop" /\ \E e \in Emitting : o \in may[e] THEN ghost \cup {o} ELSE ghost
  /\ may' = [e \in Threads |-> IF p.op = "add" /\ e \in Emitting THEN may[e] \cup {o} ELSE may[e]]
  /\ must' = [e \in Threads |-> IF p.op = "add" THEN must[e] ELSE must[e] \ {o}]
  /\ UNCHANGED got
Seen(t, o, v) == /\ t \in Emitting /\ v = pend[t].a /\ o \in may[t] \ got[t]
                 /\ got' = [got EXCEPT ![t] = @ \cup {o}] /\ UNCHANGED <<reg, ghost, pend, must, may>>
Ret(t) == /\ IF pend[t].op = "emit" THEN must[t] \subseteq got[t] ELSE pend[t].st = "done"
          /\ pend' = [pend EXCEPT ![t] = Idle]
          /\ ghost' = IF pend[t].op = "emit" THEN {o \in ghost : \E e \in Emitting \ {t} : o \in may[e]} ELSE ghost
          /\ UNCHANGED <<reg, must, may, got>>
\* no thread ever waits for ever
Quiet == \A t \in Threads : pend[t].op = ""
=============================================================================
