------------------------------ MODULE Observer ------------------------------
(* A subject and its observers.  Observers are registered by weak reference, *)
(* directly or for the time of a scope.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Obs, Scopes, Values, MaxOps, Sample

VARIABLES reg,     \* the registered observers, in order of registration
          alive,   \* observers that exist
          gone,    \* observers that existed once
          scopes,  \* open scope -> observer
          ops, seen
vars == <<reg, alive, gone, scopes, ops, seen>>

Init == reg = <<>> /\ alive = {} /\ gone = {} /\ scopes = <<>> /\ ops = <<>> /\ seen = <<>>

Has(s, x) == \E i \in DOMAIN s : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Scoped(o) == \E s \in DOMAIN scopes : scopes[s] = o
Do(name, o, s, v, calls) == /\ ops' = Append(ops, [op |-> name, o |-> o, s |-> s, v |-> v])
                            /\ seen' = Append(seen, calls)

Create(o) == /\ o \notin alive \cup gone
             /\ alive' = alive \cup {o} /\ UNCHANGED <<reg, gone, scopes>> /\ Do("create", o, 0, 0, <<>>)
Add(o) == /\ o \in alive /\ ~Has(reg, o) /\ ~Scoped(o)
          /\ reg' = Append(reg, o) /\ UNCHANGED <<alive, gone, scopes>> /\ Do("add", o, 0, 0, <<>>)
Remove(o) == /\ o \in alive      \* registered or not
             /\ reg' = Without(reg, o) /\ UNCHANGED <<alive, gone, scopes>> /\ Do("remove", o, 0, 0, <<>>)
\* the last reference is given up: the observer is gone, whether or not it is still registered
Destroy(o) == /\ o \in alive
              /\ alive' = alive \ {o} /\ gone' = gone \cup {o} /\ reg' = Without(reg, o)
              /\ UNCHANGED scopes /\ Do("destroy", o, 0, 0, <<>>)
Open(s, o) == /\ s \notin DOMAIN scopes /\ o \in alive /\ ~Has(reg, o) /\ ~Scoped(o)
              /\ scopes' = (s :> o) @@ scopes /\ reg' = Append(reg, o)
              /\ UNCHANGED <<alive, gone>> /\ Do("open", o, s, 0, <<>>)
\* the variable the scope was opened with refers to something else from now on
Rebind(s) == /\ s \in DOMAIN scopes
             /\ UNCHANGED <<reg, alive, gone, scopes>> /\ Do("rebind", scopes[s], s, 0, <<>>)
Close(s) == /\ s \in DOMAIN scopes
            /\ reg' = Without(reg, scopes[s]) /\ scopes' = [x \in DOMAIN scopes \ {s} |-> scopes[x]]
            /\ UNCHANGED <<alive, gone>> /\ Do("close", scopes[s], s, 0, <<>>)
Notify(v) == UNCHANGED <<reg, alive, gone, scopes>> /\ Do("emit", 0, 0, v, [i \in DOMAIN reg |-> <<reg[i], v>>])

Pick(A) == IF Sample = 0 THEN A ELSE RandomSubset(1, A)
Next == /\ Len(ops) < MaxOps
        /\ \E o \in Pick(Obs), s \in Pick(Scopes), v \in Pick(Values) :
             Create(o) \/ Add(o) \/ Remove(o) \/ Destroy(o) \/ Open(s, o) \/ Rebind(s) \/ Close(s) \/ Notify(v)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OnceInv  == \A i, j \in DOMAIN reg : i # j => reg[i] # reg[j]
AliveInv == \A i \in DOMAIN reg : reg[i] \in alive
\* Removing one observer keeps the others, in their order.
Others == [][\A a, b \in Obs : (/\ Has(reg, a) /\ Has(reg, b) /\ Has(reg', a) /\ Has(reg', b) /\ a # b)
               => (\E i, j \in DOMAIN reg : i < j /\ reg[i] = a /\ reg[j] = b) = (\E i, j \in DOMAIN reg' : i < j /\ reg'[i] = a /\ reg'[j] = b)]_vars
Invariants == OnceInv /\ AliveInv
Emit == (Len(ops) = MaxOps /\ ops[MaxOps].op = "emit") => PrintT("@CASE " \o ToJson([ops |-> ops, seen |-> seen]))
=============================================================================
