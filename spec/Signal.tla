------------------------------- MODULE Signal -------------------------------
(* Signals and bindable observables: slots are called in the order they were *)
(* connected, each with the emitted subjects arranged by its argument map.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Mode,      \* "0".."3": signals with that many subjects; "b": a bindable observable
          Arity, Kinds, Maps, Texts, Signals, MaxSlots, MaxOps, Sample

VARIABLES slots,     \* per signal, the slots connected to it, in order
          made,      \* the slots made so far
          ops, seen
vars == <<slots, made, ops, seen>>

Init == slots = [g \in Signals |-> <<>>] /\ made = 0 /\ ops = <<>> /\ seen = <<>>
\* what a slot with map m receives: "k" is a text bound when the slot was connected
Arg(m, a) == [i \in DOMAIN m |-> CASE m[i] = "k" -> "k" [] m[i] = "1" -> a[1] [] m[i] = "2" -> a[2] [] m[i] = "3" -> a[3]]
Op(name, g, id, k, m, a) == ops' = Append(ops, [op |-> name, sig |-> g, id |-> id, kind |-> k, map |-> m, args |-> a])
Connect(g, k, m) == /\ made < MaxSlots /\ (k = "taker" => m = Maps[1])
                    /\ made' = made + 1
                    /\ slots' = [slots EXCEPT ![g] = Append(@, [id |-> made + 1, map |-> m])]
                    /\ Op("connect", g, made + 1, k, m, <<>>)
                    /\ seen' = Append(seen, <<>>)
\* signal h becomes a copy of g: it has the same slots, and its own list of them
Copy(g, h) == /\ g # h
              /\ slots' = [slots EXCEPT ![h] = slots[g]] /\ UNCHANGED made
              /\ Op("copy", g, h, "", <<>>, <<>>)
              /\ seen' = Append(seen, <<>>)
Notify(g, a) == /\ UNCHANGED <<slots, made>>
                /\ Op("emit", g, 0, "", <<>>, a)
                /\ seen' = Append(seen, [i \in DOMAIN slots[g] |-> <<slots[g][i].id, Arg(slots[g][i].map, a)>>])
Pick(A) == IF Sample = 0 THEN A ELSE RandomSubset(1, A)
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Pick(Kinds), m \in Pick({Maps[i] : i \in DOMAIN Maps}), g \in Pick(Signals) : Connect(g, k, m)
           \/ \E a \in Pick([1..Arity -> Texts]), g \in Pick(Signals) : Notify(g, a)
           \/ \E g, h \in Signals : Copy(g, h)
Spec == Init /\ [][Next]_vars

\* nobody is called twice by an emission, and slots are called in the order they were made
Once == \A i \in DOMAIN seen : \A m, n \in DOMAIN seen[i] : m < n => seen[i][m][1] < seen[i][n][1]
\* a slot connected to a signal is called by its emissions until the signal is assigned anew
Total == \A i, j \in DOMAIN ops :
           (/\ i < j /\ ops[i].op = "connect" /\ ops[j].op = "emit" /\ ops[i].sig = ops[j].sig
            /\ \A n \in i..j : ~(ops[n].op = "copy" /\ ops[n].id = ops[j].sig))
             => \E c \in DOMAIN seen[j] : seen[j][c][1] = ops[i].id
\* only signal g's own slots, or those of the signals it was copied from
Own == \A i, j \in DOMAIN ops :
           (/\ ops[i].op = "connect" /\ ops[j].op = "emit" /\ ops[i].sig # ops[j].sig
            /\ \E c \in DOMAIN seen[j] : seen[j][c][1] = ops[i].id)
             => \E n \in i..j : ops[n].op = "copy" /\ ops[n].id = ops[j].sig
Invariants == Once /\ Total /\ Own
Emit == (Len(ops) = MaxOps /\ ops[MaxOps].op = "emit") => PrintT("@CASE " \o ToJson([mode |-> Mode, ops |-> ops, seen |-> seen]))
=============================================================================
