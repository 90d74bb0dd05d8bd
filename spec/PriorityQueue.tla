--------------------------- MODULE PriorityQueue ---------------------------
(* A queue of elements [p, id]: p is the priority, id the order of arrival.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Prios, Reverse,   \* Reverse: the smallest is the highest priority
          MaxOps, MaxLen, Sample

VARIABLES q,      \* the elements, in popping order
          next,   \* id of the next element
          ops, seen
vars == <<q, next, ops, seen>>

Ahead(a, b) == IF Reverse THEN a < b ELSE a > b   \* priority a comes before priority b

Init == q = <<>> /\ next = 1 /\ ops = <<>> /\ seen = <<>>
Obs(popped) == [popped |-> popped, q |-> [i \in DOMAIN q' |-> q'[i].id]]

\* behind all elements of the same or a higher priority
Insert(s, e) == LET k == Cardinality({i \in DOMAIN s : ~Ahead(e.p, s[i].p)})
                IN SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
Push(p) == /\ Len(q) < MaxLen
           /\ q' = Insert(q, [p |-> p, id |-> next]) /\ next' = next + 1
           /\ ops' = Append(ops, p) /\ seen' = Append(seen, Obs(0))
Pop == /\ q # <<>>
       /\ q' = Tail(q) /\ UNCHANGED next
       /\ ops' = Append(ops, 0) /\ seen' = Append(seen, Obs(q[1].id))
\* popping an empty queue yields the null element and changes nothing
PopEmpty == /\ q = <<>>
            /\ UNCHANGED <<q, next>>
            /\ ops' = Append(ops, 0) /\ seen' = Append(seen, Obs(-1))
Pick(A) == IF Sample = 0 THEN A ELSE RandomSubset(1, A)
Next == Len(ops) < MaxOps /\ ((\E p \in Pick(Prios) : Push(p)) \/ Pop \/ PopEmpty)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Each element is of the highest priority among those behind it, and older than those of its own priority.
Order == \A i, j \in DOMAIN q : i < j => Ahead(q[i].p, q[j].p) \/ (q[i].p = q[j].p /\ q[i].id < q[j].id)
Popped == {seen[i].popped : i \in DOMAIN seen} \ {0, -1}
\* Everything pushed is either still there or was popped once.
Conserved == /\ Popped \cap {q[i].id : i \in DOMAIN q} = {}
             /\ Popped \cup {q[i].id : i \in DOMAIN q} = 1..(next - 1)
             /\ Cardinality({i \in DOMAIN seen : seen[i].popped > 0}) = Cardinality(Popped)
Invariants == Order /\ Conserved
Emit == Len(ops) = MaxOps => PrintT("@CASE " \o ToJson([ops |-> ops, seen |-> seen, rev |-> Reverse]))
=============================================================================
