------------------------------- MODULE Store -------------------------------
(* The option store: a map from dotted keys to typed values, references that *)
(* stay attached to their key, and the views (walk, dump, subtree, has) that *)
(* are derived from the map.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Keys,      \* dotted keys, as sequences of segments
          Values,    \* typed values [t, v]
          Slots,     \* places where a reference can be kept
          MaxOps, Sample

VARIABLES val,       \* key -> value, defined exactly for the keys that were written
          refs,      \* slot -> key
          ops,       \* the operations so far
          seen       \* the store after each operation
vars == <<val, refs, ops, seen>>

Empty == [t |-> "void", v |-> ""]
RECURSIVE Dotted(_)
Dotted(k) == IF Len(k) = 1 THEN k[1] ELSE k[1] \o "." \o Dotted(Tail(k))
IsPrefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Drop(k, n) == SubSeq(k, n + 1, Len(k))

Init == val = <<>> /\ refs = <<>> /\ ops = <<>> /\ seen = <<>>

Op(name, key, value, slot, at) == [op |-> name, key |-> IF key = <<>> THEN "" ELSE Dotted(key), value |-> value, slot |-> slot, at |-> at]
Step(o) == /\ ops' = Append(ops, o)
           /\ seen' = Append(seen, [k \in {Dotted(x) : x \in DOMAIN val'} |-> val'[CHOOSE x \in DOMAIN val' : Dotted(x) = k]])

\* writing: in one piece, with the key split into a prefix and a rest, or in a subtree obtained for a prefix of a present key
Write(k, v) == val' = (k :> v) @@ val
Set(k, v)    == Write(k, v) /\ UNCHANGED refs /\ Step(Op("set", k, v, 0, 0))
SetP(k, v)   == \E n \in 0..(Len(k) - 1) : Write(k, v) /\ UNCHANGED refs /\ Step(Op("setp", k, v, 0, n))
SetSub(k, v) == \E n \in 1..(Len(k) - 1) : k \in DOMAIN val /\ Write(k, v) /\ UNCHANGED refs /\ Step(Op("setsub", k, v, 0, n))
\* a reference to a present key; a write through it; the value taken away through it (the key stays)
Ref(k, s)  == k \in DOMAIN val /\ refs' = (s :> k) @@ refs /\ UNCHANGED val /\ Step(Op("ref", k, Empty, s, 0))
WriteRef(s, v) == s \in DOMAIN refs /\ Write(refs[s], v) /\ UNCHANGED refs /\ Step(Op("wref", refs[s], v, s, 0))
ClearRef(s) == s \in DOMAIN refs /\ Write(refs[s], Empty) /\ UNCHANGED refs /\ Step(Op("clear", refs[s], Empty, s, 0))
\* reading changes nothing, be the key present or not
Probe(k) == UNCHANGED <<val, refs>> /\ Step(Op("probe", k, Empty, 0, 0))
Reset == val' = <<>> /\ refs' = <<>> /\ Step(Op("reset", <<>>, Empty, 0, 0))

Pick(A) == IF Sample = 0 \/ Cardinality(A) <= 1 THEN A ELSE RandomSubset(1, A)
Next ==
  /\ Len(ops) < MaxOps
  /\ \E k \in Pick(Keys), v \in Pick(Values), s \in Pick(Slots) :
       Set(k, v) \/ SetP(k, v) \/ SetSub(k, v) \/ Ref(k, s) \/ WriteRef(s, v) \/ ClearRef(s) \/ Probe(k) \/ Reset
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what the views must show
Under(p) == {k \in DOMAIN val : IsPrefix(p, k) /\ k # p}
Prefixes == UNION {{SubSeq(k, 1, n) : n \in 1..Len(k)} : k \in Keys}
Known(p) == \E k \in DOMAIN val : IsPrefix(p, k)
Nodes == {p \in Prefixes : Known(p)}

\* Only the key named by an operation changes, and nothing else does.
OnlyNamed == [][\A k \in Keys : (Len(ops') > 0 /\ ops'[Len(ops')].op # "reset" /\ Dotted(k) # ops'[Len(ops')].key) =>
                   (k \in DOMAIN val <=> k \in DOMAIN val') /\ (k \in DOMAIN val => val'[k] = val[k])]_vars
RefInv == \A s \in DOMAIN refs : refs[s] \in DOMAIN val
PartInv == \A p \in Prefixes : {k \in DOMAIN val : IsPrefix(p, k)} = Under(p) \cup (IF p \in DOMAIN val THEN {p} ELSE {})
Invariants == RefInv /\ PartInv

Map(D) == [k \in {Dotted(x) : x \in D} |-> val[CHOOSE x \in D : Dotted(x) = k]]
Outcome == [ops |-> ops, seen |-> seen,
            refs |-> [s \in DOMAIN refs |-> Dotted(refs[s])],
            nodes |-> {Dotted(p) : p \in Nodes},
            sub |-> [p \in {Dotted(q) : q \in Nodes} |-> LET q == CHOOSE q \in Nodes : Dotted(q) = p IN
                       [k \in {Dotted(Drop(x, Len(q))) : x \in Under(q)} |-> val[CHOOSE x \in Under(q) : Dotted(Drop(x, Len(q))) = k]]]]
Emit == (ops # <<>> /\ Len(ops) = MaxOps) => PrintT("@CASE " \o ToJson(Outcome))
=============================================================================
