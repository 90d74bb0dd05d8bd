-------------------------------- MODULE Yaml --------------------------------
(* The YAML loader: documents made of nested maps, scalars and sequences of  *)
(* scalars, found in several places, published in the option store.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Keys,      \* keys of maps; a key may hold dots
          Scalars,   \* [text, form]: a text, written plain, in quotes, tagged !!str, as a block literal, as an alias
          Places,    \* the places where documents are found, as numbers in the order of loading
          Styles,    \* how documents are laid out
          MaxSeq, MaxDepth, MaxOps, Sample

VARIABLES phase,     \* "pre" (nothing loaded), "doc" (within a document), "between"
          path,      \* the keys of the open maps, outermost first
          store,     \* dotted path -> value
          loaded,    \* the places of the documents loaded
          keep,      \* dotted paths set before
          ops
vars == <<phase, path, store, loaded, keep, ops>>

Truths == {"y", "Y", "yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"}
Falses == {"n", "N", "no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"}
Nulls  == {"~", "null", "Null", "NULL", ""}

\* the value of a scalar: only plain ones can be a null or a boolean
Value(s) == IF s.form # "plain" THEN [t |-> "string", v |-> s.text]
            ELSE IF s.text \in Nulls THEN [t |-> "null", v |-> ""]
            ELSE IF s.text \in Truths THEN [t |-> "bool", v |-> "true"]
            ELSE IF s.text \in Falses THEN [t |-> "bool", v |-> "false"]
            ELSE [t |-> "string", v |-> s.text]

RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Join(Tail(p))
At(k) == Join(Append(path, k))

Init == phase = "pre" /\ path = <<>> /\ store = <<>> /\ loaded = <<>> /\ keep = <<>> /\ ops = <<>>

Say(name, key, items, n, style) == ops' = Append(ops, [op |-> name, key |-> key, items |-> items, n |-> n, style |-> style])

\* a value set by the program before anything is loaded
Preset(k, s) == /\ phase = "pre" /\ Value(s).t # "null"
                /\ store' = (k :> Value(s)) @@ store /\ keep' = store'
                /\ UNCHANGED <<phase, path, loaded>> /\ Say("preset", k, <<s>>, 0, "")
Begin(n, y) == /\ phase # "doc" /\ \A i \in DOMAIN loaded : loaded[i] < n
               /\ phase' = "doc" /\ loaded' = Append(loaded, n)
               /\ UNCHANGED <<path, store, keep>> /\ Say("begin", "", <<>>, n, y)
\* a null says nothing: the key keeps what it had
Scalar(k, s) == /\ phase = "doc"
                /\ store' = IF Value(s).t = "null" THEN store ELSE (At(k) :> Value(s)) @@ store
                /\ UNCHANGED <<phase, path, loaded, keep>> /\ Say("scalar", k, <<s>>, 0, "")
\* a sequence is a list with one value for each element
List(k, ss) == /\ phase = "doc" /\ \A i \in DOMAIN ss : Value(ss[i]).t # "null"
               /\ store' = (At(k) :> [t |-> "list", v |-> [i \in DOMAIN ss |-> Value(ss[i])]]) @@ store
               /\ UNCHANGED <<phase, path, loaded, keep>> /\ Say("list", k, ss, 0, "")
\* a map publishes nothing by itself
Open(k) == /\ phase = "doc" /\ Len(path) < MaxDepth
           /\ path' = Append(path, k) /\ UNCHANGED <<phase, store, loaded, keep>> /\ Say("open", k, <<>>, 0, "")
Close == /\ phase = "doc" /\ path # <<>>
         /\ path' = SubSeq(path, 1, Len(path) - 1) /\ UNCHANGED <<phase, store, loaded, keep>> /\ Say("close", "", <<>>, 0, "")
End == /\ phase = "doc" /\ path = <<>>
       /\ phase' = "between" /\ UNCHANGED <<path, store, loaded, keep>> /\ Say("end", "", <<>>, 0, "")

Pick(A) == IF Sample = 0 \/ Cardinality(A) <= 1 THEN A ELSE RandomSubset(1, A)
Lists == UNION {[1..n -> Pick(Scalars)] : n \in Pick(0..MaxSeq)}
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Pick(Keys), s \in Pick(Scalars) : Preset(k, s) \/ Scalar(k, s) \/ Open(k)
           \/ \E k \in Pick(Keys), ss \in Lists : List(k, ss)
           \/ \E n \in Pick(Places), y \in Pick(Styles) : Begin(n, y)
           \/ Close \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The last operation that gave a path a value decides; all else keeps what it had.
KeepInv == \A k \in DOMAIN keep : k \in DOMAIN store
           /\ (store[k] # keep[k] => \E i \in DOMAIN ops : ops[i].op \in {"scalar", "list"})
OneInv  == phase = "pre" => store = keep
Others  == [][\A k \in DOMAIN store : store'[k] # store[k] =>
               LET o == ops'[Len(ops')] IN o.op \in {"preset", "scalar", "list"} /\ k = (IF o.op = "preset" THEN o.key ELSE At(o.key))]_vars
\* every key comes from an operation of the history
SourceInv == Cardinality(DOMAIN store) <= Cardinality({i \in DOMAIN ops : ops[i].op \in {"preset", "scalar", "list"}})
OrderInv == \A i, j \in DOMAIN loaded : i < j => loaded[i] < loaded[j]
Invariants == KeepInv /\ OneInv /\ SourceInv /\ OrderInv
Emit == (ops # <<>> /\ ops[Len(ops)].op = "end") => PrintT("@CASE " \o ToJson([ops |-> ops, store |-> store, loaded |-> loaded]))
=============================================================================
