------------------------------- MODULE Typed -------------------------------
(* Reading typed values from texts, and printing and reading them back.      *)
(* A text is built token by token; every text reached is judged for its type.*)
EXTENDS Text, Json, Randomization

CONSTANTS Cases,   \* type -> its tokens
          MaxTokens, Sample

VARIABLES type, text, n
vars == <<type, text, n>>

FloatTypes == {"float", "double", "ldouble"}
AllListTypes == ListTypes \cup {"vint16", "vuint16", "vuint64"}
Elem(t) == CASE t = "vint16" -> "int16" [] t = "vuint16" -> "uint16" [] t = "vuint64" -> "uint64" [] OTHER -> ElemType[t]

\* a float may carry an exponent; an exponent without digits makes the whole text unreadable
ReadExp(s) ==
  LET m == ReadFloat(s) IN
  IF ~m.ok \/ m.read = Len(s) \/ Ch(s, m.read + 1) \notin {"e", "E"} THEN m
  ELSE LET sg == IF m.read + 1 < Len(s) /\ Ch(s, m.read + 2) \in {"+", "-"} THEN 1 ELSE 0
           k  == SpanFrom(s, m.read + 1 + sg, Digits)
       IN IF k = 0 THEN Bad
          ELSE [ok |-> TRUE, v |-> m.v \o "e" \o SubSeq(s, m.read + 2, m.read + 1 + sg + k), read |-> m.read + 1 + sg + k]

\* a text in quotes up to the next such quote, or a word
ReadString(s) ==
  IF s = "" THEN Bad
  ELSE IF Ch(s, 1) \in Quotes
       THEN LET q == Ch(s, 1)
                k == SpanFrom(s, 1, {c \in {Ch(s, i) : i \in 1..Len(s)} : c # q})
            IN [ok |-> TRUE, v |-> SubSeq(s, 2, 1 + k), read |-> 2 + k]
       ELSE [ok |-> TRUE, v |-> s, read |-> Len(s)]

ReadElem2(s, t) == CASE t = "string" -> [ok |-> TRUE, v |-> s, read |-> Len(s)]
                     [] t \in FloatTypes -> ReadExp(s)
                     [] t = "bool" -> (LET r == ReadInt(s, "int64") IN
                                       IF r.ok /\ r.v \in {"0", "1"} THEN [r EXCEPT !.v = IF r.v = "1" THEN "true" ELSE "false"] ELSE Bad)
                     [] OTHER -> ReadElem(s, t)
Parts(s) == Split(UnBracket(s), ",")
ReadList2(s, t) ==
  IF s = "" THEN Bad
  ELSE LET ps == Parts(s)
           rs == [i \in DOMAIN ps |-> ReadElem2(ps[i], Elem(t))]
       IN IF \E i \in DOMAIN rs : ~rs[i].ok THEN Bad
          ELSE [ok |-> TRUE, v |-> "[" \o JoinText([i \in DOMAIN rs |-> rs[i].v], ",") \o "]", read |-> Len(s)]

\* exponents up to 19 keep within the range of every float type
RECURSIVE Modest(_)
Modest(s) == \/ s = ""
             \/ IF Ch(s, 1) \notin {"e", "E"} THEN Modest(Drop(s, 1))
                ELSE LET a == IF Len(s) > 1 /\ Ch(s, 2) \in {"+", "-"} THEN 2 ELSE 1
                         k == SpanFrom(s, a, Digits)
                     IN (k <= 1 \/ (k = 2 /\ Ch(s, a + 1) \in {"0", "1"})) /\ Modest(Drop(s, 1))

Read(s, t) == CASE t \in {"string", "char*"} -> ReadString(s)
                [] t = "bool" -> ReadBool(s)
                [] t \in IntTypes -> ReadInt(s, t)
                [] t \in FloatTypes -> ReadExp(s)
                [] OTHER -> ReadList2(s, t)

\* Texts nothing is said about: list brackets that do not match, list elements followed by something else, words with spaces, open quotes.
Claimed(s, t) ==
  CASE t \in {"string", "char*"} -> s # "" /\ (IF Ch(s, 1) \in Quotes THEN ReadString(s).read <= Len(s)
                                               ELSE SpanFrom(s, 0, {c \in {Ch(s, i) : i \in 1..Len(s)} : c # " "}) = Len(s))
    [] t \in AllListTypes -> /\ HasPrefix(s, "[") = HasSuffix(s, "]") /\ s # "["
                             /\ LET ps == Parts(s) IN
                                (\A i \in DOMAIN ps : LET r == ReadElem2(ps[i], Elem(t)) IN r.ok => r.read = Len(ps[i]))
    [] t \in FloatTypes -> Modest(s)
    [] OTHER -> TRUE

\* Values that survive printing: the printed form of a float has six digits, that of a string list no quotes.
Digs(s) == LET RECURSIVE c(_)
               c(i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) \in Digits THEN 1 ELSE 0) + c(i + 1) IN c(1)
Survives(v, t) == \/ t = "bool" \/ t \in IntTypes
                  \/ t \in {"vbool", "vint", "vint64", "vuint", "vint16", "vuint16", "vuint64"} /\ v # "[]"
                  \/ t \in FloatTypes /\ Digs(v) <= 6
                  \/ t = "string" /\ \A i \in 1..Len(v) : Ch(v, i) \notin (Quotes \cup {"\\"})

Init == type \in DOMAIN Cases /\ text = "" /\ n = 0
Pick(A) == IF Sample = 0 THEN A ELSE RandomSubset(1, A)
Next == n < MaxTokens /\ n' = n + 1 /\ UNCHANGED type /\ \E k \in Pick(Cases[type]) : text' = text \o k

-----------------------------------------------------------------------------
\* A value read is a value of the type, printing it and reading again gives it back.
R == Read(text, type)
Canonical ==
  R.ok /\ Claimed(text, type) =>
    /\ R.read <= Len(text)
    /\ (type = "bool" \/ type \in IntTypes \/ (type \in AllListTypes /\ Elem(type) \notin (FloatTypes \cup {"string", "bool"}))) =>
         Read(R.v, type) = [ok |-> TRUE, v |-> R.v, read |-> Len(R.v)]
Emit == (Claimed(text, type) /\ (Sample = 0 \/ n = MaxTokens)) =>
          PrintT("@CASE " \o ToJson([t |-> type, s |-> text, ok |-> R.ok, v |-> R.v, read |-> R.read, back |-> R.ok /\ Survives(R.v, type)]))
=============================================================================
