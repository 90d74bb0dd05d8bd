------------------------------- MODULE Strings -------------------------------
(* The text operations of cmdr::string.                                      *)
EXTENDS Text

White == {" ", "\t", "\n"}

-----------------------------------------------------------------------------
(* Taking apart and putting together *)
\* position of the first occurrence of p in s at or after position i (counted from 1), 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE Find(s, p, i + 1)

\* the pieces between separators: every separator separates two, also empty ones
RECURSIVE Pieces(_, _)
Pieces(s, sep) == IF sep = "" THEN <<s>>
                  ELSE LET k == Find(s, sep, 1) IN
                       IF k = 0 THEN <<s>> ELSE <<Take(s, k - 1)>> \o Pieces(Drop(s, k + Len(sep) - 1), sep)

\* the non-empty runs between separating characters
RECURSIVE Tokens(_, _, _)
Tokens(s, cur, cs) == IF s = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
                      ELSE IF Ch(s, 1) \in cs THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Tokens(Drop(s, 1), "", cs)
                      ELSE Tokens(Drop(s, 1), cur \o Ch(s, 1), cs)
Tokenize(s, cs) == Tokens(s, "", cs)

\* lines: as pieces, but nothing follows the last line end
Lines(s) == LET ps == Pieces(s, "\n") IN IF Len(ps) > 1 /\ ps[Len(ps)] = "" THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps

JoinAll(ps, sep, before, after) == before \o JoinText(ps, sep) \o after

ReplaceFirst(s, from, to) == LET k == Find(s, from, 1) IN
                             IF k = 0 THEN s ELSE Take(s, k - 1) \o to \o Drop(s, k + Len(from) - 1)
ReplaceAll(s, from, to) == IF from = "" THEN s ELSE JoinText(Pieces(s, from), to)

\* what precedes the delimiter, and what is left after it; without a delimiter: all of it
ReadUntil(s, sep) == LET k == Find(s, sep, 1) IN
                     IF k = 0 THEN [text |-> s, rest |-> "", found |-> FALSE]
                     ELSE [text |-> Take(s, k - 1), rest |-> Drop(s, k + Len(sep) - 1), found |-> TRUE]

-----------------------------------------------------------------------------
(* Ends of texts *)
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # "" /\ Ch(s, 1) \in White THEN TrimLeft(Drop(s, 1)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) \in White THEN TrimRight(Take(s, Len(s) - 1)) ELSE s
\* an opening and a closing text taken off, each where it is
Overlap(s, pre, post) == HasPrefix(s, pre) /\ HasSuffix(s, post) /\ Len(pre) + Len(post) > Len(s)
Strip(s, pre, post) == LET a == IF HasPrefix(s, pre) THEN Len(pre) ELSE 0
                           b == IF HasSuffix(s, post) THEN Len(post) ELSE 0
                       IN SubSeq(s, a + 1, Len(s) - b)
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)
PadRight(s, n, c) == s \o Repeat(c, n - Len(s))
RECURSIVE Indent(_, _, _)
Indent(ls, n, c) == IF ls = <<>> THEN "" ELSE Repeat(c, n) \o ls[1] \o "\n" \o Indent(Tail(ls), n, c)
PadLeft(s, n, c) == LET ls == Lines(s) IN IF Len(ls) <= 1 THEN Repeat(c, n) \o s ELSE Indent(ls, n, c)

-----------------------------------------------------------------------------
(* References to environment variables: $NAME and ${NAME}.  A value may hold *)
(* references itself; a reference to a variable being expanded stays as it is.*)
NameChars == Alnum \cup {"_"}
RECURSIVE Expand(_, _, _)
Expand(s, env, active) ==
  IF s = "" THEN ""
  ELSE IF Ch(s, 1) # "$" THEN Ch(s, 1) \o Expand(Drop(s, 1), env, active)
  ELSE LET br == Len(s) > 1 /\ Ch(s, 2) = "{"
           k  == SpanFrom(s, IF br THEN 2 ELSE 1, NameChars)
           nm == IF br THEN SubSeq(s, 3, 2 + k) ELSE SubSeq(s, 2, 1 + k)
           ok == k > 0 /\ (br => k + 3 <= Len(s) /\ Ch(s, k + 3) = "}")
           n  == IF br THEN k + 3 ELSE k + 1
       IN IF ~ok THEN "$" \o Expand(Drop(s, 1), env, active)
          ELSE (IF nm \in active THEN Take(s, n)
                ELSE IF nm \in DOMAIN env THEN Expand(env[nm], env, active \cup {nm}) ELSE "")
               \o Expand(Drop(s, n), env, active)
=============================================================================
