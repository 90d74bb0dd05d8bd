-------------------------------- MODULE Text --------------------------------
(* Operators on texts (TLC treats strings as sequences of characters), and   *)
(* the reading of typed values from texts.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i)        == SubSeq(s, i, i)
Drop(s, n)      == SubSeq(s, n + 1, Len(s))
Take(s, n)      == SubSeq(s, 1, n)
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits   == {DigitSeq[i] : i \in 1..10}
DigitVal == [d \in Digits |-> (CHOOSE i \in 1..10 : DigitSeq[i] = d) - 1]
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSet == {LowerSeq[i] : i \in 1..26}
UpperSet == {UpperSeq[i] : i \in 1..26}
Alnum    == Digits \cup LowerSet \cup UpperSet
UpMap    == [c \in LowerSet |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
LoMap    == [c \in UpperSet |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]

RECURSIVE MapText(_, _)
MapText(Op(_), s) == IF s = "" THEN "" ELSE Op(Ch(s, 1)) \o MapText(Op, Drop(s, 1))

UpCh(c)    == IF c \in LowerSet THEN UpMap[c] ELSE c
LoCh(c)    == IF c \in UpperSet THEN LoMap[c] ELSE c
Upper(s)   == MapText(UpCh, s)
Lower(s)   == MapText(LoCh, s)

\* length of the longest prefix of s, starting after position i, whose characters are all in cs
RECURSIVE SpanFrom(_, _, _)
SpanFrom(s, i, cs) == IF i < Len(s) /\ Ch(s, i + 1) \in cs THEN 1 + SpanFrom(s, i + 1, cs) ELSE 0

Quotes == {"\"", "'"}
Spaces == {" "}

StripQuotes(s) ==
  LET lead == SpanFrom(s, 0, Quotes) IN
  LET RECURSIVE trail(_)
      trail(n) == IF n > lead /\ Ch(s, n) \in Quotes THEN trail(n - 1) ELSE n
  IN SubSeq(s, lead + 1, trail(Len(s)))

RECURSIVE JoinText(_, _)
JoinText(ss, sep) == IF ss = <<>> THEN ""
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinText(Tail(ss), sep)

\* the parts of s between separators; a trailing separator opens no further part
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, cur, sep) ==
  IF s = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE IF Ch(s, 1) = sep THEN <<cur>> \o SplitFrom(Drop(s, 1), "", sep)
  ELSE SplitFrom(Drop(s, 1), cur \o Ch(s, 1), sep)
Split(s, sep) == SplitFrom(s, "", sep)

-----------------------------------------------------------------------------
(* Reading typed values.  A result is [ok, v, read]: whether a value was     *)
(* recognised, its canonical text, and how many characters were taken.       *)
Bad == [ok |-> FALSE, v |-> "", read |-> 0]

StripZeros(d) == LET z == SpanFrom(d, 0, {"0"}) IN
                 IF z = Len(d) THEN (IF d = "" THEN "" ELSE "0") ELSE Drop(d, z)

\* a <= b for canonical digit texts (no leading zeros)
RECURSIVE DigitsLE(_, _)
DigitsLE(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = "" THEN TRUE
  ELSE IF DigitVal[Ch(a, 1)] # DigitVal[Ch(b, 1)] THEN DigitVal[Ch(a, 1)] < DigitVal[Ch(b, 1)]
  ELSE DigitsLE(Drop(a, 1), Drop(b, 1))

IntMax == [int |-> "2147483647", int64 |-> "9223372036854775807", uint |-> "4294967295", int16 |-> "32767",
           uint16 |-> "65535", uint64 |-> "18446744073709551615"]
IntMin == [int |-> "2147483648", int64 |-> "9223372036854775808", uint |-> "0", int16 |-> "32768",
           uint16 |-> "0", uint64 |-> "0"]
IntTypes == DOMAIN IntMax

ReadInt(s, t) ==
  LET sp   == SpanFrom(s, 0, Spaces)
      sgn  == IF sp < Len(s) /\ Ch(s, sp + 1) \in {"+", "-"} THEN Ch(s, sp + 1) ELSE ""
      at   == sp + Len(sgn)
      n    == SpanFrom(s, at, Digits)
      d    == StripZeros(SubSeq(s, at + 1, at + n))
      lim  == IF sgn = "-" THEN IntMin[t] ELSE IntMax[t]
  IN IF n = 0 \/ ~DigitsLE(d, lim) \/ (sgn = "-" /\ IntMin[t] = "0") THEN Bad
     ELSE [ok |-> TRUE, v |-> (IF sgn = "-" /\ d # "0" THEN "-" \o d ELSE d), read |-> at + n]

\* decimal floats with few digits: [sign] digits [. digits]
RECURSIVE TrimRightZeros(_)
TrimRightZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN TrimRightZeros(Take(s, Len(s) - 1)) ELSE s

ReadFloat(s) ==
  LET sp   == SpanFrom(s, 0, Spaces)
      sgn  == IF sp < Len(s) /\ Ch(s, sp + 1) \in {"+", "-"} THEN Ch(s, sp + 1) ELSE ""
      at   == sp + Len(sgn)
      n    == SpanFrom(s, at, Digits)
      dot  == at + n < Len(s) /\ Ch(s, at + n + 1) = "."
      m    == IF dot THEN SpanFrom(s, at + n + 1, Digits) ELSE 0
      ip   == StripZeros(SubSeq(s, at + 1, at + n))
      fp   == TrimRightZeros(SubSeq(s, at + n + 2, at + n + 1 + m))
      body == (IF ip = "" THEN "0" ELSE ip) \o (IF fp = "" THEN "" ELSE "." \o fp)
  IN IF n + m = 0 THEN Bad
     ELSE [ok |-> TRUE, v |-> (IF sgn = "-" THEN "-" \o body ELSE body),
           read |-> at + n + (IF dot THEN 1 + m ELSE 0)]

TrueWords  == {"1", "t", "y", "true", "yes", "on"}
FalseWords == {"0", "f", "n", "false", "no", "off"}
ReadBool(s) ==
  LET n == SpanFrom(s, 0, Alnum)
      w == Lower(Take(s, n))
  IN IF w \in TrueWords THEN [ok |-> TRUE, v |-> "true", read |-> n]
     ELSE IF w \in FalseWords THEN [ok |-> TRUE, v |-> "false", read |-> n]
     ELSE Bad

UnBracket(s) == LET a == IF HasPrefix(s, "[") THEN Drop(s, 1) ELSE s
                IN IF HasSuffix(a, "]") THEN Take(a, Len(a) - 1) ELSE a

ElemType == [vint |-> "int", vint64 |-> "int64", vuint |-> "uint", vbool |-> "bool", vdouble |-> "double", vstr |-> "string"]
ListTypes == DOMAIN ElemType

\* one element of a list
ReadElem(s, t) ==
  CASE t = "string" -> [ok |-> TRUE, v |-> s, read |-> Len(s)]
    [] t \in IntTypes -> ReadInt(s, t)
    [] t = "double" -> ReadFloat(s)
    [] OTHER -> (IF s \in {"0", "1"} THEN [ok |-> TRUE, v |-> (IF s = "1" THEN "true" ELSE "false"), read |-> 1] ELSE Bad)

ReadList(s, t) ==
  IF s = "" THEN Bad
  ELSE LET parts == Split(UnBracket(s), ",")
           rs    == [i \in DOMAIN parts |-> ReadElem(parts[i], ElemType[t])]
       IN IF \E i \in DOMAIN rs : ~rs[i].ok THEN Bad
          ELSE [ok |-> TRUE, v |-> "[" \o JoinText([i \in DOMAIN rs |-> rs[i].v], ",") \o "]", read |-> Len(s)]

ReadValue(s, t) ==
  CASE t = "string"     -> [ok |-> TRUE, v |-> s, read |-> Len(s)]
    [] t = "bool"       -> ReadBool(s)
    [] t \in IntTypes   -> ReadInt(s, t)
    [] t = "double"     -> ReadFloat(s)
    [] t \in ListTypes  -> ReadList(s, t)
=============================================================================
