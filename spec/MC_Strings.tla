------------------------------ MODULE MC_Strings ------------------------------
(* Texts built character by character, with two more texts as arguments;     *)
(* every text reached is judged for all operations.                          *)
EXTENDS Strings, Json, Randomization

CONSTANTS Alphabet, MaxLen, As, Bs, Sample, Mode
VARIABLES s, a, b
vars == <<s, a, b>>

Pick(S) == IF Sample = 0 THEN S ELSE RandomSubset(1, S)
Init == s = "" /\ a \in As /\ b \in Bs
Next == Len(s) < MaxLen /\ (\E c \in Pick(Alphabet) : s' = s \o c) /\ UNCHANGED <<a, b>>

C1 == Ch(a, 1)
P == Pieces(s, a)
TextAnswers ==
  [tokens |-> Tokenize(s, White), tokensAt |-> Tokenize(s, {C1}), pieces |-> P, parts |-> Split(s, C1), lines |-> Lines(s),
   joined |-> JoinText(P, b), joinedIn |-> JoinAll(P, b, a, b), joinedChar |-> JoinAll(P, C1, "", ""), joinedCharIn |-> JoinAll(P, C1, "[", "]"),
   found |-> Find(s, a, 1) # 0, replaced |-> ReplaceFirst(s, a, b), replacedAll |-> ReplaceAll(s, a, b),
   prefix |-> HasPrefix(s, a), suffix |-> HasSuffix(s, a), wrapped |-> a \o s \o b, wrappedChar |-> "[" \o s \o "]", quoted |-> "\"" \o s \o "\"",
   stripClaimed |-> ~Overlap(s, a, b), stripped |-> (IF Overlap(s, a, b) THEN "" ELSE Strip(s, a, b)), unquoted |-> StripQuotes(s),
   left |-> TrimLeft(s), right |-> TrimRight(s), trimmed |-> TrimLeft(TrimRight(s)), upper |-> Upper(s), lower |-> Lower(s),
   padded |-> PadRight(s, 4, "."), indented |-> PadLeft(s, 3, " "), until |-> ReadUntil(s, a), untilChar |-> ReadUntil(s, C1)]

Env == [A |-> "1", B |-> "<$A>", C |-> "$C", D |-> "${E}x", E |-> "y$D", AB |-> "{", b |-> "$", F |-> ""]

\* What is taken apart can be put together again, and the like.
Invariants ==
  IF Mode = "text" THEN
    /\ JoinText(P, a) = s
    /\ \A i \in DOMAIN P : Find(P[i], a, 1) = 0
    /\ \A t \in {Tokenize(s, White)[i] : i \in DOMAIN Tokenize(s, White)} : t # "" /\ \A c \in White : Find(t, c, 1) = 0
    /\ (b = "" \/ Find(b, C1, 1) = 0) /\ Len(a) = 1 => Find(ReplaceAll(s, a, b), a, 1) = 0
    /\ LET r == ReadUntil(s, a) IN s = r.text \o (IF r.found THEN a ELSE "") \o r.rest /\ Find(r.text, a, 1) = 0
    /\ LET t == TrimLeft(TrimRight(s)) IN t = TrimRight(TrimLeft(s)) /\ (t # "" => Ch(t, 1) \notin White /\ Ch(t, Len(t)) \notin White)
    /\ (~Overlap(s, a, b) => Strip(a \o s \o b, a, b) = s)
    /\ Upper(Lower(s)) = Upper(s)
  ELSE IF Mode = "env" THEN
    \* a text without references is itself, and expanding ends
    Find(s, "$", 1) # 0 \/ Expand(s, Env, {}) = s
  ELSE TRUE
EmitText == PrintT("@CASE " \o ToJson([s |-> s, a |-> a, b |-> b, e |-> TextAnswers]))
EmitEnv == PrintT("@CASE " \o ToJson([s |-> s, env |-> Env, e |-> Expand(s, Env, {})]))
\* the text of a number: no leading zeros, within 32 bits
IsInt  == LET d == IF HasPrefix(s, "-") THEN Drop(s, 1) ELSE s IN
          d # "" /\ SpanFrom(d, 0, Digits) = Len(d) /\ (Ch(d, 1) # "0" \/ s = "0")
          /\ DigitsLE(d, IF d # s THEN IntMin.int ELSE IntMax.int)
IsUint == SpanFrom(s, 0, Digits) = Len(s) /\ s # "" /\ (Ch(s, 1) # "0" \/ s = "0") /\ DigitsLE(s, IntMax.uint)
EmitNumber == (IsInt \/ IsUint) => PrintT("@CASE " \o ToJson([s |-> s, int |-> IsInt, uint |-> IsUint]))
Emit == CASE Mode = "text" -> ((Sample = 0 \/ Len(s) >= MaxLen - 1) => EmitText)
          [] Mode = "env" -> ((Sample = 0 \/ Len(s) >= MaxLen - 1) => EmitEnv)
          [] Mode = "number" -> EmitNumber

mcText   == {"a", "b", " ", "\"", "\n"}
mcBig    == {"a", "b", "A", "z", " ", "\t", "\n", "\"", "'", "[", ",", "x", "0"}
mcEnv    == {"$", "{", "}", "A", "B", " "}
mcEnvBig == {"$", "${", "}", "A", "B", "C", "D", "E", "F", "b", "_", "-", "$C", "${D}", "${A}", "$B"}
mcAs  == {"a", "ab", "aa", " ", "aba"}
mcBs  == {"", "b", "aa", "xa"}
mcDigits == Digits \cup {"-"}
mcDigitsBig == Digits \cup {"-", "21474836", "42949672", "000", "99", "10000"}
oneA  == {"a"}
=============================================================================
