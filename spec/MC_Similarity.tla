---------------------------- MODULE MC_Similarity ----------------------------
(* Pairs of texts, built one character at a time, and their similarity.      *)
EXTENDS Similarity, Json
CONSTANTS MaxLen, Letters, Sample
VARIABLES s, t
vars == <<s, t>>

Two   == {"a", "b"}
Three == {"a", "b", "c"}
Seven == {"a", "b", "c", "d", "e", "-", "A"}

Init == s = "" /\ t = ""
Next == \/ Len(s) < MaxLen /\ t = "" /\ (\E c \in Letters : s' = s \o c) /\ t' = t
        \/ Len(t) < MaxLen /\ (\E c \in Letters : t' = t \o c) /\ s' = s

Same(x, y) == x.num * y.den = y.num * x.den
\* the similarity is between 0 and 1, and 1 exactly for equal texts; texts without common characters have none
Invariants ==
  LET j == Jaro(s, t)
      cs == {Ch(s, i) : i \in 1..Len(s)} \cap {Ch(t, i) : i \in 1..Len(t)}
  IN /\ j.num >= 0 /\ j.num <= j.den /\ j.den > 0
     /\ (s # "" => (Same(j, One) <=> s = t))
     /\ (cs = {} => Same(j, Zero))
Emit == (Sample = 0 \/ Len(t) >= Sample) => PrintT("@CASE " \o ToJson([s |-> s, t |-> t, num |-> Jaro(s, t).num, den |-> Jaro(s, t).den,
                                                     exact |-> s = t, match |-> AtLeast(Jaro(s, t), 1, 2)]))
=============================================================================
