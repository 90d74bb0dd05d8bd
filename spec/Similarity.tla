----------------------------- MODULE Similarity -----------------------------
(* The Jaro similarity of two texts, as an exact fraction.                   *)
EXTENDS Text

SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(a, b) == IF a >= b THEN a ELSE b
SLess(a, b) == IF a <= b THEN a ELSE b

\* Each character of s, from left to right, is matched with the first equal character of t that is still free and
\* not farther away than half of the longer length less one. A matching is a sequence of pairs of positions.
RECURSIVE Matching(_, _, _, _, _)
Matching(s, t, d, i, m) ==
  IF i > Len(s) THEN m
  ELSE LET free == {j \in SMax(1, i - d)..SLess(Len(t), i + d) : Ch(t, j) = Ch(s, i) /\ \A k \in DOMAIN m : m[k][2] # j}
       IN Matching(s, t, d, i + 1, IF free = {} THEN m ELSE Append(m, <<i, SMin(free)>>))

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE <<SMin(S)>> \o SortedSeq(S \ {SMin(S)})

One == [num |-> 1, den |-> 1]
Zero == [num |-> 0, den |-> 1]
\* The mean of: the share of s matched, the share of t matched, the share of matched characters in the same order.
Jaro(s, t) ==
  IF s = "" \/ t = "" THEN Zero
  ELSE IF s = t THEN One
  ELSE LET l1 == Len(s)  l2 == Len(t)
           m  == Matching(s, t, (SMax(l1, l2) \div 2) - 1, 1, <<>>)
           n  == Len(m)
           js == SortedSeq({m[k][2] : k \in DOMAIN m})
           tr == Cardinality({k \in DOMAIN m : Ch(s, m[k][1]) # Ch(t, js[k])})   \* half a transposition each
       IN IF n = 0 THEN Zero
          ELSE [num |-> 2 * n * n * l2 + 2 * n * n * l1 + (2 * n - tr) * l1 * l2, den |-> 6 * n * l1 * l2]

AtLeast(x, num, den) == x.num * den >= num * x.den
Above(x, y) == x.num * y.den > y.num * x.den
=============================================================================
