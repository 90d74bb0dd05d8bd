------------------------------- MODULE MC_Files -------------------------------
EXTENDS Files, Json
mcNames == {"f", "g"}
mcOneName == {"f"}
mcContents == {<<>>, <<65, 66, 67>>, <<0, 255, 10, 13, 26, 0>>, [i \in 1..40 |-> i]}
mcFewContents == {<<65, 66>>}
mcSizes == {0, 1, 7, 300}
mcFewSizes == {2}
mcBytes == {0, 7, 255}
mcFewBytes == {9}
mcSlots == 1..4
mcFewSlots == 1..2
Emit == (Len(ops) = MaxOps) => PrintT("@CASE " \o ToJson([ops |-> ops]))
=============================================================================
