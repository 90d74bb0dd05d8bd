-------------------------- MODULE Trace_SharedStore --------------------------
EXTENDS SharedStore, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ Init0
TNext == /\ i <= Len(Ev)
         /\ LET e == Ev[i] IN
            \/ /\ \/ e.e = "call" /\ Call(e.t, e.op, e.s, e.a)
                  \/ e.e = "ret" /\ Ret(e.t, e.a)
                  \/ e.e = "leaf" /\ Leaf(e.s, e.a)
                  \/ e.e = "quiet" /\ Quiet /\ UNCHANGED vars
               /\ i' = i + 1
            \/ i' = i /\ \E t \in Threads : Effect(t)
         /\ UNCHANGED tr
Accepted == i > Len(Ev) => PrintT("@OK " \o ToString(tr))
tThreads == 0..6
=============================================================================
