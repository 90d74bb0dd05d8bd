--------------------------- MODULE Trace_MsgQueue ---------------------------
EXTENDS MsgQueue, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ Init0
TNext == /\ i <= Len(Ev)
         /\ LET e == Ev[i] IN
            \/ /\ \/ e.e = "call" /\ Call(e.t, e.op, e.a)
                  \/ e.e = "ret" /\ Ret(e.t, e.a)
                  \/ e.e = "quiet" /\ Quiet /\ UNCHANGED vars
               /\ i' = i + 1
            \/ (\E t \in Threads : Internal(t)) /\ i' = i
         /\ UNCHANGED tr
Accepted == i > Len(Ev) => PrintT("@OK " \o ToString(tr))
tThreads == 0..6
=============================================================================
