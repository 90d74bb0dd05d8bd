--------------------------- MODULE Trace_CondWait ---------------------------
(* Which of the recorded traces are behaviours of CondWait?                  *)
EXTENDS CondWait, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i
tvars == <<cfg, count, pend, tr, i>>
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ Init0(Traces[tr].cfg)
TNext == /\ i <= Len(Ev)
         /\ LET e == Ev[i] IN
            \/ /\ \/ e.e = "call" /\ Call(e.t, e.op, e.a, e.ts)
                  \/ e.e = "ret" /\ Ret(e.t, e.a)
                  \/ e.e = "quiet" /\ Quiet /\ UNCHANGED vars
               /\ i' = i + 1
            \/ (\E t \in Threads : Internal(t, e.ts)) /\ i' = i
         /\ UNCHANGED tr
Accepted == i > Len(Ev) => PrintT("@OK " \o ToString(tr))
Progress == PrintT("@AT " \o ToString(i))
tThreads == 0..6
=============================================================================
