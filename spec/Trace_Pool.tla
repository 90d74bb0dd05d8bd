----------------------------- MODULE Trace_Pool -----------------------------
EXTENDS Pool, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ Init0
TNext == /\ i <= Len(Ev)
         /\ LET e == Ev[i] IN
            \/ /\ \/ e.e = "call" /\ Call(e.t, e.op, e.a, e.b)
                  \/ e.e = "ret" /\ Ret(e.t, e.a)
                  \/ e.e = "start" /\ Start(e.a)
                  \/ e.e = "end" /\ End(e.a)
                  \/ e.e = "settle" /\ Settled
                  \/ e.e = "tstart" /\ Born
                  \/ e.e = "texit" /\ Gone
                  \/ e.e = "quiet" /\ Quiet /\ UNCHANGED vars
               /\ i' = i + 1
            \/ Internal /\ i' = i
         /\ UNCHANGED tr
Accepted == i > Len(Ev) => PrintT("@OK " \o ToString(tr))
\* 0..9: clients, 100..: tasks that queue other tasks
tThreads == (0..6) \cup (100..160)
cTasks == "tasks"
cLife == "life"
=============================================================================
