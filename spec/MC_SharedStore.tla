--------------------------- MODULE MC_SharedStore ---------------------------
EXTENDS SharedStore, Json

CONSTANTS Firsts, Progs, N   \* thread 0 writes, the clients 1..N run, thread 0 reads everything

VARIABLES first, prog, pc, did
mvars == <<val, pend, shown, first, prog, pc, did>>

Line(t) == IF t = 0 THEN first ELSE prog[t]
Val(t, i) == 10 * t + i
MInit == /\ Init0
         /\ \E s \in Firsts, f \in [1..N -> DOMAIN Progs] :
              /\ \A i \in 1..(N - 1) : f[i] <= f[i + 1]
              /\ first = s /\ prog = [t \in 1..N |-> Progs[f[t]]]
         /\ pc = [t \in 0..N |-> 1] /\ did = <<>>
Enabled(t) == pend[t].op = "" /\ pc[t] <= Len(Line(t)) /\ (t # 0 => pc[0] > Len(first))
Step(t) == \/ Enabled(t) /\ Call(t, Line(t)[pc[t]][1], Line(t)[pc[t]][2], Val(t, pc[t])) /\ UNCHANGED <<first, prog, pc, did>>
           \/ /\ Effect(t) /\ did' = IF pend[t].op = "set" THEN Append(did, pend[t]) ELSE did
              /\ UNCHANGED <<first, prog, pc>>
           \/ pend[t].op # "" /\ Ret(t, pend[t].res) /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<first, prog, did>>
MNext == \E t \in 0..N : Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in 0..N : WF_mvars(Step(t))
Nothing == FALSE /\ UNCHANGED mvars

\* a key that a completed write has written is found, whatever else is going on
Writes(t) == {i \in 1..(pc[t] - 1) : Line(t)[i][1] = "set"}
Found == \A t \in 0..N : \A i \in Writes(t) : Line(t)[i][2] \in DOMAIN val
\* nothing is invented: a key is there because somebody has begun to write it, and its value is one somebody wrote
Begun(t) == {i \in DOMAIN Line(t) : Line(t)[i][1] = "set" /\ (i < pc[t] \/ (i = pc[t] /\ pend[t].op # ""))}
Origin == \A k \in DOMAIN val : \E t \in 0..N : \E i \in Begun(t) : Line(t)[i][2] = k /\ val[k] = Val(t, i)
\* no thread's own order is turned round
LastWrite == \A k \in DOMAIN val : \A t \in 0..N : \A i, j \in Writes(t) :
               (Line(t)[i][2] = k /\ Line(t)[j][2] = k /\ i < j) => val[k] # Val(t, i)
Grows == [][DOMAIN val \subseteq DOMAIN val']_mvars
Over == \A t \in 0..N : pc[t] > Len(Line(t))
Finishes == <>Over

EmitProgram == (\A t \in 0..N : pc[t] = 1 /\ pend[t] = Idle) =>
  LET sh(t, l) == [i \in DOMAIN l |-> [op |-> l[i][1], a |-> Val(t, i), b |-> t + i, s |-> l[i][2]]]
  IN PrintT("@CASE " \o ToJson([first |-> sh(0, first), prog |-> [t \in 1..N |-> sh(t, prog[t])]]))

w(k) == <<"set", k>>
h(k) == <<"has", k>>
g(k) == <<"get", k>>
u(k) == <<"sub", k>>
firsts == { <<>>, <<w("a.b")>>, <<w("a"), w("e.f")>> }
progs == << <<w("a")>>, <<w("a.b")>>, <<w("a.b"), w("a.c")>>, <<w("a.b.d"), h("a.b.d")>>, <<h("a.b"), h("a.b")>>, <<g("a.b"), u("a")>>, <<u("a.b"), h("a.b.d")>>,
            <<w("e.f"), w("a.b")>>, <<w("a.b"), w("a.b")>>, <<w("a.c.x.y"), u("a.c.x")>>, <<h("zz"), w("zz"), g("zz")>>, <<w("e"), h("a"), g("e.f")>> >>
few == << <<w("a.b"), w("a.c")>>, <<w("a.b.d")>>, <<h("a.b"), u("a")>>, <<w("a.b"), g("a.c")>>, <<w("e.f"), w("a")>> >>
tiny == << <<w("a.b"), w("a.c")>>, <<w("a.b.d")>>, <<h("a.b"), u("a")>> >>
none == { <<>> }
t2 == 0..2
t3 == 0..3
=============================================================================
