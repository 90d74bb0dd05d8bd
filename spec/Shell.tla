-------------------------------- MODULE Shell --------------------------------
(* Commands run by process::exec, in rounds; the commands of one round run   *)
(* at the same time. A command is a script for a shell, and it is executed   *)
(* here as it is written, statement by statement: what it writes to either   *)
(* output, the status of each statement, and how it ends. All of it must be  *)
(* what is read from the exec afterwards, whenever and however it is read.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization

CONSTANTS Texts,      \* what is written
          Times,      \* how many times at once
          Codes, Signals, MaxStatements, MaxDepth, MaxRounds, MaxAtOnce, Ways,
          Sample      \* 1: a random choice of each kind only

VARIABLES script,  \* the statements of the command that is being written
          frames,  \* the shells it has open: the script itself, and subshells
          batch,   \* the commands of this round
          rounds
vars == <<script, frames, batch, rounds>>

\* A shell: what it has written, its last status, whether it has ended, whether anything of it is executed at all,
\* whether its error output joins the other one, and the number of its statements
Fresh(skip, both) == [out |-> <<>>, err |-> <<>>, code |-> 0, ended |-> FALSE, skip |-> skip, both |-> both, n |-> 0]
Top == frames[Len(frames)]
Live == ~Top.ended /\ ~Top.skip

\* The statement after "&&" and "||" is skipped depending on the last status.
Joins == {"", "&&", "||"}
Runs(j) == Live /\ (j = "" \/ (j = "&&" /\ Top.code = 0) \/ (j = "||" /\ Top.code # 0))
JoinOk(j) == Top.n > 0 \/ j = ""

Chunk(t, k) == <<[text |-> t, times |-> k]>>
Size == Len(script)

Pick(S) == IF Sample = 0 THEN S ELSE RandomSubset(1, S)

\* One statement more in the open shell; eff is what it does to it if it is executed.
Add(j, what, eff) ==
  /\ JoinOk(j) /\ Size < MaxStatements
  /\ script' = Append(script, <<j>> \o what)
  /\ frames' = [frames EXCEPT ![Len(frames)] = [(IF Runs(j) THEN eff ELSE Top) EXCEPT !.n = @ + 1]]
  /\ UNCHANGED <<batch, rounds>>

Out  == \E j \in Pick(Joins), t \in Pick(Texts), k \in Pick(Times) :
          Add(j, <<"out", t, k>>, [Top EXCEPT !.out = @ \o Chunk(t, k), !.code = 0])
Err  == \E j \in Pick(Joins), t \in Pick(Texts), k \in Pick(Times) :
          Add(j, <<"err", t, k>>, [(IF Top.both THEN [Top EXCEPT !.out = @ \o Chunk(t, k)] ELSE [Top EXCEPT !.err = @ \o Chunk(t, k)]) EXCEPT !.code = 0])
Test == \E j \in Pick(Joins), c \in Pick({0, 1}) : Add(j, <<"status", c>>, [Top EXCEPT !.code = c])
Long == \E j \in Pick(Joins) : Add(j, <<"long">>, [Top EXCEPT !.code = 0])
Exit == \E j \in Pick(Joins), c \in Pick(Codes) : Add(j, <<"exit", c>>, [Top EXCEPT !.code = c, !.ended = TRUE])
\* the whole command is ended by a signal
Kill == \E j \in Pick(Joins), s \in Pick(Signals) : Len(frames) = 1 /\ Add(j, <<"kill", s>>, [Top EXCEPT !.code = 128 + s, !.ended = TRUE])

Open == \E j \in Pick(Joins), both \in Pick(BOOLEAN) :
  /\ JoinOk(j) /\ Size < MaxStatements - 1 /\ Len(frames) <= MaxDepth
  /\ script' = Append(script, <<j, "(">>)
  /\ frames' = Append(frames, Fresh(~Runs(j), both \/ Top.both))
  /\ UNCHANGED <<batch, rounds>>
Close ==
  /\ Len(frames) > 1 /\ Top.n > 0
  /\ LET f == frames[Len(frames) - 1]
         joined == Top.both /\ ~f.both
     IN /\ script' = Append(script, <<"", IF joined THEN ")2>&1" ELSE ")">>)
        /\ frames' = [SubSeq(frames, 1, Len(frames) - 1) EXCEPT ![Len(frames) - 1] =
             IF Top.skip THEN [f EXCEPT !.n = @ + 1]
             ELSE [f EXCEPT !.out = @ \o Top.out, !.err = @ \o Top.err, !.code = Top.code, !.n = @ + 1]]
  /\ UNCHANGED <<batch, rounds>>

\* The command is complete; its results are to be read in one of the ways, at once or when everything else is over.
Run == \E way \in Pick(Ways), late \in Pick(BOOLEAN) :
  /\ Len(frames) = 1 /\ Top.n > 0 /\ Len(batch) < MaxAtOnce
  /\ batch' = Append(batch, [script |-> script, out |-> Top.out, err |-> Top.err, code |-> Top.code, way |-> way, late |-> late])
  /\ script' = <<>> /\ frames' = <<Fresh(FALSE, FALSE)>>
  /\ UNCHANGED rounds
Round == /\ batch # <<>> /\ script = <<>> /\ Len(rounds) < MaxRounds
         /\ rounds' = Append(rounds, batch) /\ batch' = <<>> /\ UNCHANGED <<script, frames>>

Init == script = <<>> /\ frames = <<Fresh(FALSE, FALSE)>> /\ batch = <<>> /\ rounds = <<>>
Next == Len(rounds) < MaxRounds /\ (Out \/ Err \/ Test \/ Long \/ Exit \/ Kill \/ Open \/ Close \/ Run \/ Round)

-----------------------------------------------------------------------------
Has(s, w) == \E i \in DOMAIN s : s[i][2] = w
All == UNION {{rounds[i][k] : k \in DOMAIN rounds[i]} : i \in DOMAIN rounds}
\* Without statements that write, nothing is written; a status comes from a statement.
SilentInv == \A c \in All : (~Has(c.script, "out") /\ ~Has(c.script, "err") => c.out = <<>>) /\ (~Has(c.script, "err") => c.err = <<>>)
CodeInv == \A c \in All : c.code \in {0, 1} \cup Codes \cup {128 + s : s \in Signals}
Invariants == SilentInv /\ CodeInv
=============================================================================
