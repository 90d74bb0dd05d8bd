------------------------------- MODULE Scopes -------------------------------
(* Scoped redirections of the standard streams and deferred actions: what is  *)
(* opened last ends first, normally or because an exception passes through.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Outs,     \* targets for output
          Ins,      \* sources of input
          MaxOps, MaxDepth, Sample

VARIABLES stack,    \* open scopes [kind, out, in, id]; out/in "" : nothing is redirected
          text,     \* sink -> what was written to it
          taken,    \* source -> how much was read from it
          ran,      \* actions that ran, in order
          ops, seen
vars == <<stack, text, taken, ran, ops, seen>>

Streams == {"cout", "cerr", "clog"}
Sinks == Streams \cup Outs      \* a stream's own sink carries its name
Sources == {"cin"} \cup Ins
Kinds == {"stdout", "stderr", "stdlog", "stdin", "all", "defer", "close", "closefn", "fnclose", "deduced"}
Init == /\ stack = <<>> /\ text = [s \in Sinks |-> <<>>] /\ taken = [s \in Sources |-> 0]
        /\ ran = <<>> /\ ops = <<>> /\ seen = <<>>

Redirects(f, s) == \/ f.out # "" /\ s # "cin" /\ (f.kind = "all" \/ <<f.kind, s>> \in {<<"stdout", "cout">>, <<"stderr", "cerr">>, <<"stdlog", "clog">>})
                   \/ f.in # "" /\ f.kind \in {"all", "stdin"} /\ s = "cin"
\* where a stream leads: to the target of the innermost scope that redirects it
Goes(s) == LET R == {i \in DOMAIN stack : Redirects(stack[i], s)} IN
           IF R = {} THEN s
           ELSE LET f == stack[CHOOSE i \in R : \A j \in R : j <= i] IN IF s = "cin" THEN f.in ELSE f.out
\* what an ending scope runs: the close of its object, then its action
Actions(f) == CASE f.kind = "defer" -> <<f.id>>
                [] f.kind \in {"close", "deduced"} -> << -f.id >>
                [] f.kind \in {"closefn", "fnclose"} -> << -f.id, f.id >>
                [] OTHER -> <<>>
RECURSIVE Unwound(_, _)
Unwound(st, k) == IF k = 0 THEN <<>> ELSE Actions(st[Len(st)]) \o Unwound(SubSeq(st, 1, Len(st) - 1), k - 1)

Do(o, got) == /\ ops' = Append(ops, o)
              /\ seen' = Append(seen, [got |-> got, ran |-> ran', goes |-> [s \in Streams |-> Len(text'[s])], len |-> [s \in Outs |-> Len(text'[s])]])
Op(name, kind, out, in, n) == [op |-> name, kind |-> kind, out |-> out, in |-> in, n |-> n]
Word == Len(ops) + 1
Open(kind, out, in) ==
  /\ Len(stack) < MaxDepth
  /\ kind \in {"stdout", "stderr", "stdlog"} => in = ""
  /\ kind = "stdin" => out = ""
  /\ kind \notin {"stdout", "stderr", "stdlog", "stdin", "all"} => out = "" /\ in = ""
  /\ stack' = Append(stack, [kind |-> kind, out |-> out, in |-> in, id |-> Word])
  /\ UNCHANGED <<text, taken, ran>> /\ Do(Op("open", kind, out, in, Word), 0)
Write(s) == /\ text' = [text EXCEPT ![Goes(s)] = Append(@, Word)]
            /\ UNCHANGED <<stack, taken, ran>> /\ Do(Op("write", s, "", "", Word), 0)
Read == /\ taken' = [taken EXCEPT ![Goes("cin")] = @ + 1]
        /\ UNCHANGED <<stack, text, ran>> /\ Do(Op("read", Goes("cin"), "", "", 0), taken[Goes("cin")] + 1)
\* k scopes end: by reaching their ends, or by an exception that is caught outside of the k-th
Leave(k, how) == /\ k <= Len(stack)
                 /\ stack' = SubSeq(stack, 1, Len(stack) - k)
                 /\ ran' = ran \o Unwound(stack, k)
                 /\ UNCHANGED <<text, taken>> /\ Do(Op(how, "", "", "", k), 0)

Pick(A) == IF Sample = 0 \/ Cardinality(A) <= 1 THEN A ELSE RandomSubset(1, A)
Next == /\ Len(ops) < MaxOps
        /\ \/ \E kind \in Pick(Kinds), out \in Pick(Outs \cup {""}), in \in Pick(Ins \cup {""}) : Open(kind, out, in)
           \/ \E s \in Pick(Streams) : Write(s)
           \/ Read
           \/ Leave(1, "close")
           \/ \E k \in Pick(1..MaxDepth) : Leave(k, "throw")

-----------------------------------------------------------------------------
\* every word went to exactly one place
Words == UNION {{text[s][i] : i \in DOMAIN text[s]} : s \in Sinks}
OneSink == \A s, r \in Sinks : \A i \in DOMAIN text[s] : \A j \in DOMAIN text[r] : (text[s][i] = text[r][j]) => (s = r /\ i = j)
AllWritten == Words = {ops[i].n : i \in {j \in DOMAIN ops : ops[j].op = "write"}}
\* outside of all scopes everything is as it was
Restored == stack = <<>> => \A s \in Streams \cup {"cin"} : Goes(s) = s
\* every action of an ended scope ran exactly once, none of an open scope did
Opened == {ops[i].n : i \in {j \in DOMAIN ops : ops[j].op = "open" /\ ops[j].kind \in {"defer", "closefn", "fnclose"}}}
Ended == Opened \ {stack[i].id : i \in DOMAIN stack}
RanOnce == \A n \in Opened : Cardinality({i \in DOMAIN ran : ran[i] = n}) = (IF n \in Ended THEN 1 ELSE 0)
\* ending a scope gives back what its opening took
Invariants == OneSink /\ AllWritten /\ Restored /\ RanOnce
Emit == (ops # <<>> /\ Len(ops) = MaxOps) =>
  PrintT("@CASE " \o ToJson([ops |-> ops, seen |-> seen, text |-> text, after |-> ran \o Unwound(stack, Len(stack))]))
=============================================================================
