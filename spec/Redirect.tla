------------------------------ MODULE Redirect ------------------------------
(* Scopes in which the standard streams go elsewhere, or in which the format *)
(* of a stream may be changed. They nest; when one ends, everything it       *)
(* replaced is back as it was at its beginning.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxScopes
VARIABLES to,      \* where the output streams go
          from,    \* where the input comes from
          fmt,     \* the format of each output stream
          scopes,  \* those that are open, the last one is the innermost
          sinks, read,   \* what was written to each, how many lines were read from each
          got, ops
vars == <<to, from, fmt, scopes, sinks, read, got, ops>>

Outs == {"cout", "cerr", "clog"}
Sinks == {"screen", "A", "B"}
Sources == {"keyboard", "X", "Y"}
None == "none"
Plain == [hex |-> FALSE, fill |-> " "]

Init == /\ to = [o \in Outs |-> "screen"] /\ from = "keyboard" /\ fmt = [o \in Outs |-> Plain] /\ scopes = <<>>
        /\ sinks = [s \in Sinks |-> <<>>] /\ read = [s \in Sources |-> 0] /\ got = <<>> /\ ops = <<>>

Log(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
Enter(what, o) == Len(scopes) < MaxScopes /\ scopes' = Append(scopes, what) /\ Log(o)
Else(x, old) == IF x = None THEN old ELSE x

\* a scope remembers what it has to bring back
One(dev, s) == /\ Enter([kind |-> "one", dev |-> dev, to |-> to[dev]], <<"one", dev, s>>)
               /\ to' = [to EXCEPT ![dev] = Else(s, @)] /\ UNCHANGED <<from, fmt, sinks, read, got>>
In(s) == /\ Enter([kind |-> "in", from |-> from], <<"in", s>>) /\ from' = Else(s, from) /\ UNCHANGED <<to, fmt, sinks, read, got>>
AllOf(o, i) == /\ Enter([kind |-> "all", to |-> to, from |-> from], <<"all", o, i>>)
               /\ to' = [d \in Outs |-> Else(o, to[d])] /\ from' = Else(i, from) /\ UNCHANGED <<fmt, sinks, read, got>>
Flags(dev) == Enter([kind |-> "flags", dev |-> dev, hex |-> fmt[dev].hex], <<"flags", dev>>) /\ UNCHANGED <<to, from, fmt, sinks, read, got>>
State(dev) == Enter([kind |-> "state", dev |-> dev, fmt |-> fmt[dev]], <<"state", dev>>) /\ UNCHANGED <<to, from, fmt, sinks, read, got>>

Leave ==
  /\ scopes # <<>> /\ Log(<<"leave">>) /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1)
  /\ LET s == scopes[Len(scopes)] IN
     /\ to' = CASE s.kind = "one" -> [to EXCEPT ![s.dev] = s.to] [] s.kind = "all" -> s.to [] OTHER -> to
     /\ from' = IF s.kind \in {"in", "all"} THEN s.from ELSE from
     /\ fmt' = CASE s.kind = "flags" -> [fmt EXCEPT ![s.dev].hex = s.hex] [] s.kind = "state" -> [fmt EXCEPT ![s.dev] = s.fmt] [] OTHER -> fmt
  /\ UNCHANGED <<sinks, read, got>>

Hex(dev, b)  == fmt' = [fmt EXCEPT ![dev].hex = b] /\ Log(<<"hex", dev, b>>) /\ UNCHANGED <<to, from, scopes, sinks, read, got>>
Fill(dev, c) == fmt' = [fmt EXCEPT ![dev].fill = c] /\ Log(<<"fill", dev, c>>) /\ UNCHANGED <<to, from, scopes, sinks, read, got>>

\* 255, five wide
Number(f) == IF f.hex THEN f.fill \o f.fill \o f.fill \o "ff" ELSE f.fill \o f.fill \o "255"
Write(dev) == /\ sinks' = [sinks EXCEPT ![to[dev]] = Append(@, dev \o ":" \o Number(fmt[dev]))]
              /\ Log(<<"write", dev>>) /\ UNCHANGED <<to, from, fmt, scopes, read, got>>
Read == /\ read' = [read EXCEPT ![from] = @ + 1] /\ got' = Append(got, from \o ToString(read[from] + 1))
        /\ Log(<<"read">>) /\ UNCHANGED <<to, from, fmt, scopes, sinks>>

Next == \/ \E d \in Outs, s \in {"A", "B", None} : One(d, s)
        \/ \E s \in {"X", "Y", None} : In(s)
        \/ \E o \in {"A", "B", None}, i \in {"X", None} : AllOf(o, i)
        \/ \E d \in Outs : Flags(d) \/ State(d) \/ Write(d) \/ (\E b \in BOOLEAN : Hex(d, b)) \/ (\E c \in {" ", "*"} : Fill(d, c))
        \/ Leave \/ Read

\* Out of all scopes, everything goes where it went.
Invariants == scopes = <<>> => from = "keyboard" /\ \A o \in Outs : to[o] = "screen"
Emit == Len(ops) = MaxOps => PrintT("@CASE " \o ToJson([ops |-> ops, sinks |-> sinks, got |-> got]))
=============================================================================
