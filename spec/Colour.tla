------------------------------- MODULE Colour -------------------------------
(* Coloured text: a terminal, and the colorizers which write to it.          *)
(* The terminal shows every text in the style that is in force when it       *)
(* arrives. A colorizer collects what is asked of it (modifiers on and off,  *)
(* colours, texts) and writes it when it is printed; a name of a style can   *)
(* also be written by itself. Nothing but text is written where no colours   *)
(* are wanted.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Colorizers,  \* how many can be alive
          Terms,       \* values of TERM
          Colours,     \* colours to ask for, <<"idx", n>>, <<"named", name, n>>, <<"rgb", r, g, b>> or <<"default">>
          Modifiers, Names, Texts, MaxOps, MaxPrints

VARIABLES envTerm, given, term, cols, cells, ops
vars == <<envTerm, given, term, cols, cells, ops>>

None  == <<"none">>
Plain == [attrs |-> {}, fg |-> None, bg |-> None]
AllModifiers == {"bold", "dim", "italic", "underline", "blink", "rblink", "reverse", "hidden", "crossed"}

\* Turning one off: a terminal has one code for bold and dim, and one for both of the blinks.
Family(m) == CASE m \in {"bold", "dim"} -> {"bold", "dim"} [] m \in {"blink", "rblink"} -> {"blink", "rblink"} [] OTHER -> {m}

\* What a style does to a terminal: <<"on", m>>, <<"off", m>>, <<"all">>, <<"fg", colour>>, <<"bg", colour>>
Apply(t, x) ==
  CASE x[1] = "on"  -> [t EXCEPT !.attrs = @ \cup {x[2]}]
    [] x[1] = "off" -> [t EXCEPT !.attrs = @ \ Family(x[2])]
    [] x[1] = "all" -> Plain
    [] x[1] = "fg"  -> [t EXCEPT !.fg = x[2]]
    [] x[1] = "bg"  -> [t EXCEPT !.bg = x[2]]
RECURSIVE ApplyAll(_, _)
ApplyAll(t, xs) == IF xs = <<>> THEN t ELSE ApplyAll(Apply(t, xs[1]), Tail(xs))

\* the terminals known to have colours
Colourful(name) == name \in {"xterm", "xterm-256color", "screen.linux", "rxvt-unicode", "vt100", "ansi", "linux", "my-color"}
Default == IF given # {} THEN CHOOSE g \in given : TRUE ELSE Colourful(envTerm)

Fresh == [mods |-> <<>>, fg |-> None, bg |-> None, cc |-> "", ss |-> "", auto |-> TRUE]
NoCol == [mods |-> <<>>, on |-> "no such"]
Alive == {k \in 1..Colorizers : "auto" \in DOMAIN cols[k]}

Text(s, t) == IF s = "" THEN <<>> ELSE <<[text |-> s, style |-> t]>>

Value(c) == IF c[1] = "named" THEN <<"idx", c[3]>> ELSE c

\* The terminal after the codes of colorizer c.
Styled(c, t) ==
  IF ~c.on THEN t
  ELSE LET m == ApplyAll(t, c.mods)
           f == IF c.fg \in {None, <<"default">>} THEN m ELSE Apply(m, <<"fg", Value(c.fg)>>)
       IN IF c.bg \in {None, <<"default">>} THEN f ELSE Apply(f, <<"bg", Value(c.bg)>>)

Emptied(c) == [Fresh EXCEPT !.auto = TRUE] @@ [on |-> c.on]

-----------------------------------------------------------------------------
Init == envTerm \in Terms /\ given = {} /\ term = Plain /\ cols = [k \in 1..Colorizers |-> NoCol] /\ cells = <<>> /\ ops = << <<"term", envTerm>> >>

Log(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)

SetTerm == \E e \in Terms \ {envTerm} : envTerm' = e /\ Log(<<"term", e>>) /\ UNCHANGED <<given, term, cols, cells>>
SetDefault == \E b \in BOOLEAN : given' = {b} /\ Log(<<"default", b>>) /\ UNCHANGED <<envTerm, term, cols, cells>>
New == \E k \in 1..Colorizers : cols' = [cols EXCEPT ![k] = Fresh @@ [on |-> Default]] /\ Log(<<"new", k>>) /\ UNCHANGED <<envTerm, given, term, cells>>

Ask(k, c, o) == cols' = [cols EXCEPT ![k] = c] /\ Log(o) /\ UNCHANGED <<envTerm, given, term, cells>>
Modify == \E k \in Alive, m \in Modifiers :
             \/ \E b \in BOOLEAN : Ask(k, [cols[k] EXCEPT !.mods = Append(@, <<IF b THEN "on" ELSE "off", m>>)], <<"mod", k, m, b>>)
             \/ Ask(k, [cols[k] EXCEPT !.mods = Append(@, <<"off", m>>)], <<"unmod", k, m>>)
ResetAll == \E k \in Alive : Ask(k, [cols[k] EXCEPT !.mods = << <<"all">> >>, !.fg = None, !.bg = None], <<"resetall", k>>)
Fg == \E k \in Alive, c \in Colours : Ask(k, [cols[k] EXCEPT !.fg = c], <<"fg", k, c>>)
Bg == \E k \in Alive, c \in Colours : Ask(k, [cols[k] EXCEPT !.bg = c], <<"bg", k, c>>)
Say == \E k \in Alive, s \in Texts :
          \/ Ask(k, [cols[k] EXCEPT !.cc = s], <<"cc", k, s>>)
          \/ Ask(k, [cols[k] EXCEPT !.ss = s], <<"ss", k, s>>)
Auto == \E k \in Alive, b \in BOOLEAN : Ask(k, [cols[k] EXCEPT !.auto = b], <<"auto", k, b>>)
Enable == \E k \in Alive, b \in BOOLEAN : Ask(k, [cols[k] EXCEPT !.on = b], <<"enable", k, b>>)
Clear == \E k \in Alive : Ask(k, Emptied(cols[k]), <<"clear", k>>)

\* Not stated: whether the default colour, asked for on a coloured terminal, is the one that is in force.
Decided(c, t) == LET m == IF c.on THEN ApplyAll(t, c.mods) ELSE Plain IN
                 (c.fg = <<"default">> => m.fg = None) /\ (c.bg = <<"default">> => m.bg = None)
Show == \E k \in Alive, how \in {"stream", "string"} :
  LET c == cols[k] t == Styled(c, term) IN
  /\ Decided(c, term)
  /\ Len(SelectSeq(ops, LAMBDA o : o[1] \in {"print", "name"})) < MaxPrints
  /\ cells' = cells \o Text(c.cc, t) \o Text(c.ss, t)
  /\ term' = IF c.auto /\ c.on THEN Plain ELSE t
  /\ cols' = [cols EXCEPT ![k] = IF c.auto THEN Emptied(c) ELSE c]
  /\ Log(<<"print", k, how>>) /\ UNCHANGED <<envTerm, given>>

\* The name of a style, written by itself. names: [what |-> ..., name |-> ..., does |-> ...]
Name == \E n \in Names :
  /\ Len(SelectSeq(ops, LAMBDA o : o[1] \in {"print", "name"})) < MaxPrints
  /\ term' = IF Default THEN Apply(term, n.does) ELSE term
  /\ Log(<<"name", n.what, n.name>>) /\ UNCHANGED <<envTerm, given, cols, cells>>
Write == \E s \in Texts \ {""} : cells' = cells \o Text(s, term) /\ Log(<<"write", s>>) /\ UNCHANGED <<envTerm, given, term, cols>>

Next == (SetTerm \/ SetDefault \/ New \/ Modify \/ ResetAll \/ Fg \/ Bg \/ Say \/ Auto \/ Enable \/ Clear \/ Show \/ Name \/ Write)

-----------------------------------------------------------------------------
\* Nothing is coloured if no colour was ever wanted.
NeverWanted == /\ \A i \in DOMAIN ops : ops[i] \notin {<<"default", TRUE>>} /\ ~(ops[i][1] = "enable" /\ ops[i][3])
               /\ \A i \in DOMAIN ops : ops[i][1] = "term" => ~Colourful(ops[i][2])
PlainInv == NeverWanted => term = Plain /\ \A i \in DOMAIN cells : cells[i].style = Plain
\* After a colorizer with auto reset, the terminal is as it was before anything.
ResetInv == (ops # <<>> /\ ops[Len(ops)][1] = "print" /\ cols[ops[Len(ops)][2]].auto /\ cols[ops[Len(ops)][2]].on) => term = Plain
\* A style is one that something asked for.
AskedInv == \A i \in DOMAIN cells : \A m \in cells[i].style.attrs :
              \E j \in DOMAIN ops : (ops[j][1] = "mod" /\ ops[j][3] = m) \/ (ops[j][1] = "name" /\ ops[j][2] = "style")
Invariants == PlainInv /\ ResetInv /\ AskedInv
=============================================================================
