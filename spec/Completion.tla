------------------------------ MODULE Completion ------------------------------
(* The completion of a command line in a shell: words are typed, some chosen *)
(* from what was offered; on Tab, what is offered are the titles that begin  *)
(* with what was typed of the word, of the commands and flags there are at   *)
(* the command the words before it lead to.                                  *)
EXTENDS Help

CONSTANTS MaxWords, MaxTabs, Sample, Shells
VARIABLES at,       \* the command the words lead to
          words,    \* typed so far, without the one the cursor is in
          tabs      \* what was asked and offered: [words, cur, offered]
vars == <<at, words, tabs>>

\* The titles of an item as they are offered: a flag with its dashes, and the placeholder of its value.
TitlesOf(x, flag) ==
  {LongText(x, flag)} \cup (IF x.short = "" THEN {} ELSE {ShortText(x, flag)})
  \cup {(IF flag THEN "--" ELSE "") \o x.aliases[i] : i \in DOMAIN x.aliases}

Items(s, flag) == UNION {TitlesOf(s[i], flag) : i \in DOMAIN s}
\* hidden ones too
Possible(c) == Items(SubsOf(c), FALSE) \cup UNION {Items(FlagsOf(Chain(c)[i]), TRUE) : i \in DOMAIN Chain(c)}

\* after these nothing is offered
Final == {"--help", "--version"}
Offered(c, ws, cur) == IF ws # <<>> /\ ws[Len(ws)] \in Final THEN {} ELSE {t \in Possible(c) : HasPrefix(t, cur)}

-----------------------------------------------------------------------------
Init == at = Root /\ words = <<>> /\ tabs = <<>>

Open == Len(words) < MaxWords /\ (IF words = <<>> THEN TRUE ELSE words[Len(words)] \notin Final)
\* a command, by any of its titles; what follows `help` and the like are no commands
GoTo(x, t) == Open /\ at' = x.id /\ words' = Append(words, t) /\ UNCHANGED tabs
\* a flag that takes no value, or one with its value in the next word
Plain(f) == f.type = "bool" /\ f.owner = at /\ f.long \notin {"version", "build-info", "tree", "debug", "trace", "cli", "shell-completion", "help"}
Flag(f, t) == Open /\ words' = Append(words, t) /\ UNCHANGED <<at, tabs>>
Valued(f, t, val) == Open /\ words' = words \o <<t, val>> /\ UNCHANGED <<at, tabs>>
Help(t) == Open /\ words' = Append(words, t) /\ UNCHANGED <<at, tabs>>
Tab(cur) == Len(tabs) < MaxTabs /\ tabs' = Append(tabs, [words |-> words, cur |-> cur, offered |-> Offered(at, words, cur)]) /\ UNCHANGED <<at, words>>

\* the beginnings of what there is, and of what there is not
Beginnings(c) == {Take(t, IF n > Len(t) THEN Len(t) ELSE n) : t \in Possible(c), n \in 1..3} \cup {"", "zz", "--zz", "-"}
=============================================================================
