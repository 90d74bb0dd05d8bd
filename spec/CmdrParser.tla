----------------------------- MODULE CmdrParser -----------------------------
(* The command-line processor: an application owns a tree of commands and    *)
(* flags; a run first loads values from the outside (loader, environment),   *)
(* then reads the words of the command line one by one, and finally answers  *)
(* a built-in request, shows a help screen, or invokes the command reached.  *)
(*                                                                           *)
(* The words are chosen by the environment one at a time (action Word), so a *)
(* behaviour of this specification is a history of runs over all command     *)
(* lines made of Alphabet, and every line shares the states of its prefixes. *)
(* Each completed behaviour is emitted (operator Emit) as a test case with   *)
(* the outcome this specification demands; the conformance driver runs it    *)
(* against the real library.                                                 *)
EXTENDS Similarity, Json, Randomization

CONSTANTS
  UserCmds,   \* id -> [long, short, aliases, owner, hidden, hit]
  UserFlags,  \* id -> [cmd, long, short, aliases, type, dflt, group, required, hidden, envs, act]
  Alphabet,   \* the words a command line may contain
  FirstWords, \* the words it may begin with
  AfterPass,  \* the words that may follow a bare "--"
  AfterStop,  \* the words that may follow after the run was stopped
  Sample,     \* 0: all words are tried; n: only n random words (for simulation)
  MaxWords,   \* bound on the words of one line
  MaxRuns,    \* bound on the runs of one history
  EnvSets,    \* environments: sets of functions variable -> text
  LoadSets,   \* what external loaders set: sets of sequences of [key, t, v]
  HandlerSets,\* behaviours of the handlers: sets of functions slot -> code
  OptSets,    \* application options: set of [strictCmd, strictFlag, nocatch]
  AllowReset, \* may a history reset and rebuild the application between runs?
  Suggesting, \* are the titles suggested for an unknown word of interest?
  DoneWords   \* only lines with at least that many words are emitted

VARIABLES
  phase, \* "idle": before a run; "words": reading words; "value": a flag waits for the next word as its value;
         \* "pass": after a bare "--"; "done": the run has ended
  app,   \* the application: [store, val, chits, fhits, chosen]
  run,   \* the run: see NewRun
  hist   \* the finished steps of this history

vars == <<phase, app, run, hist>>

-----------------------------------------------------------------------------
(* The menu: the built-in commands and flags and those of the user.          *)
C(l, s, al, o, hid) == [long |-> l, short |-> s, aliases |-> al, owner |-> o, hidden |-> hid, hit |-> -1]
F(c, l, s, al, t, d, g, hid, envs, act) ==
  [cmd |-> c, long |-> l, short |-> s, aliases |-> al, type |-> t, dflt |-> d, group |-> g,
   required |-> FALSE, hidden |-> hid, envs |-> envs, act |-> act]

OK == 0  ReqHelp == 10  ReqBuild == 11  ReqVersion == 12  ReqTree == 13  ReqManual == 14  ReqDebug == 20
Continue == 31  Abortion == 33
Thrown == -1000    \* the run ends with an exception instead of a result
NoHandler == 99   \* the flag or command has no hit handler

BuiltinCmds ==
     "help"            :> C("help", "h", {"info", "usages"}, "", TRUE)
  @@ "version"         :> C("version", "V", {"versions", "ver"}, "", TRUE)
  @@ "print"           :> C("print", "pr", {"display"}, "", TRUE)
  @@ "generate"        :> C("generate", "g", {"gen"}, "", TRUE)
  @@ "generate.doc"    :> C("doc", "d", {"markdown", "docx", "pdf", "tex"}, "generate", FALSE)
  @@ "generate.manual" :> C("manual", "m", {"man"}, "generate", FALSE)
  @@ "generate.shell"  :> C("shell", "s", {"sh", "comp", "completion"}, "generate", FALSE)

BuiltinFlags ==
     "help"             :> F("", "help", "h", {"?", "info", "usages"}, "bool", "false", "", TRUE, <<"HELP">>, ReqHelp)
  @@ "version"          :> F("", "version", "V", {"versions", "ver"}, "bool", "false", "", TRUE, <<"VERSIONS">>, ReqVersion)
  @@ "version-sim"      :> F("", "version-sim", "vs", {}, "string", "", "", TRUE, <<"VERSION_SIM">>, NoHandler)
  @@ "build-info"       :> F("", "build-info", "#", {"bdinfo"}, "bool", "false", "", TRUE, <<>>, ReqBuild)
  @@ "verbose"          :> F("", "verbose", "v", {}, "bool", "false", "", FALSE, <<"VERBOSE">>, NoHandler)
  @@ "quiet"            :> F("", "quiet", "q", {}, "bool", "false", "", FALSE, <<"QUIET">>, NoHandler)
  @@ "feel-like"        :> F("", "feel-like", "bet", {"bet"}, "bool", "false", "", TRUE, <<"FEEL_LIKE">>, NoHandler)
  @@ "no-color"         :> F("", "no-color", "nc", {}, "bool", "false", "", TRUE, <<"PLAIN", "NO_COLOR">>, NoHandler)
  @@ "shell-completion" :> F("", "shell-completion", "sc", {}, "bool", "false", "", TRUE, <<"SHELL_COMPLETION">>, Continue)
  @@ "tree"             :> F("", "tree", "", {}, "bool", "false", "", TRUE, <<>>, ReqTree)
  @@ "debug"            :> F("", "debug", "D", {"debug-mode"}, "bool", "false", "", FALSE, <<"DEBUG">>, OK)
  @@ "cli"              :> F("", "cli", "", {}, "bool", "false", "", TRUE, <<>>, NoHandler)
  @@ "trace"            :> F("", "trace", "tr", {"trace-mode"}, "bool", "false", "", FALSE, <<"TRACE">>, NoHandler)
  @@ "generate.feel-like" :> F("generate", "feel-like", "bet", {"bet"}, "bool", "false", "", FALSE, <<"FEEL_LIKE">>, NoHandler)
  @@ "generate.dry-run" :> F("generate", "dry-run", "dry", {"dry"}, "bool", "false", "", FALSE, <<"DRY_RUN">>, NoHandler)
  @@ "generate.stdout"  :> F("generate", "stdout", "c", {}, "bool", "false", "", FALSE, <<"STDOUT">>, NoHandler)
  @@ "generate.doc.pages" :> F("generate.doc", "pages", "pg", {}, "bool", "false", "", FALSE, <<>>, NoHandler)
  @@ "generate.doc.start-number" :> F("generate.doc", "start-number", "sn", {"start"}, "int", "1", "", FALSE, <<>>, NoHandler)
  @@ "generate.shell.drop" :> F("generate.shell", "drop", "d", {"remove", "uninstall"}, "bool", "false", "", FALSE, <<>>, NoHandler)
  @@ "generate.shell.auto" :> F("generate.shell", "auto", "a", {}, "bool", "true", "which-shell", FALSE, <<>>, NoHandler)
  @@ "generate.shell.bash" :> F("generate.shell", "bash", "b", {}, "bool", "false", "which-shell", FALSE, <<>>, NoHandler)
  @@ "generate.shell.zsh"  :> F("generate.shell", "zsh", "z", {}, "bool", "false", "which-shell", FALSE, <<>>, NoHandler)
  @@ "generate.shell.fish" :> F("generate.shell", "fish", "f", {}, "bool", "false", "which-shell", FALSE, <<>>, NoHandler)
  @@ "generate.shell.name" :> F("generate.shell", "name", "n", {}, "string", "", "", FALSE, <<>>, NoHandler)

Root  == ""
Cmds  == UserCmds @@ BuiltinCmds
Flags == UserFlags @@ BuiltinFlags
CmdIds  == DOMAIN Cmds
FlagIds == DOMAIN Flags
AnyCmd  == CmdIds \cup {Root}

Children   == [c \in AnyCmd |-> {k \in CmdIds : Cmds[k].owner = c}]
IsLeaf(c)  == Children[c] = {}
OwnFlags   == [c \in AnyCmd |-> {f \in FlagIds : Flags[f].cmd = c}]
RECURSIVE ChainOf(_)
ChainOf(c) == IF c = Root THEN <<Root>> ELSE <<c>> \o ChainOf(Cmds[c].owner)
Chain == [c \in AnyCmd |-> ChainOf(c)]   \* the command, its owner, ..., the root

\* the titles of the flags of a command: <<title, flag>>
LongTitles  == [c \in AnyCmd |-> UNION {{<<t, f>> : t \in {Flags[f].long} \cup Flags[f].aliases} : f \in OwnFlags[c]}]
ShortTitles == [c \in AnyCmd |-> {<<Flags[f].short, f>> : f \in {g \in OwnFlags[c] : Flags[g].short # ""}}]

Key(f) == "app.cli." \o f
ASSUME \A k \in CmdIds : k = (IF Cmds[k].owner = "" THEN "" ELSE Cmds[k].owner \o ".") \o Cmds[k].long
ASSUME \A k \in FlagIds : k = (IF Flags[k].cmd = "" THEN "" ELSE Flags[k].cmd \o ".") \o Flags[k].long
CKey(c, name) == IF c = Root THEN "app.cli." \o name ELSE "app.cli." \o c \o "." \o name
GroupFlags == [c \in AnyCmd |-> [g \in {Flags[f].group : f \in {x \in OwnFlags[c] : Flags[x].group # "" /\ Flags[x].type = "bool"}}
                                  |-> {f \in OwnFlags[c] : Flags[f].group = g /\ Flags[f].type = "bool"}]]

\* Before any choice a group reports its member that is on by default.  (In the menus used at most one
\* member is; if none is, the group reports the first one added: the user's menus list members in order.)
CONSTANTS CmdOrder, FlagOrder   \* the order in which the user's commands and flags are added
FirstOf(fs) == LET i == CHOOSE i \in DOMAIN FlagOrder : FlagOrder[i] \in fs /\ \A j \in DOMAIN FlagOrder : FlagOrder[j] \in fs => i <= j
               IN FlagOrder[i]
DefaultChoice(c, g) ==
  LET on == {f \in GroupFlags[c][g] : Flags[f].dflt = "true"} IN
  IF on # {} THEN Flags[CHOOSE f \in on : TRUE].long ELSE Flags[FirstOf(GroupFlags[c][g])].long

NoHit == [n |-> 0, title |-> "", long |-> FALSE, spec |-> FALSE, env |-> FALSE]

FreshStore == [k \in {Key(f) : f \in FlagIds} |->
                 LET f == CHOOSE f \in FlagIds : Key(f) = k IN [t |-> Flags[f].type, v |-> Flags[f].dflt]]
FreshApp == [store |-> FreshStore,
             chits |-> [c \in CmdIds |-> NoHit], fhits |-> [f \in FlagIds |-> NoHit],
             chosen |-> [c \in AnyCmd |-> [g \in DOMAIN GroupFlags[c] |-> DefaultChoice(c, g)]]]

Put(store, k, t, v) == (k :> [t |-> t, v |-> v]) @@ store

-----------------------------------------------------------------------------
(* One run.                                                                  *)
NewRun(env, load, hs, opts) ==
  [env |-> env, load |-> load, hs |-> hs, opts |-> opts,
   argv |-> <<>>,     \* the words chosen so far
   n |-> 0,           \* how many of them have been used
   use |-> <<>>,      \* what each word was used as
   path |-> <<>>,     \* the commands matched
   remain |-> <<>>,   \* the positional words
   rc |-> OK,         \* result of the last command or flag word
   stop |-> FALSE,    \* a handler or an unknown word ended the run
   pend |-> <<>>,     \* the flag waiting for a value: <<[kind, body, pos, f, title]>>
   sel |-> <<>>,      \* the selections made: <<flag or command, title>>
   log |-> <<>>,      \* calls of handlers
   screens |-> <<>>,  \* screens printed
   unknown |-> <<>>,  \* unknown words met
   suggest |-> {},    \* what is suggested in place of the unknown word that ended the run
   badval |-> <<>>,   \* flags whose value could not be read
   ret |-> 0]

IdleRun == NewRun(<<>>, <<>>, <<>>, [strictCmd |-> TRUE, strictFlag |-> TRUE, nocatch |-> FALSE])

Cur(r) == IF r.path = <<>> THEN Root ELSE r.path[Len(r.path)]

\* A state of the computation is a pair [a |-> app, r |-> run].
LogCall(st, ev) == [st EXCEPT !.r.log = Append(@, ev)]

(* ---- loading values from the outside ------------------------------------ *)
EnvName(k) == LET Sub(c) == IF c \in {".", "-"} THEN "_" ELSE c IN Upper(MapText(Sub, k))

FreshEnvNames == [k \in DOMAIN FreshStore |-> EnvName(k)]
KeyEnvName(k) == IF k \in DOMAIN FreshEnvNames THEN FreshEnvNames[k] ELSE EnvName(k)

RECURSIVE ApplyLoad(_, _)
ApplyLoad(store, ld) == IF ld = <<>> THEN store
                        ELSE ApplyLoad(Put(store, ld[1].key, ld[1].t, ld[1].v), Tail(ld))

\* A variable named after the dotted key of a stored value.
ApplyKeyEnv(store, env) ==
  [k \in DOMAIN store |->
     LET n == KeyEnvName(k) IN
     IF n \in DOMAIN env
     THEN LET p == ReadValue(env[n], store[k].t) IN IF p.ok THEN [t |-> store[k].t, v |-> p.v] ELSE store[k]
     ELSE store[k]]

\* The variables bound to a flag, in the order they were bound.
RECURSIVE ApplyVars(_, _, _, _)
ApplyVars(a, f, vs, env) ==
  IF vs = <<>> THEN a
  ELSE IF vs[1] \notin DOMAIN env THEN ApplyVars(a, f, Tail(vs), env)
  ELSE LET k == Key(f)
           p == ReadValue(env[vs[1]], a.store[k].t)
           s == IF p.ok THEN Put(a.store, k, a.store[k].t, p.v) ELSE a.store
           h == [a.fhits[f] EXCEPT !.n = @ + 1, !.title = vs[1], !.long = TRUE, !.spec = FALSE, !.env = TRUE]
       IN ApplyVars([a EXCEPT !.store = s, !.fhits[f] = h], f, Tail(vs), env)

EnvFlags(env) == {f \in FlagIds : \E i \in DOMAIN Flags[f].envs : Flags[f].envs[i] \in DOMAIN env}
RECURSIVE ApplyFlagEnv(_, _, _)
ApplyFlagEnv(a, fs, env) ==
  IF fs = {} THEN a
  ELSE LET f == CHOOSE f \in fs : TRUE
       IN ApplyFlagEnv(ApplyVars(a, f, Flags[f].envs, env), fs \ {f}, env)

Prepare(a, env, ld) ==
  LET s1 == ApplyLoad(a.store, ld)
      s2 == IF DOMAIN env = {} THEN s1 ELSE ApplyKeyEnv(s1, env)
  IN ApplyFlagEnv([a EXCEPT !.store = s2], EnvFlags(env), env)

(* ---- command words ------------------------------------------------------- *)
FindCmd(c, w) ==
  LET byLong  == {k \in Children[c] : w = Cmds[k].long \/ w \in Cmds[k].aliases}
      byShort == {k \in Children[c] : w = Cmds[k].short /\ w # ""}
  IN IF byLong # {} THEN [k |-> CHOOSE k \in byLong : TRUE, long |-> TRUE]
     ELSE IF byShort # {} THEN [k |-> CHOOSE k \in byShort : TRUE, long |-> FALSE]
     ELSE [k |-> "", long |-> FALSE]

Use(st, what) == [st EXCEPT !.r.n = @ + 1, !.r.use = Append(@, what)]

\* Titles resemble an unknown word if their similarity is at least 0.83.
Similar(x, t) == t # "" /\ AtLeast(Jaro(x, t), 83, 100)
AllTitles == UNION {{Cmds[k].long, Cmds[k].short} \cup Cmds[k].aliases : k \in CmdIds}
             \cup UNION {{Flags[f].long, Flags[f].short} \cup Flags[f].aliases : f \in FlagIds}
Bodies == UNION {{w, Drop(w, 1), Drop(w, 2)} : w \in Alphabet \cup FirstWords}
SimilarTitles == [x \in Bodies |-> {t \in AllTitles : Similar(x, t)}]
CmdTitles(k) == {Cmds[k].long, Cmds[k].short} \cup Cmds[k].aliases
FlagTitles(f, short) == IF short THEN {Flags[f].short} ELSE {Flags[f].long} \cup Flags[f].aliases

\* for a command word: titles of the sub-commands; for a flag: titles of the flags of the command and its ancestors
SuggestCmds(c, w) == IF Suggesting THEN UNION {CmdTitles(k) : k \in Children[c]} \cap SimilarTitles[w] ELSE {}
SuggestFlags(c, body, short) ==
  IF Suggesting THEN UNION {UNION {FlagTitles(f, short) : f \in OwnFlags[Chain[c][i]]} : i \in DOMAIN Chain[c]} \cap SimilarTitles[body] ELSE {}

\* In the feel-like mode the sub-command with the most similar title is taken instead.
FeelLike(st) == st.a.store[Key("feel-like")].v = "true"
Likeness(k, w) == LET js == {Jaro(w, t) : t \in CmdTitles(k)} IN CHOOSE x \in js : \A y \in js : ~Above(y, x)
MostAlike(c, w) ==
  LET ks == {k \in Children[c] : AtLeast(Likeness(k, w), 83, 100)} IN
  IF ks = {} THEN "" ELSE CHOOSE k \in ks : \A o \in ks : ~Above(Likeness(o, w), Likeness(k, w))

\* Not stated: which one is taken if several are the most alike.
Undecided(st, w) ==
  Suggesting /\ FeelLike(st) /\
  LET ks == {k \in Children[Cur(st.r)] : AtLeast(Likeness(k, w), 83, 100)} IN
  Cardinality({k \in ks : \A o \in ks : ~Above(Likeness(o, w), Likeness(k, w))}) > 1

UnknownCmd(st, w) ==
  LET s1 == [st EXCEPT !.r.unknown = Append(@, w)] IN
  IF ~st.r.opts.strictCmd THEN [s1 EXCEPT !.r.rc = Continue]
  ELSE LET alike == IF FeelLike(st) THEN MostAlike(Cur(st.r), w) ELSE "" IN
       IF alike # "" THEN [s1 EXCEPT !.r.rc = Continue, !.r.path = Append(@, alike)]
       ELSE [s1 EXCEPT !.r.stop = TRUE, !.r.rc = Abortion, !.r.suggest = SuggestCmds(Cur(st.r), w)]

CommandWord(st0, w) ==
  LET m == FindCmd(Cur(st0.r), w) IN
  IF m.k = "" THEN UnknownCmd(Use(st0, "unknown"), w)
  ELSE LET st == Use(st0, "cmd")
           h  == [st.a.chits[m.k] EXCEPT !.n = @ + 1, !.title = w, !.long = m.long, !.spec = FALSE]
           s1 == [st EXCEPT !.a.chits[m.k] = h, !.r.path = Append(@, m.k), !.r.sel = Append(@, <<"cmd", m.k, w>>)]
           s2 == LogCall(s1, [e |-> "cmd-matched", id |-> m.k, from |-> 0])
       IN IF Cmds[m.k].hit = -1 THEN [s2 EXCEPT !.r.rc = Continue]
          ELSE LET s3 == LogCall(s2, [e |-> "cmd-hit", id |-> m.k, from |-> st.r.n])
                   rc == Cmds[m.k].hit
               IN [s3 EXCEPT !.r.rc = rc, !.r.stop = (rc < OK \/ rc >= Abortion)]

(* ---- flag words ---------------------------------------------------------- *)
\* The flag selected by the text: longest title, nearest scope.
MatchFlag(c, text, kind) ==
  LET titles == IF kind = "short" THEN ShortTitles ELSE LongTitles
      ch     == Chain[c]
      cand(i) == {x \in titles[ch[i]] : HasPrefix(text, x[1])}
      all    == UNION {{<<i, x[1], x[2]>> : x \in cand(i)} : i \in DOMAIN ch}
  IN IF all = {} THEN [f |-> "", title |-> ""]
     ELSE LET b == CHOOSE x \in all : \A y \in all : Len(y[2]) < Len(x[2]) \/ (Len(y[2]) = Len(x[2]) /\ x[1] <= y[1])
          IN [f |-> b[3], title |-> b[2]]

HitFlag(st, f, title, kind) ==
  LET o == st.a.fhits[f]
      h == [o EXCEPT !.n = @ + 1, !.title = title,
                     !.long = (kind # "short") \/ @, !.spec = (kind = "special") \/ @]
  IN [st EXCEPT !.a.fhits[f] = h, !.r.sel = Append(@, <<"flag", f, title>>)]

\* Storing a value that was given on the command line.
StoreValue(st, f, v) ==
  LET fl == Flags[f]
      s1 == Put(st.a.store, Key(f), fl.type, v)
  IN IF fl.group = "" \/ fl.type # "bool" THEN [st EXCEPT !.a.store = s1]
     ELSE LET others == GroupFlags[fl.cmd][fl.group] \ {f}
              s2 == [k \in DOMAIN s1 |-> IF \E o \in others : Key(o) = k THEN [t |-> "bool", v |-> "false"] ELSE s1[k]]
              s3 == Put(s2, CKey(fl.cmd, fl.group), "string", fl.long)
          IN [st EXCEPT !.a.store = s3, !.a.chosen[fl.cmd][fl.group] = fl.long]

Matched(st, f) == LogCall(st, [e |-> "arg-matched", id |-> f, from |-> 0])

\* The hit handler of a flag; rc0 is the result so far for this word.
FlagHandler(st, f) ==
  IF Flags[f].act = NoHandler THEN st
  ELSE LET act == IF f = "debug" /\ st.a.fhits[f].spec THEN ReqDebug ELSE Flags[f].act
           s1  == IF f \in DOMAIN UserFlags
                  THEN LogCall(st, [e |-> "flag-hit", id |-> f, from |-> st.r.n]) ELSE st
       IN [s1 EXCEPT !.r.rc = act, !.r.stop = (act < OK \/ act >= Abortion)]

UnknownFlag(st, w, kind, body) ==
  LET s1 == [st EXCEPT !.r.unknown = Append(@, w)] IN
  IF st.r.opts.strictFlag
  THEN [s1 EXCEPT !.r.stop = TRUE, !.r.rc = Abortion, !.r.suggest = SuggestFlags(Cur(st.r), body, kind = "short")]
  ELSE [s1 EXCEPT !.r.rc = Continue]

\* Reads the flags in body, from position pos on. The word itself has been used already.
RECURSIVE FlagText(_, _, _, _, _)
FlagText(st, kind, w, body, pos) ==
  LET text == Drop(body, pos)
      m    == MatchFlag(Cur(st.r), text, kind)
  IN IF m.f = "" THEN UnknownFlag(st, w, kind, body)
     ELSE
     LET s1   == HitFlag(st, m.f, m.title, kind)
         rest == Drop(text, Len(m.title))
         More(s, p) == IF s.r.stop \/ p >= Len(body) THEN s ELSE FlagText(s, kind, w, body, p)
     IN IF Flags[m.f].type = "bool"
        THEN LET sgn == IF rest # "" /\ Ch(rest, 1) \in {"-", "+"} THEN Ch(rest, 1) ELSE ""
                 s2  == FlagHandler(Matched(StoreValue(s1, m.f, IF sgn = "-" THEN "false" ELSE "true"), m.f), m.f)
             IN More(s2, pos + Len(m.title) + Len(sgn))
        ELSE LET eq    == IF rest # "" /\ Ch(rest, 1) = "=" THEN 1 ELSE 0
                 lead  == eq + SpanFrom(rest, eq, Quotes)
                 given == StripQuotes(Drop(rest, eq))
             IN IF given = ""
                THEN \* the value is the next word, if there is one
                     [s1 EXCEPT !.r.pend = <<[kind |-> kind, f |-> m.f]>>]
                ELSE LET p == ReadValue(given, Flags[m.f].type) IN
                     IF p.ok
                     THEN LET s2 == FlagHandler(Matched(StoreValue(s1, m.f, p.v), m.f), m.f)
                          IN More(s2, pos + Len(m.title) + (IF p.read >= Len(given) THEN Len(rest) ELSE lead + p.read))
                     ELSE LET s2 == FlagHandler([s1 EXCEPT !.r.badval = Append(@, m.f)], m.f)
                          IN IF s2.r.stop THEN s2 ELSE [s2 EXCEPT !.r.rc = Continue]

FlagWord(st, kind, w, body) == FlagText([Use(st, "flag") EXCEPT !.r.rc = Continue], kind, w, body, 0)

\* The pending flag is offered the next word.
ValueWord(st0, w) ==
  LET f  == st0.r.pend[1].f
      p  == ReadValue(w, Flags[f].type)
      st == [st0 EXCEPT !.r.pend = <<>>]
  IN IF p.ok THEN FlagHandler(Matched(StoreValue(Use(st, "value"), f, p.v), f), f)
     ELSE LET s2 == FlagHandler([st EXCEPT !.r.badval = Append(@, f)], f)
          IN IF s2.r.stop THEN s2 ELSE [s2 EXCEPT !.r.rc = Continue]

\* There is no next word for the pending flag: its value is the empty text.
NoValue(st0) ==
  LET f  == st0.r.pend[1].f
      p  == ReadValue("", Flags[f].type)
      st == [st0 EXCEPT !.r.pend = <<>>]
  IN IF p.ok THEN FlagHandler(Matched(StoreValue(st, f, p.v), f), f)
     ELSE LET s2 == FlagHandler([st EXCEPT !.r.badval = Append(@, f)], f)
          IN IF s2.r.stop THEN s2 ELSE [s2 EXCEPT !.r.rc = Continue]

\* An ordinary word, in reading position.
PlainWord(st, w) ==
  IF w = "" THEN Use(st, "empty")
  ELSE IF HasPrefix(w, "~~") THEN FlagWord(st, "special", w, Drop(w, 2))
  ELSE IF w = "--" THEN Use(st, "--")
  ELSE IF HasPrefix(w, "--") THEN FlagWord(st, "long", w, Drop(w, 2))
  ELSE IF Ch(w, 1) \in {"-", "/"} THEN FlagWord(st, "short", w, Drop(w, 1))
  ELSE IF IsLeaf(Cur(st.r)) THEN [Use(st, "positional") EXCEPT !.r.remain = Append(@, w)]
  ELSE CommandWord(st, w)

(* ---- the end of a run ----------------------------------------------------- *)
Screen(st, s) == [st EXCEPT !.r.screens = Append(@, s)]
VersionText(a) == IF a.store[Key("version-sim")].v = "" THEN "VERSION" ELSE a.store[Key("version-sim")].v

Internal(st, rc) ==
  CASE rc = ReqHelp    -> Screen(st, <<"help", Cur(st.r)>>)
    [] rc = ReqVersion -> Screen(st, <<"version", VersionText(st.a)>>)
    [] rc = ReqBuild   -> Screen(st, <<"buildinfo", "">>)
    [] rc = ReqTree    -> Screen(st, <<"tree", Cur(st.r)>>)
    [] rc = ReqDebug   -> Screen(st, <<"debug", Cur(st.r)>>)
    [] OTHER           -> st

Missing(a, c) == \E i \in DOMAIN Chain[c] : \E f \in OwnFlags[Chain[c][i]] : Flags[f].required /\ a.fhits[f].n < 1

\* Codes of handler behaviour: <<"none">>, <<"ret", k>>, <<"throw">> (a standard exception), <<"request", action>>.
Slot(st, s) == IF s \in DOMAIN st.r.hs THEN st.r.hs[s] ELSE <<"none">>

\* one handler: result [st, rc, ex]
Call(st, slot, c) ==
  LET h == Slot(st, slot) IN
  IF h[1] = "none" THEN [st |-> st, rc |-> 0, ex |-> <<>>]
  ELSE LET s1 == LogCall(st, [e |-> slot, id |-> c, from |-> -1])
       IN [st |-> s1, rc |-> (IF h[1] = "ret" THEN h[2] ELSE 0), ex |-> (IF h[1] \in {"throw", "request"} THEN h ELSE <<>>)]

Finish(x) == \* x: [st, rc, ex]; an exception becomes the built-in answer it asks for, or the result -1
  IF x.ex = <<>> THEN [x.st EXCEPT !.r.ret = x.rc]
  ELSE IF x.ex[1] = "request" THEN Internal(x.st, x.ex[2])
  ELSE [x.st EXCEPT !.r.ret = -1]

Post(x, c) == \* the post handlers, always both unless one throws; the built-in commands have none of their own
  LET p1 == IF c \in DOMAIN BuiltinCmds THEN [st |-> x.st, rc |-> 0, ex |-> <<>>] ELSE Call(x.st, "post", c) IN
  IF p1.ex # <<>> THEN p1
  ELSE LET p2 == Call(p1.st, "gpost", c) IN
       IF p2.ex # <<>> THEN p2 ELSE [st |-> p2.st, rc |-> x.rc, ex |-> x.ex]

HelpPath(ws) ==
  LET RECURSIVE go(_, _)
      go(c, i) == IF i > Len(ws) THEN c
                  ELSE LET ks == {k \in Children[c] : ws[i] = Cmds[k].long}
                           es == {k \in Children[c] : ws[i] = Cmds[k].short \/ ws[i] \in Cmds[k].aliases}
                       IN IF ks # {} THEN go(CHOOSE k \in ks : TRUE, i + 1)
                          ELSE IF es # {} THEN go(CHOOSE k \in es : TRUE, i + 1)
                          ELSE Root
  IN go(Root, 1)

InvokeCmd(st, c) ==
  IF c = "version"
  THEN LET g == Call(st, "gpre", c) IN
       IF g.ex # <<>> THEN Finish(g)
       ELSE IF g.rc # 0 THEN Finish(Post(g, c))
       ELSE Internal(g.st, ReqVersion)
  ELSE
  LET g  == Call(st, "gpre", c)
      builtin == c \in DOMAIN BuiltinCmds
      p  == IF g.ex # <<>> \/ g.rc # 0 \/ builtin THEN g ELSE Call(g.st, "pre", c)
      hooked == builtin \/ Slot(st, "inv")[1] # "none"
      i  == IF p.ex # <<>> \/ p.rc # 0 THEN p
            ELSE IF c = "help" THEN [st |-> Screen(p.st, <<"help", HelpPath(st.r.remain)>>), rc |-> 0, ex |-> <<>>]
            ELSE IF builtin THEN p
            ELSE IF hooked THEN Call(p.st, "inv", c)
            ELSE Call(p.st, "nothooked", c)
  IN IF p.ex # <<>> THEN Finish(p)          \* an exception of a pre handler ends the run at once
     ELSE Finish(Post(i, c))

AfterRun(st) ==
  LET c == Cur(st.r) IN
  IF st.r.stop THEN st
  ELSE IF st.r.rc > OK /\ st.r.rc < Continue THEN Internal(st, st.r.rc)
  ELSE IF st.a.store[Key("help")].v = "true" THEN Screen(st, <<"help", c>>)
  ELSE IF ~IsLeaf(c) THEN Screen(st, <<"help", c>>)
  ELSE IF Missing(st.a, c) THEN [st EXCEPT !.r.ret = IF st.r.opts.nocatch THEN Thrown ELSE -1]
  ELSE InvokeCmd(st, c)

\* The words after a bare "--" are handed over as they are.
Passed(r) == IF \E i \in DOMAIN r.use : r.use[i] = "--"
             THEN LET i == CHOOSE i \in DOMAIN r.use : r.use[i] = "--" IN SubSeq(r.argv, i + 1, Len(r.argv))
             ELSE <<>>

Complete(st) ==
  LET s1 == IF st.r.pend # <<>> THEN NoValue(st) ELSE st
      s2 == [s1 EXCEPT !.r.remain = @ \o Passed(s1.r)]
      s3 == AfterRun(s2)
  IN LogCall(s3, [e |-> "postrun", id |-> "", from |-> 0])

-----------------------------------------------------------------------------
(* What can be observed when a run has ended.                                *)
Delta(a) == [k \in {k \in DOMAIN a.store : k \notin DOMAIN FreshStore \/ a.store[k] # FreshStore[k]} |-> a.store[k]]

\* what a help screen of c lists
ShowHidden(a) == a.fhits["help"].n > 2
VisibleCmds(a, c)  == {k \in Children[c] : ShowHidden(a) \/ ~Cmds[k].hidden}
VisibleFlags(a, c) == {f \in OwnFlags[c] : ShowHidden(a) \/ ~Flags[f].hidden}

RECURSIVE TreeCmds(_, _)
TreeCmds(a, c) == VisibleCmds(a, c) \cup UNION {TreeCmds(a, k) : k \in VisibleCmds(a, c)}

\* What the screen of the run lists: commands, and flags by level. (Not stated: a help screen asked for together
\* with the command tree.)
Listed(st) ==
  LET r == st.r a == st.a IN
  IF r.screens = <<>> THEN <<>>
  ELSE LET kind == r.screens[1][1] c == r.screens[1][2] IN
       IF kind = "help" /\ a.fhits["tree"].n = 0 THEN <<VisibleCmds(a, c), [i \in DOMAIN Chain[c] |-> VisibleFlags(a, Chain[c][i])]>>
       ELSE IF kind = "tree" THEN <<TreeCmds(a, c), <<>>>>
       ELSE <<>>

Outcome(st) ==
  LET r == st.r a == st.a IN
  [argv |-> r.argv, env |-> r.env, load |-> r.load, hs |-> r.hs, opts |-> r.opts,
   use |-> r.use, cur |-> Cur(r), path |-> r.path, remain |-> r.remain, stop |-> r.stop, rc |-> r.rc,
   log |-> r.log, screens |-> r.screens, unknown |-> r.unknown, suggest |-> r.suggest, badval |-> r.badval, ret |-> r.ret, sel |-> r.sel,
   store |-> Delta(a),
   chits |-> [c \in {c \in CmdIds : a.chits[c] # NoHit} |-> a.chits[c]],
   fhits |-> [f \in {f \in FlagIds : a.fhits[f] # NoHit} |-> a.fhits[f]],
   chosen |-> [c \in {c \in AnyCmd : DOMAIN GroupFlags[c] # {} /\ c \notin DOMAIN BuiltinCmds} |-> a.chosen[c]],
   listed |-> Listed(st)]

-----------------------------------------------------------------------------
Pair == [a |-> app, r |-> run]
Become(st) == app' = st.a /\ run' = st.r

Init == /\ phase = "idle" /\ app = FreshApp /\ run = IdleRun /\ hist = <<>>

Some(A) == IF Sample = 0 \/ Cardinality(A) <= 2 THEN A ELSE RandomSubset(2, A)

\* A run starts: the loaders and the environment supply values.
Start ==
  /\ phase = "idle"
  /\ Len(SelectSeq(hist, LAMBDA h : h.step = "run")) < MaxRuns
  /\ \E env \in Some(EnvSets), ld \in Some(LoadSets), hs \in Some(HandlerSets), o \in Some(OptSets) :
       /\ app' = Prepare(app, env, ld)
       /\ run' = NewRun(env, ld, hs, o)
  /\ phase' = "words" /\ UNCHANGED hist

PhaseOf(st) == IF st.r.stop THEN "stopped" ELSE IF st.r.pend # <<>> THEN "value" ELSE "words"

\* One word more, in the given phase.
Step(w) ==
  LET st0 == [Pair EXCEPT !.r.argv = Append(@, w)] IN
  IF phase = "pass"
  THEN [st |-> [st0 EXCEPT !.r.use = Append(@, "passed")], ph |-> phase]
  ELSE LET s1 == IF phase = "value" THEN ValueWord(st0, w) ELSE PlainWord(st0, w)
           \* a word refused as a value is an ordinary word
           s2 == IF phase = "value" /\ s1.r.n < Len(s1.r.argv) /\ ~s1.r.stop THEN PlainWord(s1, w) ELSE s1
       IN [st |-> s2,
           ph |-> IF s2.r.use # <<>> /\ s2.r.use[Len(s2.r.use)] = "--" /\ ~s2.r.stop THEN "pass" ELSE PhaseOf(s2)]

\* In a simulation, a few random words are tried, preferably such that do not end the run.
Choices(A) ==
  IF Sample = 0 \/ Cardinality(A) <= Sample THEN A
  ELSE LET some == RandomSubset(Sample, A)
           good == {w \in some : Step(w).ph # "stopped"}
       IN IF good = {} THEN some ELSE good

Word ==
  /\ phase \in {"words", "value", "pass"}
  /\ Len(run.argv) < MaxWords
  /\ \E w \in Choices(IF phase = "pass" THEN AfterPass ELSE IF run.argv = <<>> THEN FirstWords ELSE Alphabet) :
       /\ ~(phase # "pass" /\ Undecided(Pair, w))
       /\ LET x == Step(w) IN Become(x.st) /\ phase' = x.ph
  /\ UNCHANGED hist

\* One more word after the run was stopped: it must not matter.
Ignored ==
  /\ phase = "stopped"
  /\ Len(run.argv) < MaxWords
  /\ \E w \in AfterStop : run' = [run EXCEPT !.argv = Append(@, w)]
  /\ UNCHANGED <<phase, app, hist>>

End ==
  /\ phase \in {"words", "value", "pass", "stopped"}
  /\ Len(run.argv) >= DoneWords
  /\ LET st == Complete(Pair) IN
     /\ app' = st.a /\ run' = st.r
     /\ hist' = Append(hist, [step |-> "run", out |-> Outcome(st)])
  /\ phase' = "done"

Again == phase = "done" /\ Len(SelectSeq(hist, LAMBDA h : h.step = "run")) < MaxRuns /\ phase' = "idle" /\ UNCHANGED <<app, run, hist>>

Reset == /\ phase = "idle" /\ AllowReset /\ hist # <<>> /\ hist[Len(hist)].step = "run"
         /\ app' = FreshApp /\ run' = IdleRun /\ hist' = Append(hist, [step |-> "reset"])
         /\ UNCHANGED phase

Next == Start \/ Word \/ Ignored \/ End \/ Again \/ Reset
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants of the specification itself, one group per property.           *)
Last == hist[Len(hist)].out
Done == phase = "done"

\* C01/C07: the path is a descending chain, and every word has exactly one use.
PathInv == \A i \in DOMAIN run.path : Cmds[run.path[i]].owner = (IF i = 1 THEN Root ELSE run.path[i-1])
WordUse == Len(run.use) <= Len(run.argv)
Conserved ==
  (Done /\ ~Last.stop) =>
    LET keep == {i \in DOMAIN Last.argv : Last.use[i] \in {"positional", "passed"}}
        RECURSIVE pick(_)
        pick(i) == IF i > Len(Last.argv) THEN <<>>
                   ELSE (IF i \in keep THEN <<Last.argv[i]>> ELSE <<>>) \o pick(i + 1)
    IN Len(Last.use) = Len(Last.argv) /\ Last.remain = pick(1)
PassVerbatim ==
  Done => \A i \in DOMAIN Last.use : Last.use[i] = "--" => \A j \in (i+1)..Len(Last.use) : Last.use[j] = "passed"

\* C02: the title selected is in scope and none longer is.
Longest ==
  \A i \in DOMAIN run.sel :
    run.sel[i][1] = "flag" =>
      LET f == run.sel[i][2] t == run.sel[i][3] IN
      t = Flags[f].short \/ t = Flags[f].long \/ t \in Flags[f].aliases

\* C03/C17: a stored value always has the declared type of its flag (unless a loader stored another one).
Typed == \A f \in FlagIds : (run.load = <<>> /\ \A i \in DOMAIN hist : hist[i].step = "run" => hist[i].out.load = <<>>) => app.store[Key(f)].t = Flags[f].type

\* C05: hits are counted once per selection (first run of a history, no environment).
RECURSIVE CountSel(_, _, _)
CountSel(sel, kind, x) == IF sel = <<>> THEN 0
                          ELSE (IF sel[1][1] = kind /\ sel[1][2] = x THEN 1 ELSE 0) + CountSel(Tail(sel), kind, x)
Counted ==
  (hist = <<>> /\ DOMAIN run.env = {}) =>
     /\ \A f \in FlagIds : app.fhits[f].n = CountSel(run.sel, "flag", f)
     /\ \A c \in CmdIds : app.chits[c].n = CountSel(run.sel, "cmd", c)

\* C06: once a member was chosen with "on", exactly the chosen member is on (no environment, no loader).
RadioInv ==
  (DOMAIN run.env = {} /\ run.load = <<>> /\ \A i \in DOMAIN hist : hist[i].step = "run" => DOMAIN hist[i].out.env = {} /\ hist[i].out.load = <<>>) => \A c \in AnyCmd : \A g \in DOMAIN GroupFlags[c] :
    CKey(c, g) \in DOMAIN app.store =>
      /\ app.store[CKey(c, g)].v = app.chosen[c][g]
      /\ \A f \in GroupFlags[c][g] : app.store[Key(f)].v = "true" => Flags[f].long = app.chosen[c][g]

\* C08: handlers are called in order, each at most once, posts after the invoke handler whatever it did.
Slots == <<"gpre", "pre", "inv", "post", "gpost">>
SlotPos(e) == CHOOSE i \in 1..5 : Slots[i] = e
HandlerOrder ==
  Done => LET called == SelectSeq(Last.log, LAMBDA ev : ev.from = -1 /\ ev.e # "nothooked") IN
          /\ \A i, j \in DOMAIN called : i < j => SlotPos(called[i].e) < SlotPos(called[j].e)
          /\ \A i \in DOMAIN called : called[i].id = Last.cur
          /\ Len(SelectSeq(Last.log, LAMBDA ev : ev.e = "postrun")) = 1

\* C09: nothing is called when a required flag is missing.
RequiredInv ==
  Done => (Missing(app, Last.cur) => ~\E i \in DOMAIN Last.log : Last.log[i].from = -1)

\* C10: nothing is called after an unknown word was rejected.
RejectInv == (Done /\ Last.stop) => ~\E i \in DOMAIN Last.log : Last.log[i].from = -1

\* C13: a screen and a command never come together.
AnswerInv ==
  (Done /\ Last.screens # <<>> /\ Last.cur \notin DOMAIN BuiltinCmds) =>
     \/ ~\E i \in DOMAIN Last.log : Last.log[i].e = "inv"
     \/ \E s \in DOMAIN Last.hs : Last.hs[s][1] = "request"

Invariants == PathInv /\ WordUse /\ Conserved /\ PassVerbatim /\ Longest /\ Typed /\ Counted /\ RadioInv
              /\ HandlerOrder /\ RequiredInv /\ RejectInv /\ AnswerInv

-----------------------------------------------------------------------------
(* Emission of test cases.                                                   *)
Tag == "@CASE "
HistoryComplete == Done /\ Len(SelectSeq(hist, LAMBDA h : h.step = "run")) = MaxRuns
Emit == HistoryComplete => PrintT(Tag \o ToJson(hist))
EmitMenu == PrintT("@MENU " \o ToJson([cmds |-> UserCmds, flags |-> UserFlags, cmdorder |-> CmdOrder, flagorder |-> FlagOrder,
                                       store |-> FreshStore]))
=============================================================================
