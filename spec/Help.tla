--------------------------------- MODULE Help ---------------------------------
(* The help screen and the tree of commands: which lines are printed for a   *)
(* command of a menu, on a terminal of some width.  Texts are without colours.*)
EXTENDS Strings

CONSTANTS App,        \* what is said about the whole
          UserCmds,   \* name |-> command
          UserFlags,
          CmdOrder,   \* their names in the order of their addition
          FlagOrder

C(owner, long, short, aliases, group, hidden, desc) ==
  [owner |-> owner, long |-> long, short |-> short, aliases |-> aliases, group |-> group, hidden |-> hidden, desc |-> desc, ldesc |-> "",
   examples |-> ""]
F(cmd, long, short, aliases, group, tgroup, hidden, desc, envs, type, dflt, ph) ==
  [owner |-> cmd, long |-> long, short |-> short, aliases |-> aliases, group |-> IF group # "" THEN group ELSE tgroup, hidden |-> hidden, desc |-> desc,
   envs |-> envs, type |-> type, dflt |-> dflt, ph |-> ph]
SysG == "9000.System Management"
B(long, short, aliases, hidden, desc, envs) == F("", long, short, aliases, SysG, "", hidden, desc, envs, "bool", "false", "")
G(long, short, aliases, desc, envs) == F("generate", long, short, aliases, "Generators", "", FALSE, desc, envs, "bool", "false", "")
W(long, short, dflt, desc) == F("generate.shell", long, short, <<>>, "", "which-shell", FALSE, desc, <<>>, "bool", dflt, "")

\* what every menu has
OwnCmds ==
  ("help" :> C("", "help", "h", <<"info", "usages">>, SysG, TRUE, "display this help screen")) @@
  ("version" :> C("", "version", "V", <<"versions", "ver">>, SysG, TRUE, "display the version information")) @@
  ("print" :> C("", "print", "pr", <<"display">>, SysG, TRUE, "print cmdr internal information")) @@
  ("generate" :> C("", "generate", "g", <<"gen">>, SysG, TRUE, "generators of this app (such as manual, markdown, ...)")) @@
  ("generate.doc" :> C("generate", "doc", "d", <<"markdown", "docx", "pdf", "tex">>, "", FALSE, "generate a markdown document, or: pdf/TeX/...")) @@
  ("generate.manual" :> C("generate", "manual", "m", <<"man">>, "", FALSE, "generate linux man page.")) @@
  ("generate.shell" :> C("generate", "shell", "s", <<"sh", "comp", "completion">>, "", FALSE,
                         "generate the bash/zsh auto-completion script or install it."))
OwnCmdOrder == <<"help", "version", "print", "generate", "generate.doc", "generate.manual", "generate.shell">>
OwnFlagSeq == <<
  B("help", "h", <<"?", "info", "usages">>, TRUE, "display this help screen", <<"HELP">>),
  B("version", "V", <<"versions", "ver">>, TRUE, "display the version information", <<"VERSIONS">>),
  [B("version-sim", "vs", <<>>, TRUE, "simulate the version dynamically", <<"VERSION_SIM">>) EXCEPT !.type = "string", !.dflt = ""],
  B("build-info", "#", <<"bdinfo">>, TRUE, "display the building information", <<>>),
  B("verbose", "v", <<>>, FALSE, "verbose mode", <<"VERBOSE">>),
  B("quiet", "q", <<>>, FALSE, "quiet mode", <<"QUIET">>),
  B("feel-like", "bet", <<"bet">>, TRUE, "best choice will be invoked for unknown command", <<"FEEL_LIKE">>),
  B("no-color", "nc", <<>>, TRUE, "disable color text in terminal", <<"PLAIN", "NO_COLOR">>),
  B("shell-completion", "sc", <<>>, TRUE, "disable help screen skeleton for completion", <<"SHELL_COMPLETION">>),
  B("tree", "", <<>>, TRUE, "print all commands as a tree", <<>>),
  B("debug", "D", <<"debug-mode">>, FALSE, "enable debugging mode for more verbose outputting", <<"DEBUG">>),
  B("cli", "", <<>>, TRUE, "enable 'app.cli.xxx' in ~~debug output", <<>>),
  B("trace", "tr", <<"trace-mode">>, FALSE, "enable tracing mode for developer perspective", <<"TRACE">>),
  G("feel-like", "bet", <<"bet">>, "The best choice will be applied", <<"FEEL_LIKE">>),
  G("dry-run", "dry", <<"dry">>, "Don't generate the result file(s)", <<"DRY_RUN">>),
  G("stdout", "c", <<>>, "Prints the result file(s)", <<"STDOUT">>),
  F("generate.doc", "pages", "pg", <<>>, "PDF", "", FALSE, "set pdf pages", <<>>, "bool", "false", ""),
  F("generate.doc", "start-number", "sn", <<"start">>, "Markdown", "", FALSE, "set the start of auto-numbering in markdown export", <<>>, "int", "1", ""),
  F("generate.shell", "drop", "d", <<"remove", "uninstall">>, "", "", FALSE, "Uninstall/erase the installed completion file", <<>>, "bool", "false", ""),
  W("auto", "a", "true", "prints shell-completion scripts within current shell"),
  W("bash", "b", "false", "prints the bash-completion scripts for this app"),
  W("zsh", "z", "false", "prints the zsh-completion scripts for this app"),
  W("fish", "f", "false", "prints the fish-completion scripts for this app"),
  F("generate.shell", "name", "n", <<>>, "", "", FALSE, "use this name instead of executable name", <<>>, "string", "", "FILENAME")
>>

Root == ""
Cmds == OwnCmds @@ UserCmds
AllCmds == (Root :> [C("none", App.name, "", <<>>, "", FALSE, App.desc) EXCEPT !.examples = App.examples]) @@ Cmds
CmdSeq == OwnCmdOrder \o CmdOrder
FlagSeq == OwnFlagSeq \o [i \in DOMAIN FlagOrder |-> UserFlags[FlagOrder[i]]]

RECURSIVE Chain(_)    \* a command and its owners up to the root
Chain(c) == IF c = Root THEN <<Root>> ELSE <<c>> \o Chain(AllCmds[c].owner)
SubsOf(c) == LET s == SelectSeq(CmdSeq, LAMBDA x : Cmds[x].owner = c) IN [i \in DOMAIN s |-> Cmds[s[i]] @@ ("id" :> s[i])]
FlagsOf(c) == SelectSeq(FlagSeq, LAMBDA f : f.owner = c)
HasSubs(c) == SubsOf(c) # <<>>

-----------------------------------------------------------------------------
(* Groups: sorted by the text before the first dot; what follows is shown.   *)
Unsorted == "1230.Unsorted"
GroupOf(x) == IF x.group = "" THEN Unsorted ELSE x.group
SortKey(g) == LET k == Find(g, ".", 1) IN IF k = 0 THEN "3333" ELSE Take(g, k - 1)
CleanName(g) == IF HasPrefix(g, SortKey(g) \o ".") THEN Drop(g, Len(SortKey(g)) + 1) ELSE g

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {Ch(Printable, i) : i \in 1..Len(Printable)} |-> CHOOSE i \in 1..Len(Printable) : Ch(Printable, i) = c]
RECURSIVE TextLess(_, _)
TextLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                  ELSE IF Ch(a, 1) = Ch(b, 1) THEN TextLess(Drop(a, 1), Drop(b, 1)) ELSE Code[Ch(a, 1)] < Code[Ch(b, 1)]
RECURSIVE SortGroups(_)
SortGroups(gs) == IF gs = {} THEN <<>>
                  ELSE LET g == CHOOSE x \in gs : \A y \in gs \ {x} : ~TextLess(SortKey(y), SortKey(x)) IN <<g>> \o SortGroups(gs \ {g})
Visible(items, all) == SelectSeq(items, LAMBDA x : all \/ ~x.hidden)
Groups(items) == SortGroups({GroupOf(items[i]) : i \in DOMAIN items})
InGroup(items, g) == SelectSeq(items, LAMBDA x : GroupOf(x) = g)

-----------------------------------------------------------------------------
(* Widths of titles and the column of descriptions *)
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE LET m == MaxOf(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m
Max2(a, b) == IF a > b THEN a ELSE b
LongText(x, flag)  == (IF flag THEN "--" ELSE "") \o x.long \o (IF flag /\ x.ph # "" THEN "=" \o x.ph ELSE "")
ShortText(x, flag) == (IF flag THEN "-" ELSE "") \o x.short
AliasText(x, flag) == JoinText([i \in DOMAIN x.aliases |-> (IF flag THEN "--" ELSE "") \o x.aliases[i]], ",")
Widths(items, flag) == [long |-> MaxOf([i \in DOMAIN items |-> Len(LongText(items[i], flag))]),
                        short |-> MaxOf([i \in DOMAIN items |-> Len(ShortText(items[i], flag))]),
                        alias |-> MaxOf([i \in DOMAIN items |-> Len(AliasText(items[i], flag))])]
TitleWidth(w) == w.long + 2 + w.short + 2 + w.alias
\* the column needed by the titles of all groups
RECURSIVE NeedOf(_, _, _)
NeedOf(items, gs, flag) == IF gs = <<>> THEN -1
                           ELSE Max2(TitleWidth(Widths(InGroup(items, Head(gs)), flag)) + 2, NeedOf(items, Tail(gs), flag))
Need(items, flag) == NeedOf(items, Groups(items), flag)

Blanks == "                                                                                                                        "
RECURSIVE Sp(_)
Sp(n) == IF n <= 120 THEN Take(Blanks, Max2(n, 0)) ELSE Blanks \o Sp(n - 120)
AtLeast1(n) == Sp(Max2(1, n))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* a description in lines of n characters; the blanks a line would start with are left out.  n <= 0: no room, not wrapped
RECURSIVE WrapText(_, _)
WrapText(d, n) == IF n <= 0 \/ Len(d) <= n THEN <<d>>
                  ELSE LET r == TrimLeft(Drop(d, n)) IN <<Take(d, n)>> \o (IF r = "" THEN <<>> ELSE WrapText(r, n))

Titles(x, w, flag, right) ==
  LET sep(last) == IF last THEN "  " ELSE ", " IN
  LongText(x, flag) \o sep(x.short = "" /\ x.aliases = <<>>) \o Sp(w.long - Len(LongText(x, flag)))
  \o (IF x.short = "" THEN Sp(w.short + 2) ELSE ShortText(x, flag) \o sep(x.aliases = <<>>) \o Sp(w.short - Len(ShortText(x, flag))))
  \o (LET a == AliasText(x, flag) IN IF right THEN Sp(w.alias - Len(a)) \o a ELSE a \o Sp(w.alias - Len(a)))

Quoted(s) == "\"" \o ReplaceAll(ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"") \o "\""
\* the default: what the environment says, where it says something
DefaultOf(x, env) == LET given == SelectSeq(x.envs, LAMBDA e : e \in DOMAIN env) IN IF given = <<>> THEN x.dflt ELSE env[given[Len(given)]]
FlagText(x, env) == LET d == DefaultOf(x, env) IN
                    x.desc \o (IF x.envs = <<>> THEN "" ELSE " (ENV: " \o JoinText(x.envs, ",") \o ")")
                    \o (IF x.type = "bool" /\ d = "false" THEN ""
                        ELSE " [DEFAULT" \o (IF x.ph = "" THEN "" ELSE " " \o x.ph) \o "=" \o (IF x.type = "string" THEN Quoted(d) ELSE d) \o "]")
ItemText(x, flag, v) == IF flag THEN FlagText(x, v.env) ELSE x.desc

\* how a screen is asked for
Col(need) == Max2(43, need)
Item(x, w, flag, lead, indent, col, v) ==
  LET ls == WrapText(ItemText(x, flag, v), IF v.sc THEN 9999 - col - 2 ELSE v.width - col - 2) IN
  [i \in DOMAIN ls |->
     IF i = 1 THEN lead \o Titles(x, w, flag, v.right) \o AtLeast1(col - TitleWidth(w) - indent) \o (IF v.sc THEN "|" ELSE "") \o ls[1]
     ELSE Sp(col + 2) \o ls[i]]

\* for zsh: the titles and the description, with the characters that mean something there escaped
EscapeCh(c) == IF c \in {"[", "]", ":", "(", ")"} THEN "\\" \o c ELSE c
Escaped(s) == MapText(EscapeCh, s)
ZshItem(x, flag) == IF ~flag THEN <<x.long \o ":" \o Escaped(x.desc)>>
                    ELSE <<"--" \o x.long \o "[" \o Escaped(x.desc) \o "]">>
                         \o (IF x.short = "" THEN <<>> ELSE <<"-" \o x.short \o "[" \o Escaped(x.desc) \o "]">>)

Listed(items, flag, col, v) ==
  LET gs == Groups(items) IN
  Concat([g \in DOMAIN gs |->
    LET gr == gs[g]
        xs == InGroup(items, gr)
        w  == Widths(xs, flag)
    IN (IF gr = Unsorted \/ v.sc THEN <<>> ELSE <<"  [" \o CleanName(gr) \o "]">>)
       \o Concat([i \in DOMAIN xs |-> IF v.sc /\ v.shell = "zsh" THEN ZshItem(xs[i], flag) ELSE Item(xs[i], w, flag, "  ", 0, col, v)])])

-----------------------------------------------------------------------------
(* The screen of a command.  v: what is to be shown and how; words: the titles*)
(* by which the command was reached.                                         *)
Section(s) == LET ls == Lines(s) IN
              IF Len(ls) <= 1 THEN <<"  " \o s>> ELSE [i \in 1..Len(ls) + 1 |-> IF i > Len(ls) THEN "" ELSE "  " \o ls[i]]
TitleOf(c) == LET x == AllCmds[c] IN
              x.long \o (IF x.short = "" THEN "" ELSE ", " \o x.short)
              \o (IF x.aliases = <<>> THEN "" ELSE ", " \o JoinText(x.aliases, ","))

NeedAll(c, v) ==
  LET ch == Chain(c) IN
  Max2(Need(Visible(SubsOf(c), v.all), FALSE), MaxOf([i \in DOMAIN ch |-> Need(Visible(FlagsOf(ch[i]), v.all), TRUE)]))

OrElse(ls, none) == IF ls = <<>> THEN none ELSE ls

Screen(c, words, v, col) ==
  LET x     == AllCmds[c]
      about == IF x.desc # "" THEN x.desc ELSE x.ldesc
      ch    == Chain(c)
      skel(ls) == IF v.sc THEN <<>> ELSE ls
  IN skel(<<App.name \o " v" \o App.version \o (IF v.header # "" THEN v.header ELSE " by " \o App.author \o ". " \o App.copyright)>>
          \o (IF about = "" THEN <<>> ELSE <<"", "Description">> \o Section(about))
          \o (IF x.examples = "" THEN <<>> ELSE <<"", "Examples">> \o Section(ReplaceAll(x.examples, "~", App.exe)))
          \o <<"", "Usage", "  " \o App.exe \o " " \o JoinText(words, " ") \o " [options] [Tail Args]", "", "Commands">>)
     \o OrElse(Listed(Visible(SubsOf(c), v.all), FALSE, col, v), skel(<<"  (no sub-commands)">>))
     \o Concat([i \in DOMAIN ch |->
          skel(<<"", IF i = 1 THEN "Options" ELSE IF ch[i] = Root THEN "Global Options" ELSE "Parent Options of " \o Quoted(TitleOf(ch[i]))>>)
          \o OrElse(Listed(Visible(FlagsOf(ch[i]), v.all), TRUE, col, v), skel(<<"  (no options)">>))])
     \o skel((IF v.noTail THEN <<>> ELSE <<"", IF v.tail # "" THEN v.tail ELSE "Type `" \o App.exe \o " --help` to get help screen (this screen).">>)
             \o (IF v.noEnding THEN <<>> ELSE <<"Powered by cmdr-cxx: https://github.com/hedzr/cmdr-cxx.">>))

-----------------------------------------------------------------------------
(* The tree of commands.  The column moves to the right where titles need it,*)
(* for what is printed from there on.                                        *)
RECURSIVE Tree(_, _, _, _), TreeItems(_, _, _, _, _), TreeGroups(_, _, _, _, _)
TreeItems(xs, w, level, v, r) ==
  IF xs = <<>> THEN r
  ELSE LET x    == Head(xs)
           col  == Col(r.need)
           mine == Item(x, w, FALSE, Sp(level * 2) \o "* ", level * 2, col, v)
           sub  == IF HasSubs(x.id) THEN Tree(x.id, level + 1, v, r.need) ELSE [lines |-> <<>>, need |-> r.need]
       IN TreeItems(Tail(xs), w, level, v, [lines |-> r.lines \o mine \o sub.lines, need |-> sub.need])
TreeGroups(items, gs, level, v, r) ==
  IF gs = <<>> THEN r
  ELSE LET xs  == InGroup(items, Head(gs))
           own == Head(gs) = Unsorted
           h   == IF own THEN <<>> ELSE <<Sp(level * 2) \o "- [" \o CleanName(Head(gs)) \o "]">>
       IN TreeGroups(items, Tail(gs), level, v,
                     TreeItems(xs, Widths(xs, FALSE), IF own THEN level ELSE level + 1, v, [r EXCEPT !.lines = @ \o h]))
Tree(c, level, v, need) ==
  LET items == Visible(SubsOf(c), v.all)
      n     == Max2(need, Need(items, FALSE))
  IN IF items = <<>> THEN [lines |-> <<"  (no sub-commands)">>, need |-> n]
     ELSE TreeGroups(items, Groups(items), level, v, [lines |-> <<>>, need |-> n])
TreeScreen(c, v, need) == LET t == Tree(c, 0, v, need) IN [t EXCEPT !.lines = <<"All Commands:">> \o @]
=============================================================================
