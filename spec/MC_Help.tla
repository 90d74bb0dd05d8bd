------------------------------- MODULE MC_Help --------------------------------
(* Help screens and trees asked for one after the other, of random menus.    *)
EXTENDS Help, Json, Randomization

CONSTANTS Settings, Targets, TermWidths, MaxScreens, Sample, Shells, Terms
VARIABLES setting, need, shown
vars == <<setting, need, shown>>

Pick(S) == IF Sample = 0 THEN S ELSE RandomSubset(1, S)

\* the titles of the commands from the root to c: all long, all short or all of another name where there is one
TitleAs(c, form) == LET x == Cmds[c] IN
                    CASE form = "short" /\ x.short # "" -> x.short
                      [] form = "alias" /\ x.aliases # <<>> -> x.aliases[Len(x.aliases)]
                      [] OTHER -> x.long
RECURSIVE WordsTo(_, _)
WordsTo(c, form) == IF c = Root THEN <<>> ELSE Append(WordsTo(Cmds[c].owner, form), TitleAs(c, form))

Modes == {"help", "bare", "cmd", "tree"}
Settled(q) == LET m == IF q.mode = "bare" /\ ~HasSubs(q.target) THEN "help" ELSE q.mode IN
              [q EXCEPT !.mode = m, !.hits = IF m \in {"bare", "cmd"} THEN 0 ELSE IF m = "help" THEN Max2(1, q.hits) ELSE @,
                        !.sc = IF m = "tree" THEN "" ELSE @]
Requests(T) == [mode : Pick(Modes), target : Pick(T), form : Pick({"long", "short", "alias"}), hits : Pick(0..4), width : Pick(TermWidths),
                nc : Pick({"", "flag", "PLAIN", "NO_COLOR"}), sc : Pick({"", "flag", "env"}), shell : Pick(Shells), term : Pick(Terms),
                env : Pick({{}, {"VERBOSE"}, {"QUIET", "TRACE"}})]
ShellName(s) == IF HasSuffix(s, "zsh") THEN "zsh" ELSE ""
Env(q) == [e \in {x \in {q.nc} : x \in {"PLAIN", "NO_COLOR"}} \cup (IF q.sc = "env" THEN {"SHELL_COMPLETION"} ELSE {})
             \cup q.env |-> "true"]
View(q) == [env |-> Env(q), all |-> q.hits > 2, width |-> IF q.width = 0 THEN 100 ELSE q.width, sc |-> q.sc # "", shell |-> ShellName(q.shell), right |-> setting.right,
            header |-> setting.header, tail |-> setting.tail, noTail |-> setting.noTail, noEnding |-> setting.noEnding]

\* colours are for terminals that have them, unless none are wanted
Colourful == {"ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys", "putty", "rxvt", "screen", "vt100", "xterm"}
Coloured(q) == q.nc = "" /\ \E t \in Colourful : Find(q.term, t, 1) # 0

Answer(q) == IF q.mode = "tree" THEN TreeScreen(q.target, View(q), need)
             ELSE LET n == Max2(need, NeedAll(q.target, View(q)))
                  IN [lines |-> Screen(q.target, WordsTo(q.target, IF q.mode = "cmd" THEN "long" ELSE q.form), View(q), Col(n)), need |-> n]

Init == /\ setting \in Pick(Settings)
        /\ need = setting.mintab
        /\ shown = <<>>
Ask(q) == LET a == Answer(q) IN
          /\ need' = a.need
          /\ shown' = Append(shown, [q |-> q, words |-> WordsTo(q.target, q.form), coloured |-> Coloured(q), lines |-> a.lines])
          /\ UNCHANGED setting
Next == Len(shown) < MaxScreens /\ \E q \in Requests(Targets) : Ask(Settled(q))

-----------------------------------------------------------------------------
Last == shown[Len(shown)]
CountLines(p(_)) == Cardinality({i \in DOMAIN Last.lines : p(Last.lines[i])})
\* titles appear as often as there are items to show: each once
Row(x, flag, l) == LET t == "  " \o LongText(x, flag) IN HasPrefix(l, t \o " ") \/ HasPrefix(l, t \o ",")
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN "" ELSE Head(ls) \o Joined(Tail(ls))
NoBlanks(s) == ReplaceAll(s, " ", "")
Invariants ==
  shown # <<>> =>
  LET q == Last.q v == View(q) IN
  /\ \* nothing of a description is lost by wrapping it, and no part of it is wider than the room for it
     \A i \in DOMAIN CmdOrder : LET d == UserCmds[CmdOrder[i]].desc
                                    n == v.width - Col(need) - 2
                                    w == WrapText(d, n)
                                IN NoBlanks(Joined(w)) = NoBlanks(d) /\ (n > 0 => \A k \in DOMAIN w : Len(w[k]) <= n)
  /\ (q.mode # "tree" /\ q.sc = "") =>
       \* every item to be shown has its row, and no other flag has
       LET ch   == Chain(q.target)
           on   == SelectSeq(FlagSeq, LAMBDA f : (v.all \/ ~f.hidden) /\ \E k \in DOMAIN ch : ch[k] = f.owner)
           is(l) == HasPrefix(l, "  --")
       IN /\ CountLines(is) = Len(on)
          /\ \A i \in DOMAIN on : LET p(l) == Row(on[i], TRUE, l) IN CountLines(p) >= 1
          /\ \A i \in DOMAIN SubsOf(q.target) : LET x == SubsOf(q.target)[i] p(l) == Row(x, FALSE, l) IN (v.all \/ ~x.hidden) => CountLines(p) >= 1
  /\ q.mode = "tree" =>
       \* a row for every command below that is not hidden, and has no hidden one above
       LET RECURSIVE under(_)
           under(c) == LET xs == Visible(SubsOf(c), v.all) IN
                       IF xs = <<>> THEN 0 ELSE LET RECURSIVE sum(_) sum(k) == IF k > Len(xs) THEN 0 ELSE 1 + under(xs[k].id) + sum(k + 1) IN sum(1)
           is(l) == LET k == SpanFrom(l, 0, {" "}) IN k < 40 /\ HasPrefix(Drop(l, k), "* ")
       IN CountLines(is) = under(q.target)

Done == Len(shown) = MaxScreens
Emit == Done => PrintT("@CASE " \o ToJson([setting |-> setting, shown |-> shown]))
=============================================================================
