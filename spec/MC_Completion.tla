---------------------------- MODULE MC_Completion ----------------------------
EXTENDS Completion, Json, Randomization

Pick(S) == IF Sample = 0 THEN S ELSE IF S = {} THEN {} ELSE RandomSubset(1, S)
SubSet == {SubsOf(at)[i] : i \in DOMAIN SubsOf(at)}
FlagSet == UNION {{FlagsOf(Chain(at)[i])[j] : j \in DOMAIN FlagsOf(Chain(at)[i])} : i \in DOMAIN Chain(at)}
DashTitles(f) == {"--" \o f.long} \cup (IF f.short = "" THEN {} ELSE {"-" \o f.short}) \cup {"--" \o f.aliases[i] : i \in DOMAIN f.aliases}

Next ==
  \/ \E x \in Pick(SubSet) : \E t \in Pick(TitlesOf(x, FALSE)) : GoTo(x, t)
  \/ \E f \in Pick({f \in FlagSet : Plain(f)}) : \E t \in Pick(DashTitles(f)) : Flag(f, t)
  \/ \E f \in Pick({f \in FlagSet : f.type = "int" /\ f.owner = at}) : \E t \in Pick(DashTitles(f)) : Valued(f, t, "7")
  \/ \E t \in Pick({"--help", "-h", "--usages", "--version"}) : Pick(1..4) = {1} /\ Help(t)
  \/ \E c \in Pick(Beginnings(at)) : Tab(c)
  \/ Pick(1..2) = {1} /\ Tab("")

\* What is offered begins with what was typed, is a title of something within reach, and everything is offered for nothing.
Invariants == \A i \in DOMAIN tabs : LET x == tabs[i] IN
                /\ \A t \in x.offered : HasPrefix(t, x.cur)
                /\ x.words = <<>> => ("--help" \in x.offered <=> HasPrefix("--help", x.cur))
Emit == Len(tabs) = MaxTabs => PrintT("@CASE " \o ToJson([tabs |-> tabs]))
=============================================================================
