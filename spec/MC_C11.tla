------------------------------- MODULE MC_C11 -------------------------------
EXTENDS Registration
mcLongs     == {"aa", "bb", "cc", "help"}
mcShorts    == {"", "a", "aa", "v"}
mcAliasSets == {{}, {"aa"}, {"x", "bb"}, {"y"}, {"ver"}}
D(t, v) == [t |-> t, v |-> v]
mcDefaults  == {D("bool", "false"), D("bool", "true"), D("int", "7"), D("string", "s"), D("vint", "[1,2]")}
mcGroups    == {"", "g", "h"}
mcBase      == [clong |-> {"help", "info", "usages", "version", "versions", "ver", "print", "display", "generate", "gen"},
                cshort |-> {"h", "V", "pr", "g"},
                flong |-> {"help", "?", "info", "usages", "version", "versions", "ver", "version-sim", "build-info", "bdinfo", "verbose", "quiet",
                           "feel-like", "bet", "no-color", "shell-completion", "tree", "debug", "debug-mode", "cli", "trace", "trace-mode"},
                fshort |-> {"h", "V", "vs", "#", "v", "q", "bet", "nc", "sc", "D", "tr"}]
\* smaller sets for the exhaustive model
sLongs == {"aa", "bb"}
sShorts == {"", "a", "aa"}
sAliasSets == {{}, {"aa"}, {"bb", "y"}}
sDefaults == {D("bool", "true"), D("int", "7")}
sGroups == {"", "g"}

\* still smaller sets, for three additions
tLongs == {"aa", "bb"}
tShorts == {"", "a"}
tAliasSets == {{}, {"bb", "y"}}
tDefaults == {D("bool", "true")}
tGroups == {"", "g"}
=============================================================================
