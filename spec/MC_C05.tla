------------------------------- MODULE MC_C05 -------------------------------
(* Hit bookkeeping: repeated and mixed spellings, several runs.              *)
EXTENDS MCDefs

mcUserCmds ==
     "ms"      :> cmd("ms", "m", {"micro"}, "")
  @@ "ms.ls"   :> cmd("ls", "l", {"list"}, "ms")
  @@ "ms.rm"   :> cmd("rm", "r", {}, "ms")
mcCmdOrder == <<"ms", "ms.ls", "ms.rm">>
mcUserFlags ==
     "long-name" :> F("", "long-name", "ln", {"lname"}, "bool", "false", "", FALSE, <<"LNAME">>, NoHandler)
  @@ "level"     :> F("", "level", "L", {"lev", "leve"}, "int", "0", "", FALSE, <<"LEVEL">>, NoHandler)
  @@ "lo"        :> bool("", "lo", "l")
  @@ "ms.name"   :> flag("ms", "name", "n", {}, "string", "")
  @@ "ms.ls.lo"  :> flag("ms.ls", "lo", "l", {"log"}, "bool", "false")
mcFlagOrder == <<"long-name", "level", "lo", "ms.name", "ms.ls.lo">>
mcAlphabet   == {"ms", "m", "micro", "ls", "list", "rm", "-ln", "--long-name", "--lname", "~~lname", "--lev=2", "--leve=3", "~~level=4", "-L5", "-L", "6", "--lo", "-l", "-lln", "-l-",
                 "--log", "-n", "x", "-vv", "--lev=x"}
mcFirstWords == mcAlphabet \ {"6", "x"}
mcAfterPass  == {"ms"}
mcAfterStop  == {"ms"}
mcEnvSets    == {<<>>, "LNAME" :> "1", ("LEVEL" :> "7" @@ "LNAME" :> "zzz"), "LEVEL" :> "q"}
oneEnv       == {<<>>}
=============================================================================
