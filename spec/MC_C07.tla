------------------------------- MODULE MC_C07 -------------------------------
(* Positional words, the bare double dash, empty words.                      *)
EXTENDS MCDefs

mcUserCmds ==
     "cp"      :> cmd("cp", "c", {}, "")
  @@ "ms"      :> cmd("ms", "m", {}, "")
  @@ "ms.ls"   :> cmd("ls", "l", {}, "ms")
mcCmdOrder == <<"cp", "ms", "ms.ls">>
mcUserFlags ==
     "name"      :> flag("", "name", "n", {}, "string", "")
  @@ "num"       :> flag("", "num", "u", {}, "int", "0")
  @@ "cp.force"  :> bool("cp", "force", "f")
  @@ "cp.ids"    :> flag("cp", "ids", "i", {}, "vint", "[]")
mcFlagOrder == <<"name", "num", "cp.force", "cp.ids">>
mcAlphabet   == {"cp", "ms", "ls", "a", "b", "", "--", "-n", "--name=x", "-u", "5", "-u6", "-f", "-v", "-i", "1,2", "c d", "~x", "="}
mcFirstWords == {"cp", "ms", "-n", "", "-v", "-u", "--"}
mcAfterPass  == {"a", "--", "-f", "", "--name", "-n", "cp", "~~x", "/v"}
mcAfterStop  == {"a"}
mcOptSets    == {Strict, [Strict EXCEPT !.strictCmd = FALSE, !.strictFlag = FALSE]}
=============================================================================
