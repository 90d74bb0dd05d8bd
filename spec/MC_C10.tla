------------------------------- MODULE MC_C10 -------------------------------
(* Unknown words, rejected or tolerated.                                     *)
EXTENDS MCDefs

mcUserCmds ==
     "ms"       :> cmd("ms", "m", {"micro"}, "")
  @@ "ms.tags"  :> cmd("tags", "t", {}, "ms")
  @@ "ms.tags.ls" :> cmd("ls", "l", {}, "ms.tags")
  @@ "go"       :> cmd("go", "o", {}, "")
mcCmdOrder == <<"ms", "ms.tags", "ms.tags.ls", "go">>
mcUserFlags ==
     "num"      :> flag("", "num", "n", {}, "int", "0")
  @@ "ms.name"  :> flag("ms", "name", "a", {}, "string", "")
  @@ "go.fast"  :> bool("go", "fast", "f")
mcFlagOrder == <<"num", "ms.name", "go.fast">>
mcAlphabet   == {"ms", "m", "tags", "ls", "go", "tag", "tagss", "mss", "Ms", "--num=1", "-n", "3", "--nam", "--name=q", "-f", "--fast", "-z", "--zzz", "-nz", "-vz", "~~num=2", "~~zz", "/z", "x", "--"}
mcFirstWords == mcAlphabet \ {"3", "--"}
mcAfterPass  == {"--zzz", "ms"}
mcAfterStop  == {"go", "--num=1"}
mcOptSets    == {[Strict EXCEPT !.strictCmd = a, !.strictFlag = b] : a, b \in BOOLEAN}
mcHandlerSets == {("gpre" :> <<"ret", 0>> @@ "pre" :> <<"ret", 0>> @@ "inv" :> <<"ret", 0>> @@ "post" :> <<"ret", 0>> @@ "gpost" :> <<"ret", 0>>)}
=============================================================================
