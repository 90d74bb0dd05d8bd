------------------------------- MODULE MC_C13 -------------------------------
(* Help, version and the other built-in requests.                            *)
EXTENDS MCDefs

hidcmd(l, s, o) == C(l, s, {}, o, TRUE)
hidflag(c, l, s, t, d) == F(c, l, s, {}, t, d, "", TRUE, <<>>, NoHandler)
mcUserCmds ==
     "ms"          :> cmd("ms", "m", {"micro"}, "")
  @@ "ms.tags"     :> cmd("tags", "t", {}, "ms")
  @@ "ms.tags.ls"  :> cmd("ls", "l", {"list"}, "ms.tags")
  @@ "ms.tags.sec" :> hidcmd("sec", "s", "ms.tags")
  @@ "ms.hid"      :> hidcmd("hid", "d", "ms")
  @@ "ms.hid.in"   :> cmd("in", "n", {}, "ms.hid")
  @@ "go"          :> cmd("go", "o", {}, "")
mcCmdOrder == <<"ms", "ms.tags", "ms.tags.ls", "ms.tags.sec", "ms.hid", "ms.hid.in", "go">>
mcUserFlags ==
     "num"         :> flag("", "num", "n", {}, "int", "0")
  @@ "shadow"      :> hidflag("", "shadow", "w", "bool", "false")
  @@ "ms.name"     :> flag("ms", "name", "a", {}, "string", "")
  @@ "ms.ghost"    :> hidflag("ms", "ghost", "gh", "int", "1")
  @@ "ms.tags.fmt" :> flag("ms.tags", "fmt", "f", {}, "vstr", "[x]")
  @@ "ms.tags.ls.all" :> bool("ms.tags.ls", "all", "A")
  @@ "go.fast"     :> bool("go", "fast", "F")
mcFlagOrder == <<"num", "shadow", "ms.name", "ms.ghost", "ms.tags.fmt", "ms.tags.ls.all", "go.fast">>
mcAlphabet   == {"ms", "micro", "tags", "ls", "sec", "hid", "in", "go", "help", "h", "version", "-n3", "-w", "--name=q", "--help", "-h", "-?", "--info", "--version", "-V", "--ver", "-hh", "-hhh",
                 "--build-info", "-#", "--tree", "~~tree", "~~debug", "x"}
mcFirstWords == mcAlphabet \ {"x"}
mcAfterPass  == {"--help"}
mcAfterStop  == {"go"}
mcHandlerSets == {OnlyInv, ("gpre" :> <<"ret", 0>> @@ "pre" :> <<"ret", 0>> @@ "inv" :> <<"ret", 0>> @@ "post" :> <<"ret", 0>> @@ "gpost" :> <<"ret", 0>>)}
=============================================================================
