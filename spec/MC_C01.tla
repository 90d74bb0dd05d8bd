------------------------------- MODULE MC_C01 -------------------------------
(* Command words: titles, aliases and short titles that nearly collide.      *)
EXTENDS MCDefs

mcUserCmds ==
     "server"        :> cmd("server", "s", {"serve", "svr"}, "")
  @@ "server.start"  :> cmd("start", "s", {"run", "startup"}, "server")
  @@ "server.stop"   :> cmd("stop", "t", {"halt"}, "server")
  @@ "server.server" :> cmd("server", "", {}, "server")
  @@ "st"            :> cmd("st", "S", {}, "")
  @@ "start"         :> cmd("start", "st", {"s1"}, "")
  @@ "start.st"      :> cmd("st", "a", {"b"}, "start")
  @@ "start.bb"      :> cmd("bb", "b", {}, "start")
  @@ "ms"            :> cmd("ms", "m", {"micro-service"}, "")
  @@ "ms.tags"       :> cmd("tags", "t", {}, "ms")
  @@ "ms.tags.ls"    :> cmd("ls", "l", {"list", "t"}, "ms.tags")
  @@ "ms.tags.mod"   :> cmd("mod", "m", {"ms"}, "ms.tags")
  @@ "ms.tags.mod.ms":> cmd("ms", "x", {"mod"}, "ms.tags.mod")
mcCmdOrder == <<"server", "server.start", "server.stop", "server.server", "st", "start", "start.st", "start.bb", "ms",
                "ms.tags", "ms.tags.ls", "ms.tags.mod", "ms.tags.mod.ms">>
mcUserFlags ==
     "count"       :> flag("", "count", "c", {}, "int", "0")
  @@ "ms.name"     :> flag("ms", "name", "n", {}, "string", "")
  @@ "server.fast" :> bool("server", "fast", "f")
mcFlagOrder == <<"count", "ms.name", "server.fast">>

CmdWords == {"server", "serve", "svr", "s", "start", "run", "startup", "stop", "t", "halt", "st", "S", "s1", "a", "b", "bb",
             "ms", "m", "micro-service", "tags", "ls", "l", "list", "mod"}
mcAlphabet   == CmdWords \cup {"-v", "--count=3", "-c", "5"}
mcFirstWords == CmdWords \cup {"-v", "-c"}
mcAfterPass  == {"server"}
mcAfterStop  == {"server"}
=============================================================================
