------------------------------- MODULE MC_C06 -------------------------------
(* Radio groups: two groups of one command, same-named groups elsewhere.     *)
EXTENDS MCDefs

mcUserCmds ==
     "tags"     :> cmd("tags", "t", {}, "")
  @@ "tags.tg"  :> cmd("tg", "g", {}, "tags")
mcCmdOrder == <<"tags", "tags.tg">>
mcUserFlags ==
     "json"       :> radio("", "json", "j", "fmt", "true")
  @@ "yaml"       :> radio("", "yaml", "y", "fmt", "false")
  @@ "toml"       :> radio("", "toml", "tm", "fmt", "false")
  @@ "red"        :> radio("", "red", "r", "color", "false")
  @@ "blue"       :> radio("", "blue", "b", "color", "true")
  @@ "free"       :> bool("", "free", "f")
  @@ "tags.json"  :> radio("tags", "json", "J", "fmt", "false")
  @@ "tags.xml"   :> radio("tags", "xml", "x", "fmt", "false")
  @@ "tags.tg.mac"   :> radio("tags.tg", "mac", "m", "os", "true")
  @@ "tags.tg.linux" :> radio("tags.tg", "linux", "l", "os", "false")
  @@ "tags.tg.win"   :> radio("tags.tg", "win", "w", "os", "false")
  @@ "tags.tg.red"   :> radio("tags.tg", "red", "R", "color", "false")
  @@ "tags.tg.grey"  :> radio("tags.tg", "grey", "G", "color", "false")
mcFlagOrder == <<"json", "yaml", "toml", "red", "blue", "free", "tags.json", "tags.xml", "tags.tg.mac", "tags.tg.linux", "tags.tg.win", "tags.tg.red", "tags.tg.grey">>
Rootish == {"--json", "--yaml", "-y", "-tm", "--toml", "--red", "-b", "-jb", "-f", "-yr"}
mcAlphabet   == Rootish \cup {"tags", "tg", "-J", "--xml", "-x", "-w", "--linux", "--mac", "-lw", "--grey", "-R", "arg"}
mcFirstWords == Rootish \cup {"tags"}
mcAfterPass  == {"--json"}
mcAfterStop  == {"--json"}
=============================================================================
