------------------------------- MODULE MC_C09 -------------------------------
(* Required flags.                                                           *)
EXTENDS MCDefs

mcUserCmds ==
     "db"       :> cmd("db", "d", {}, "")
  @@ "db.up"    :> cmd("up", "u", {}, "db")
  @@ "db.down"  :> cmd("down", "w", {}, "db")
  @@ "free"     :> cmd("free", "f", {}, "")
mcCmdOrder == <<"db", "db.up", "db.down", "free">>
mcUserFlags ==
     "url"       :> required("", "url", "U", "string", "", <<"URL">>)
  @@ "db.user"   :> required("db", "user", "s", "string", "", <<"DB_USER", "DBU">>)
  @@ "db.up.yes" :> required("db.up", "yes", "y", "bool", "false", <<>>)
  @@ "db.up.num" :> required("db.up", "num", "n", "int", "1", <<"NUM">>)
  @@ "db.opt"    :> flag("db", "opt", "o", {}, "int", "0")
mcFlagOrder == <<"url", "db.user", "db.up.yes", "db.up.num", "db.opt">>
mcAlphabet   == {"db", "up", "down", "free", "--url=x", "-U", "v", "--user=me", "-sme", "--yes", "-y", "-n3", "--num=4", "-o1", "-yn2"}
mcFirstWords == mcAlphabet \ {"v"}
mcAfterPass  == {"--url=x"}
mcAfterStop  == {"--url=x"}
mcEnvSets    == {<<>>, "URL" :> "u", "DBU" :> "me", ("URL" :> "u" @@ "DB_USER" :> "me"), ("URL" :> "u" @@ "DBU" :> "me" @@ "NUM" :> "4")}
mcHandlerSets == {("gpre" :> <<"ret", 0>> @@ "pre" :> <<"ret", 0>> @@ "inv" :> <<"ret", 0>> @@ "post" :> <<"ret", 0>> @@ "gpost" :> <<"ret", 0>>)}
mcOptSets    == {Strict, [Strict EXCEPT !.nocatch = TRUE]}
=============================================================================
