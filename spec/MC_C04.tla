------------------------------- MODULE MC_C04 -------------------------------
(* Where a flag gets its value from: default, loader, environment, line.     *)
EXTENDS MCDefs

mcUserCmds ==
     "db"       :> cmd("db", "d", {}, "")
  @@ "db.up"    :> cmd("up", "u", {}, "db")
  @@ "web"      :> cmd("web", "w", {}, "")
mcCmdOrder == <<"db", "db.up", "web">>
mcUserFlags ==
     "host"          :> F("", "host", "H", {}, "string", "localhost", "", FALSE, <<"MY_HOST", "ALT_HOST">>, NoHandler)
  @@ "port"          :> F("", "port", "p", {}, "int", "80", "", FALSE, <<"MY_PORT">>, NoHandler)
  @@ "fast"          :> F("", "fast", "f", {}, "bool", "false", "", FALSE, <<"MY_FAST">>, NoHandler)
  @@ "db.port"       :> F("db", "port", "P", {}, "int", "5432", "", FALSE, <<"DB_PORT">>, NoHandler)
  @@ "db.up.retries" :> F("db.up", "retries", "r", {}, "uint", "3", "", FALSE, <<>>, NoHandler)
  @@ "db.up.tag-list":> F("db.up", "tag-list", "t", {}, "vstr", "[x,y]", "", FALSE, <<"TAG_LIST">>, NoHandler)
  @@ "web.port"      :> F("web", "port", "P", {}, "int", "8080", "", FALSE, <<"DB_PORT", "WEB_PORT">>, NoHandler)
mcFlagOrder == <<"host", "port", "fast", "db.port", "db.up.retries", "db.up.tag-list", "web.port">>

mcAlphabet   == {"db", "up", "web", "--host=cli", "-p", "81", "--port=82", "-p=83", "-P84", "-P=x", "--retries=9", "-t", "c,d", "--fast", "-f-", "-H", "one", "arg"}
mcFirstWords == mcAlphabet \ {"81", "arg", "one", "c,d"}
mcAfterPass  == {"x"}
mcAfterStop  == {"x"}

E1 == {<<>>, "MY_HOST" :> "envhost", "ALT_HOST" :> "alt", ("MY_HOST" :> "envhost" @@ "ALT_HOST" :> "alt")}
E2 == {<<>>, "MY_PORT" :> "1001", "MY_PORT" :> "bad", "DB_PORT" :> "1002", "APP_CLI_DB_PORT" :> "1003",
       ("DB_PORT" :> "1002" @@ "APP_CLI_DB_PORT" :> "1003"), ("WEB_PORT" :> "1004" @@ "DB_PORT" :> "nope"), ("APP_CLI_DB_PORT" :> "1x" @@ "MY_FAST" :> "true")}
E3 == {<<>>, "APP_CLI_DB_UP_RETRIES" :> "12", "APP_CLI_DB_UP_TAG_LIST" :> "[e,f]", "TAG_LIST" :> "g", "APP_CLI_PORT" :> "77", "MY_FAST" :> "on", "MY_FAST" :> "maybe",
       "APP_CLI_HOST" :> "h2"}
mcEnvSets == {a @@ b @@ c : a \in E1, b \in E2, c \in E3}
smallEnvSets == {a @@ b : a \in {<<>>, "MY_HOST" :> "envhost"}, b \in E2} \cup {"APP_CLI_DB_UP_RETRIES" :> "12", ("TAG_LIST" :> "g" @@ "APP_CLI_PORT" :> "77")}
L(k, t, v) == [key |-> "app.cli." \o k, t |-> t, v |-> v]
mcLoadSets == {<<>>, <<L("host", "string", "loaded"), L("port", "int", "90")>>, <<L("db.port", "int", "91"), L("db.up.retries", "uint", "4")>>,
               <<L("db.up.tag-list", "vstr", "[m,n]"), L("web.port", "int", "92"), L("fast", "bool", "true"), L("extra.key", "string", "v")>>}
smallLoadSets == {<<>>, <<L("host", "string", "loaded"), L("port", "int", "90"), L("db.port", "int", "91")>>}
=============================================================================
