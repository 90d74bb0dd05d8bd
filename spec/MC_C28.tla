------------------------------- MODULE MC_C28 -------------------------------
(* Misspelt words: what is suggested, and the feel-like mode.                *)
EXTENDS MCDefs

mcUserCmds ==
     "server"        :> cmd("server", "s", {"serve", "svr"}, "")
  @@ "server.start"  :> cmd("start", "st", {"run"}, "server")
  @@ "server.status" :> cmd("status", "sts", {}, "server")
  @@ "server.restart" :> cmd("restart", "", {"reload"}, "server")
  @@ "services"      :> cmd("services", "sv", {}, "")
  @@ "client"        :> cmd("client", "c", {"clients"}, "")
mcCmdOrder == <<"server", "server.start", "server.status", "server.restart", "services", "client">>
mcUserFlags ==
     "port"          :> flag("", "port", "p", {"ports"}, "int", "0")
  @@ "server.host"   :> flag("server", "host", "ho", {"hosts"}, "string", "")
  @@ "server.status.format" :> flag("server.status", "format", "fmt", {"style"}, "string", "")
  @@ "client.hostname" :> bool("client", "hostname", "hn")
  @@ "formats"       :> flag("", "formats", "fs", {}, "string", "")
mcFlagOrder == <<"port", "server.host", "server.status.format", "client.hostname", "formats">>
mcAlphabet   == {"server", "s", "status", "client", "sever", "servr", "servers", "sevrer", "service", "start", "stat", "stats", "sttaus",
                 "restrat", "reloda", "reloads", "clinet", "vesrion", "rnu", "xyz", "a",
                 "--prot=3", "--prt", "--hots", "--hosst=x", "--fromat", "--styl", "--hostnam", "--verison", "--hlep", "--zzz", "~~prot", "-fm", "-hx", "-sn", "-vz", "-x",
                 "--feel-like", "-bet"}
mcFirstWords == mcAlphabet
mcAfterPass  == {}
mcAfterStop  == {"server"}
mcSuggesting == TRUE
=============================================================================
