------------------------------- MODULE MC_C12 -------------------------------
(* Histories of runs, with and without a reset between them.                 *)
EXTENDS MCDefs

mcUserCmds ==
     "ms"       :> cmd("ms", "m", {}, "")
  @@ "ms.ls"    :> cmd("ls", "l", {}, "ms")
  @@ "go"       :> cmd("go", "o", {}, "")
mcCmdOrder == <<"ms", "ms.ls", "go">>
mcUserFlags ==
     "num"      :> F("", "num", "n", {}, "int", "4", "", FALSE, <<"NUM">>, NoHandler)
  @@ "names"    :> flag("", "names", "N", {}, "vstr", "[a]")
  @@ "json"     :> radio("", "json", "j", "fmt", "true")
  @@ "yaml"     :> radio("", "yaml", "y", "fmt", "false")
  @@ "ms.id"    :> required("ms", "id", "i", "string", "", <<>>)
mcFlagOrder == <<"num", "names", "json", "yaml", "ms.id">>
mcAlphabet   == {"ms", "ls", "go", "-n5", "-n", "-y", "-ix", "-Np,q", "p", "zz", "--zz", "--", "-v", "-j"}
mcFirstWords == {"ms", "go", "-n5", "-y", "-Np,q", "zz", "-vj"}
mcAfterPass  == {"-y", "q"}
mcAfterStop  == {"go"}
mcEnvSets    == {<<>>, "NUM" :> "8"}
mcLoadSets   == {<<>>, <<[key |-> "app.cli.names", t |-> "vstr", v |-> "[l]"]>>}
mcHandlerSets == {("inv" :> <<"ret", 1>>), ("gpre" :> <<"ret", 0>> @@ "inv" :> <<"throw">> @@ "post" :> <<"ret", 0>>)}
mcOptSets    == {Strict, [Strict EXCEPT !.strictCmd = FALSE, !.strictFlag = FALSE]}
yes == TRUE
\* small sets for the exhaustive model
fewWords == {"ms", "ls", "-n5", "-y", "-ix", "zz"}
fewFirst == {"ms", "go", "-n5", "-y", "zz"}
oneHandler == {"inv" :> <<"ret", 1>>}
=============================================================================
