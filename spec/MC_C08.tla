------------------------------- MODULE MC_C08 -------------------------------
(* Handlers: order, results and failures.                                    *)
EXTENDS MCDefs

mcUserCmds ==
     "go"      :> cmd("go", "g2", {}, "")
  @@ "ms"      :> cmd("ms", "m", {}, "")
  @@ "ms.ls"   :> cmd("ls", "l", {}, "ms")
mcCmdOrder == <<"go", "ms", "ms.ls">>
mcUserFlags == "name" :> flag("", "name", "n", {}, "string", "")
mcFlagOrder == <<"name">>
mcAlphabet   == {"go", "ms", "ls", "a", "-v", "-nx", "bad", "--bad"}
mcFirstWords == {"go", "ms", "-v", "--bad", "bad"}
mcAfterPass  == {"a"}
mcAfterStop  == {"go"}

None == <<"none">>
Codes(s) == CASE s = "gpre"  -> {None, <<"ret", 0>>, <<"ret", 3>>, <<"throw">>}
              [] s = "pre"   -> {None, <<"ret", 0>>, <<"ret", -2>>, <<"throw">>}
              [] s = "inv"   -> {None, <<"ret", 0>>, <<"ret", 7>>, <<"ret", -1>>, <<"throw">>, <<"request", ReqHelp>>}
              [] s = "post"  -> {None, <<"ret", 0>>, <<"ret", 5>>, <<"throw">>}
              [] s = "gpost" -> {None, <<"ret", 0>>, <<"ret", 6>>, <<"throw">>}
              [] s = "nothooked" -> {None, <<"ret", 4>>}
mcHandlerSets == {[s \in {"gpre", "pre", "inv", "post", "gpost", "nothooked"} |->
                     CASE s = "gpre" -> a [] s = "pre" -> b [] s = "inv" -> c [] s = "post" -> d [] s = "gpost" -> e [] OTHER -> f] :
                   a \in Codes("gpre"), b \in Codes("pre"), c \in Codes("inv"), d \in Codes("post"), e \in Codes("gpost"), f \in Codes("nothooked")}
fewHandlerSets == {h \in mcHandlerSets : h["gpre"] \in {None, <<"ret", 0>>} /\ h["pre"] # <<"ret", 0>> /\ h["gpost"] \in {<<"ret", 6>>, <<"throw">>} /\ h["nothooked"] = <<"ret", 4>>
                                         /\ h["post"] \in {<<"ret", 5>>, <<"throw">>}}
=============================================================================
