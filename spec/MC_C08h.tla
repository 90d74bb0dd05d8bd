------------------------------- MODULE MC_C08h ------------------------------
(* Hit handlers of commands and flags, and the results they return.          *)
EXTENDS MCDefs

hitcmd(l, s, o, rc)  == [C(l, s, {}, o, FALSE) EXCEPT !.hit = rc]
hitflag(c, l, s, t, d, rc) == F(c, l, s, {}, t, d, "", FALSE, <<>>, rc)
mcUserCmds ==
     "go"      :> hitcmd("go", "g2", "", OK)
  @@ "ask"     :> hitcmd("ask", "a", "", ReqHelp)
  @@ "halt"    :> hitcmd("halt", "x", "", Abortion)
  @@ "ms"      :> hitcmd("ms", "m", "", Continue)
  @@ "ms.ls"   :> hitcmd("ls", "l", "ms", OK)
mcCmdOrder == <<"go", "ask", "halt", "ms", "ms.ls">>
mcUserFlags ==
     "name" :> hitflag("", "name", "n", "string", "", Continue)
  @@ "num"  :> hitflag("", "num", "u", "int", "0", OK)
  @@ "stop" :> hitflag("", "stop", "S", "bool", "false", Abortion)
  @@ "tell" :> hitflag("", "tell", "T", "bool", "false", ReqVersion)
  @@ "fly"  :> hitflag("", "fly", "y", "bool", "false", OK)
  @@ "ms.w" :> hitflag("ms", "w", "w", "bool", "false", Continue)
mcFlagOrder == <<"name", "num", "stop", "tell", "fly", "ms.w">>
mcAlphabet   == {"go", "ask", "halt", "ms", "ls", "p", "-nx", "-n", "-u", "5", "-u6", "--num=7", "-S", "-T", "-y", "-yw", "-yS", "-wy", "--", "-v"}
mcFirstWords == mcAlphabet \ {"p", "5"}
mcAfterPass  == {"p", "-y"}
mcAfterStop  == {"go", "-y"}
mcHandlerSets == {OnlyInv, ("pre" :> <<"ret", 0>> @@ "inv" :> <<"ret", 2>> @@ "gpost" :> <<"ret", 0>>)}
=============================================================================
