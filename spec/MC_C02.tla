------------------------------- MODULE MC_C02 -------------------------------
(* Flag words: titles that are prefixes of each other, in several scopes.    *)
EXTENDS MCDefs

mcUserCmds ==
     "sub"       :> cmd("sub", "s", {}, "")
  @@ "sub.leaf"  :> cmd("leaf", "l", {}, "sub")
  @@ "sub.twig"  :> cmd("twig", "t", {}, "sub")
  @@ "other"     :> cmd("other", "o", {}, "")
mcCmdOrder == <<"sub", "sub.leaf", "sub.twig", "other">>
mcUserFlags ==
     "in"            :> bool("", "in", "i")
  @@ "input"         :> flag("", "input", "I", {"inp"}, "int", "7")
  @@ "all"           :> bool("", "all", "a")
  @@ "abort"         :> bool("", "abort", "ab")
  @@ "num"           :> flag("", "num", "n", {}, "int", "0")
  @@ "sub.in"        :> bool("sub", "in", "b")
  @@ "sub.abc"       :> bool("sub", "abc", "abc")
  @@ "sub.nums"      :> bool("sub", "nums", "na")
  @@ "sub.leaf.inp"  :> bool("sub.leaf", "inp", "a")
  @@ "sub.leaf.text" :> flag("sub.leaf", "text", "x", {"inputs"}, "string", "")
  @@ "sub.twig.only" :> bool("sub.twig", "only", "z")
  @@ "other.abcd"    :> bool("other", "abcd", "abcd")
  @@ "other.abortion":> bool("other", "abortion", "b")
mcFlagOrder == <<"in", "input", "all", "abort", "num", "sub.in", "sub.abc", "sub.nums", "sub.leaf.inp", "sub.leaf.text", "sub.twig.only", "other.abcd", "other.abortion">>

CmdWords  == {"sub", "leaf", "twig", "other"}
FlagWords == {"-a", "-i", "-ab", "-abc", "-abcd", "-aab", "-aba", "-abab", "-b", "-bi", "-na", "-n3", "-n3a", "-an3i", "-ani", "-I5", "-ix", "-xa", "-z", "-az",
              "--in", "--inp", "--input=3", "--inputs", "--inp4", "--all", "--allin", "--abort", "--abortion", "--abc", "--abcd", "--only", "--nums", "--num4",
              "~~in", "~~inp", "~~all", "/a", "/ab", "/in"}
mcAlphabet   == CmdWords \cup FlagWords \cup {"6"}
mcFirstWords == CmdWords \cup FlagWords
mcAfterPass  == {"-a"}
mcAfterStop  == {"-a"}
=============================================================================
