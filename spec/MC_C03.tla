------------------------------- MODULE MC_C03 -------------------------------
(* Flag values: every type, every spelling.                                  *)
EXTENDS MCDefs

mcUserCmds ==
     "run"     :> cmd("run", "r", {}, "")
  @@ "grp"     :> cmd("grp", "g2", {}, "")
  @@ "grp.go"  :> cmd("go", "o", {"42"}, "grp")
mcCmdOrder == <<"run", "grp", "grp.go">>
mcUserFlags ==
     "str"      :> flag("", "str", "s", {"text"}, "string", "dflt")
  @@ "num"      :> flag("", "num", "n", {"number"}, "int", "5")
  @@ "big"      :> flag("", "big", "l", {}, "int64", "-6")
  @@ "cnt"      :> flag("", "cnt", "u", {}, "uint", "3")
  @@ "rate"     :> flag("", "rate", "f", {}, "double", "1.5")
  @@ "ids"      :> flag("", "ids", "i", {}, "vint", "[1,2]")
  @@ "names"    :> flag("", "names", "w", {}, "vstr", "[a,b]")
  @@ "yes"      :> bool("", "yes", "y")
  @@ "no"       :> flag("", "no", "z", {}, "bool", "true")
  @@ "grp.num"  :> flag("grp", "num", "m", {}, "int", "9")
mcFlagOrder == <<"str", "num", "big", "cnt", "rate", "ids", "names", "yes", "no", "grp.num">>

\* every spelling of a value given within the word
Spell(l, s, vs) == UNION {{"--" \o l \o "=" \o v, "-" \o s \o "=" \o v, "-" \o s \o v, "--" \o l \o "='" \o v \o "'", "~~" \o l \o "=" \o v,
                           "-" \o s \o "=\"" \o v \o "\""} : v \in vs}
Inner == UNION {Spell("str", "s", {"abc", "-x", "a=b", "a b", "x,y"}), Spell("num", "n", {"7", "-7", "+8", "007", "2147483647"}),
                Spell("big", "l", {"9223372036854775807", "-12"}), Spell("cnt", "u", {"4294967295", "0"}),
                Spell("rate", "f", {"2.5", "-0.25", "3"}), Spell("ids", "i", {"[7,8,9]", "4,5", "6"}),
                Spell("names", "w", {"[p,q]", "x,y,z", "one"})}
Bad2  == {"--num=x", "-n=x", "-nx", "--num='x'", "--cnt=z", "--rate=abc", "--ids=[1,x]", "--ids=1,,2", "-i=a", "--num=2147483648"}
Bools == {"--yes", "-y", "--yes-", "-y-", "-y+", "--no", "--no-", "-z-", "~~no-"}
Opens == {"--str", "-s", "--num", "-n", "--number", "--big", "-l", "--cnt", "-u", "--rate", "-f", "--ids", "-i", "--names", "-w", "--text"}
Texts == {"7", "-7", "2.5", "[7,8,9]", "4,5", "abc", "'q'", "\"d e\"", "x", "99999999999", "42", "go", "run"}

mcAlphabet   == Inner \cup Bad2 \cup Bools \cup Opens \cup Texts \cup {"grp"}
\* the exhaustive model: one or two flags, then what follows
mcFirstWords == Inner \cup Bad2 \cup Bools \cup Opens \cup {"run", "grp"}
Second       == Texts \cup {"--str", "-n", "-y", "--num=8", "-w", "grp"}
mcAfterPass  == {"x"}
mcAfterStop  == {"x"}
=============================================================================
