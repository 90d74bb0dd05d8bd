------------------------------- MODULE MCDefs -------------------------------
(* Defaults and shorthands shared by the models of CmdrParser.               *)
EXTENDS CmdrParser

cmd(l, s, al, o)          == C(l, s, al, o, FALSE)
bool(c, l, s)             == F(c, l, s, {}, "bool", "false", "", FALSE, <<>>, NoHandler)
flag(c, l, s, al, t, d)   == F(c, l, s, al, t, d, "", FALSE, <<>>, NoHandler)
radio(c, l, s, g, d)      == F(c, l, s, {}, "bool", d, g, FALSE, <<>>, NoHandler)
required(c, l, s, t, d, envs) == [F(c, l, s, {}, t, d, "", FALSE, envs, NoHandler) EXCEPT !.required = TRUE]

Strict    == [strictCmd |-> TRUE, strictFlag |-> TRUE, nocatch |-> FALSE]
OnlyInv   == "inv" :> <<"ret", 0>>
noEnv     == {<<>>}
noLoad    == {<<>>}
onlyInv   == {OnlyInv}
onlyStrict == {Strict}
no        == FALSE
nothing   == {}
Prefixed(p, S) == {p \o s : s \in S}

ASSUME EmitMenu
=============================================================================
