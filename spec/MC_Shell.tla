------------------------------- MODULE MC_Shell -------------------------------
EXTENDS Shell, Json

Emit == (Len(rounds) = MaxRounds) => PrintT("@CASE " \o ToJson([rounds |-> rounds]))

mcTexts   == {"x", "", "two words", "it's", "100%s $HOME `a` \\n \"q\" # no", "; > & |", "@bytes@"}
mcTimes   == {1, 1000, 60000}
mcFewTimes == {1}
mcCodes   == {0, 1, 3, 127, 255}
mcSignals == {9, 15, 1}
mcWays    == {"stream", "twice", "lines", "chars", "errfirst"}
mcFewTexts == {"x"}
mcFewCodes == {3}
mcFewSignals == {9}
mcFewWays == {"twice"}
=============================================================================
