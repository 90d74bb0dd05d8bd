----------------------------- MODULE MC_Signal -----------------------------
EXTENDS Signal
sKinds == {"free", "lambda", "pointer", "taker"}
mKinds == {"free", "static", "lambda", "generic", "functor", "copy", "pointer", "taker"}
maps0 == << <<>> >>
maps1 == << <<"1">> >>
maps2 == << <<"1", "2">>, <<"2", "1">>, <<"1", "1">>, <<"k", "1">> >>
maps3 == << <<"1", "2", "3">> >>
mapsb == << <<"1">>, <<"k", "1">> >>
mTexts == {"", "some text that is longer than the small buffer"}
tTexts == {"x"}
one == {1}
two == {1, 2}
m0 == "0"
m1 == "1"
m2 == "2"
m3 == "3"
mb == "b"
=============================================================================
