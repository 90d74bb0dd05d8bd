------------------------------ MODULE MC_Store ------------------------------
EXTENDS Store
D(t, v) == [t |-> t, v |-> v]
mcKeys == {<<"app", "a">>, <<"app", "a", "b">>, <<"app", "a", "bc">>, <<"app", "ab", "b">>, <<"app", "a", "b", "c">>, <<"a">>, <<"app">>,
           <<"app", "b", "a">>, <<"a", "app">>, <<"x-y", "z", "w">>, <<"app", "a", "b", "c", "d">>}
mcValues == {D("bool", "true"), D("bool", "false"), D("int", "-7"), D("int64", "9000000000"), D("uint", "7"), D("double", "1.5"), D("string", ""),
             D("string", "a b"), D("string", "q\"x"), D("vint", "[1,2,3]"), D("vstr", "[x,y]"), D("vstr", "[]"), D("char*", "lit")}
mcSlots == {1, 2}
sKeys == {<<"app", "a">>, <<"app", "a", "b">>, <<"app", "ab">>, <<"app">>}
sValues == {D("int", "1"), D("string", "s")}
sSlots == {1}
=============================================================================
