------------------------------ MODULE MC_Yaml -------------------------------
EXTENDS Yaml
S(f, t) == [text |-> t, form |-> f]
sKeys == {"app", "a", "a.b"}
sScalars == {S("plain", "x"), S("plain", "yes"), S("quoted", "no"), S("plain", "~")}
qScalars == {S("plain", "yes"), S("quoted", "no")}
sPlaces == {1}
sStyles == {"block"}
tKeys == {"app", "b"}
tScalars == {S("plain", "x"), S("plain", "off")}
tPlaces == 1..3
mKeys == {"app", "a", "b", "a.b", "app.a", "debug", "x-y", "k 1", "7", "yes", "cli.name", "deep.er.key", "B"}
mScalars == {S("plain", t) : t \in Truths \cup Falses \cup Nulls \cup {"x", "tRUE", "yEs", "0", "1", "-17", "9.80", "1e3", "0x1F", "8s", "45.7min", "just a demo",
               "a:b", "a#b", "2021-01-31", "18446744073709551616", "nan", ".inf", "it's", "yesterday", "t", "F", "None", "C:\\dir"}}
            \cup {S("quoted", t) : t \in {"", "yes", "n", "~", "null", "1", " padded ", "# no comment", "a: b", "tab\there", "line\nbreak", "\"", "back\\slash", "[a, b]", "{a}", "- x"}}
            \cup {S("single", t) : t \in {"", "no", "it's", "a\\n", "true", "x y"}}
            \cup {S("str", t) : t \in {"yes", "12", "off"}}
            \cup {S("literal", t) : t \in {"one\ntwo\n", "yes\n", "# x\n  y\n"}}
            \cup {S("alias", t) : t \in {"x", "shared text"}}
mPlaces == 1..6
mStyles == {"block", "flow", "mixed"}
=============================================================================
