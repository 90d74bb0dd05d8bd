------------------------------ MODULE MC_Typed ------------------------------
EXTENDS Typed
num == {"0", "1", "9", "-", "+", " ", "x", "."}
flt == {"0", "1", "9", "-", "+", ".", "e", "5"}
big == num \cup {"2147483647", "2147483648", "4294967295", "4294967296", "32767", "32768", "65535", "65536", "9223372036854775807", "9223372036854775808",
                 "18446744073709551615", "18446744073709551616", "00", "99999999999999999999999", ","}
words == {"true", "TRUE", "True", "tRuE", "false", "FALSE", "False", "yes", "Yes", "no", "NO", "on", "On", "off", "OFF", "oFf", "t", "T", "f", "y", "n", "N",
          "0", "1", "2", "-", " ", "x", "o", "e", "=", "_"}
quoted == {"\"", "'", "a", "b c", " ", "1", "-", ",", "\\", "["}
list == {"[", "]", ",", "1", "-2", "007", "x", " 3", "2147483648"}
flist == {"[", "]", ",", "1.5", "-2", "x", " 3", "e"}
slist == {"[", "]", ",", "a", "b c", "\"", "1"}
blist == {"[", "]", ",", "1", "0", "2", "true"}
sCases == [int |-> num, uint |-> num, int64 |-> num, uint64 |-> num, int16 |-> num, uint16 |-> num, double |-> flt, float |-> flt, ldouble |-> flt,
           string |-> quoted, vint |-> list, vint64 |-> list, vuint |-> list, vint16 |-> list, vuint16 |-> list, vuint64 |-> list,
           vbool |-> blist, vdouble |-> flist, vstr |-> slist] @@ ("char*" :> quoted)
bCases == [bool |-> words, int |-> big, uint |-> big, int64 |-> big, uint64 |-> big, int16 |-> big, uint16 |-> big, double |-> big]
mcCases == sCases @@ [bool |-> words]
=============================================================================
