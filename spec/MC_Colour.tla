------------------------------ MODULE MC_Colour ------------------------------
EXTENDS Colour, Json

CONSTANT Sample

Basic == <<"black", "red", "green", "yellow", "blue", "magenta", "cyan", "gray">>
StyleNames == <<"bold", "dim", "italic", "underline", "blink", "rblink", "reversed", "conceal", "crossed">>
ModOf(s) == CASE s = "reversed" -> "reverse" [] s = "conceal" -> "hidden" [] OTHER -> s
N(w, n, d) == [what |-> w, name |-> n, does |-> d]
AllNames ==
  {N("style", StyleNames[i], <<"on", ModOf(StyleNames[i])>>) : i \in 1..9} \cup {N("style", "reset", <<"all">>)}
  \cup {N("reset", StyleNames[i], <<"off", ModOf(StyleNames[i])>>) : i \in 1..9} \cup {N("reset", "all", <<"all">>)}
  \cup UNION {{N("fg", Basic[i], <<"fg", <<"idx", i - 1>> >>), N("bg", Basic[i], <<"bg", <<"idx", i - 1>> >>),
               N("fgB", Basic[i], <<"fg", <<"idx", i + 7>> >>), N("bgB", Basic[i], <<"bg", <<"idx", i + 7>> >>)} : i \in 1..8}
  \cup {N("fg", "reset", <<"fg", None>>), N("bg", "reset", <<"bg", None>>)}
FewNames == {n \in AllNames : n.name \in {"bold", "all", "rblink", "red"} \/ (n.what = "bg" /\ n.name = "reset")}

\* the 256 colours by their names, with the numbers they have everywhere
NamesOf256 == {
  <<"Black", 0>>, <<"Maroon", 1>>, <<"Green", 2>>, <<"Olive", 3>>, <<"Navy", 4>>, <<"Purple", 5>>,
  <<"Teal", 6>>, <<"Silver", 7>>, <<"Grey", 8>>, <<"Red", 9>>, <<"Lime", 10>>, <<"Yellow", 11>>,
  <<"Blue", 12>>, <<"Fuchsia", 13>>, <<"Aqua", 14>>, <<"White", 15>>, <<"Grey0", 16>>, <<"NavyBlue", 17>>,
  <<"DarkBlue", 18>>, <<"Blue3", 19>>, <<"Blue2", 20>>, <<"Blue1", 21>>, <<"DarkGreen", 22>>, <<"DeepSkyBlue4_23", 23>>,
  <<"DeepSkyBlue4_24", 24>>, <<"DeepSkyBlue4_25", 25>>, <<"DodgerBlue3", 26>>, <<"DodgerBlue2", 27>>, <<"Green4", 28>>, <<"SpringGreen4", 29>>,
  <<"Turquoise4", 30>>, <<"DeepSkyBlue3_31", 31>>, <<"DeepSkyBlue3_32", 32>>, <<"DodgerBlue1", 33>>, <<"Green3", 34>>, <<"SpringGreen3", 35>>,
  <<"DarkCyan", 36>>, <<"LightSeaGreen", 37>>, <<"DeepSkyBlue2", 38>>, <<"DeepSkyBlue1", 39>>, <<"Green3_40", 40>>, <<"SpringGreen3_41", 41>>,
  <<"SpringGreen2", 42>>, <<"Cyan3", 43>>, <<"DarkTurquoise", 44>>, <<"Turquoise2", 45>>, <<"Green1", 46>>, <<"SpringGreen2_47", 47>>,
  <<"SpringGreen1", 48>>, <<"MediumSpringGreen", 49>>, <<"Cyan2", 50>>, <<"Cyan1", 51>>, <<"DarkRed", 52>>, <<"DeepPink4", 53>>,
  <<"Purple4", 54>>, <<"Purple4_55", 55>>, <<"Purple3", 56>>, <<"BlueViolet", 57>>, <<"Orange4", 58>>, <<"Grey37", 59>>,
  <<"MediumPurple4", 60>>, <<"SlateBlue3", 61>>, <<"SlateBlue3_62", 62>>, <<"RoyalBlue1", 63>>, <<"Chartreuse4", 64>>, <<"DarkSeaGreen4", 65>>,
  <<"PaleTurquoise4", 66>>, <<"SteelBlue", 67>>, <<"SteelBlue3", 68>>, <<"CornflowerBlue", 69>>, <<"Chartreuse3", 70>>, <<"DarkSeaGreen4_71", 71>>,
  <<"CadetBlue", 72>>, <<"CadetBlue_73", 73>>, <<"SkyBlue3", 74>>, <<"SteelBlue1", 75>>, <<"Chartreuse3_76", 76>>, <<"PaleGreen3", 77>>,
  <<"SeaGreen3", 78>>, <<"Aquamarine3", 79>>, <<"MediumTurquoise", 80>>, <<"SteelBlue1_81", 81>>, <<"Chartreuse2_82", 82>>, <<"SeaGreen2", 83>>,
  <<"SeaGreen1", 84>>, <<"SeaGreen1_85", 85>>, <<"Aquamarine1", 86>>, <<"DarkSlateGray2", 87>>, <<"DarkRed_88", 88>>, <<"DeepPink4_89", 89>>,
  <<"DarkMagenta", 90>>, <<"DarkMagenta_91", 91>>, <<"DarkViolet", 92>>, <<"Purple_93", 93>>, <<"Orange4_94", 94>>, <<"LightPink4", 95>>,
  <<"Plum4", 96>>, <<"MediumPurple3", 97>>, <<"MediumPurple3_98", 98>>, <<"SlateBlue1", 99>>, <<"Yellow4", 100>>, <<"Wheat4", 101>>,
  <<"Grey53", 102>>, <<"LightSlateGrey", 103>>, <<"MediumPurple", 104>>, <<"LightSlateBlue", 105>>, <<"Yellow4_106", 106>>, <<"DarkOliveGreen3", 107>>,
  <<"DarkSeaGreen", 108>>, <<"LightSkyBlue3", 109>>, <<"LightSkyBlue3_110", 110>>, <<"SkyBlue2", 111>>, <<"Chartreuse2", 112>>, <<"DarkOliveGreen3_113", 113>>,
  <<"PaleGreen3_114", 114>>, <<"DarkSeaGreen3", 115>>, <<"DarkSlateGray3", 116>>, <<"SkyBlue1", 117>>, <<"Chartreuse1", 118>>, <<"LightGreen_119", 119>>,
  <<"LightGreen", 120>>, <<"PaleGreen1", 121>>, <<"Aquamarine1_122", 122>>, <<"DarkSlateGray1", 123>>, <<"Red3", 124>>, <<"DeepPink4_125", 125>>,
  <<"MediumVioletRed", 126>>, <<"Magenta3", 127>>, <<"DarkViolet_128", 128>>, <<"Purple_129", 129>>, <<"DarkOrange3", 130>>, <<"IndianRed", 131>>,
  <<"HotPink3", 132>>, <<"MediumOrchid3", 133>>, <<"MediumOrchid", 134>>, <<"MediumPurple2", 135>>, <<"DarkGoldenrod", 136>>, <<"LightSalmon3", 137>>,
  <<"RosyBrown", 138>>, <<"Grey63", 139>>, <<"MediumPurple2_140", 140>>, <<"MediumPurple1", 141>>, <<"Gold3", 142>>, <<"DarkKhaki", 143>>,
  <<"NavajoWhite3", 144>>, <<"Grey69", 145>>, <<"LightSteelBlue3", 146>>, <<"LightSteelBlue", 147>>, <<"Yellow3", 148>>, <<"DarkOliveGreen3_149", 149>>,
  <<"DarkSeaGreen3_150", 150>>, <<"DarkSeaGreen2", 151>>, <<"LightCyan3", 152>>, <<"LightSkyBlue1", 153>>, <<"GreenYellow", 154>>, <<"DarkOliveGreen2", 155>>,
  <<"PaleGreen1_156", 156>>, <<"DarkSeaGreen2_157", 157>>, <<"DarkSeaGreen1", 158>>, <<"PaleTurquoise1", 159>>, <<"Red3_160", 160>>, <<"DeepPink3", 161>>,
  <<"DeepPink3_162", 162>>, <<"Magenta3_163", 163>>, <<"Magenta3_164", 164>>, <<"Magenta2", 165>>, <<"DarkOrange3_166", 166>>, <<"IndianRed_167", 167>>,
  <<"HotPink3_168", 168>>, <<"HotPink2", 169>>, <<"Orchid", 170>>, <<"MediumOrchid1", 171>>, <<"Orange3", 172>>, <<"LightSalmon3_173", 173>>,
  <<"LightPink3", 174>>, <<"Pink3", 175>>, <<"Plum3", 176>>, <<"Violet", 177>>, <<"Gold3_178", 178>>, <<"LightGoldenrod3", 179>>,
  <<"Tan", 180>>, <<"MistyRose3", 181>>, <<"Thistle3", 182>>, <<"Plum2", 183>>, <<"Yellow3_184", 184>>, <<"Khaki3", 185>>,
  <<"LightGoldenrod2", 186>>, <<"LightYellow3", 187>>, <<"Grey84", 188>>, <<"LightSteelBlue1", 189>>, <<"Yellow2", 190>>, <<"DarkOliveGreen1_191", 191>>,
  <<"DarkOliveGreen1", 192>>, <<"DarkSeaGreen1_193", 193>>, <<"Honeydew2", 194>>, <<"LightCyan1", 195>>, <<"Red1", 196>>, <<"DeepPink2", 197>>,
  <<"DeepPink1", 198>>, <<"DeepPink1_198", 198>>, <<"DeepPink1_199", 199>>, <<"Magenta2_200", 200>>, <<"Magenta1", 201>>, <<"OrangeRed1", 202>>,
  <<"IndianRed1", 203>>, <<"IndianRed1_204", 204>>, <<"HotPink", 205>>, <<"HotPink_206", 206>>, <<"MediumOrchid1_207", 207>>, <<"DarkOrange", 208>>,
  <<"Salmon1", 209>>, <<"LightCoral", 210>>, <<"PaleVioletRed1", 211>>, <<"Orchid2", 212>>, <<"Orchid1", 213>>, <<"Orange1", 214>>,
  <<"SandyBrown", 215>>, <<"LightSalmon1", 216>>, <<"LightPink1", 217>>, <<"Pink1", 218>>, <<"Plum1", 219>>, <<"Gold1", 220>>,
  <<"LightGoldenrod2_221", 221>>, <<"LightGoldenrod2_222", 222>>, <<"NavajoWhite1", 223>>, <<"MistyRose1", 224>>, <<"Thistle1", 225>>, <<"Yellow1", 226>>,
  <<"LightGoldenrod1", 227>>, <<"Khaki1", 228>>, <<"Wheat1", 229>>, <<"Cornsilk1", 230>>, <<"Grey100", 231>>, <<"Grey3", 232>>,
  <<"Grey7", 233>>, <<"Grey11", 234>>, <<"Grey15", 235>>, <<"Grey19", 236>>, <<"Grey23", 237>>, <<"Grey27", 238>>,
  <<"Grey30", 239>>, <<"Grey35", 240>>, <<"Grey39", 241>>, <<"Grey42", 242>>, <<"Grey46", 243>>, <<"Grey50", 244>>,
  <<"Grey54", 245>>, <<"Grey58", 246>>, <<"Grey62", 247>>, <<"Grey66", 248>>, <<"Grey70", 249>>, <<"Grey74", 250>>,
  <<"Grey78", 251>>, <<"Grey82", 252>>, <<"Grey85", 253>>, <<"Grey89", 254>>, <<"Grey93", 255>>}
Named == {<<"named", n[1], n[2]>> : n \in NamesOf256}
FewNamed == {c \in Named : c[2] \in {"Black", "Red", "Grey0", "DarkGreen", "Green3", "SpringGreen1", "Orange4", "Purple3", "CadetBlue", "DeepPink4",
                                     "DarkOliveGreen1", "Red1", "Orange1", "Gold1", "Grey100", "Grey3", "Grey93"}}

mcColours    == {<<"idx", 0>>, <<"idx", 1>>, <<"idx", 15>>, <<"idx", 255>>, <<"idx", 128>>, <<"rgb", 0, 0, 0>>, <<"rgb", 255, 128, 1>>,
                 <<"rgb", 0, 0, 255>>, <<"rgb", 255, 255, 255>>, <<"rgb", 0, 1, 0>>, <<"default">>}
mcAllColours == mcColours \cup FewNamed
mcNamed      == Named
mcFewColours == {<<"idx", 9>>, <<"rgb", 0, 0, 7>>}
mcTexts      == {"", "x", "two words", "a;b[0m"}
mcFewTexts   == {"x"}
mcTerms      == {"", "xterm", "xterm-256color", "screen.linux", "rxvt-unicode", "vt100", "ansi", "dumb", "vt220", "linux", "my-color", "emacs"}
mcFewTerms   == {"xterm", "dumb"}
none         == {}
mcOneMod     == {"bold"}
mcOneColour  == {<<"idx", 9>>}
OneLong      == \A i \in DOMAIN ops : ops[i][1] \notin {"default", "write"} /\ (i > 1 => ops[i][1] # "term") /\ (i > 2 => ops[i][1] # "new")
OneColour    == Cardinality({i \in DOMAIN ops : ops[i][1] \in {"fg", "bg"}}) <= 1 /\ \A i \in DOMAIN ops : ops[i][1] \in {"term", "new", "fg", "bg", "cc", "print"}
mcFewMods    == {"bold", "rblink"}

Emit == (ops # <<>> /\ (Len(ops) = MaxOps \/ (Sample = 0 /\ ops[Len(ops)][1] \in {"print", "name", "write"}))) =>
          PrintT("@CASE " \o ToJson([ops |-> ops, cells |-> cells, term |-> term]))
EmitLong == (OneLong /\ ops # <<>> /\ ops[Len(ops)][1] = "print") => Emit
EmitNamed == (OneColour /\ Len(ops) = MaxOps) => Emit
=============================================================================
