// The names of the 256 colours.
#pragma once
#define COLOUR_NAMES(X) \
  X(Black) X(Maroon) X(Green) X(Olive) X(Navy) X(Purple) X(Teal) X(Silver) \
  X(Grey) X(Red) X(Lime) X(Yellow) X(Blue) X(Fuchsia) X(Aqua) X(White) \
  X(Grey0) X(NavyBlue) X(DarkBlue) X(Blue3) X(Blue2) X(Blue1) X(DarkGreen) X(DeepSkyBlue4_23) \
  X(DeepSkyBlue4_24) X(DeepSkyBlue4_25) X(DodgerBlue3) X(DodgerBlue2) X(Green4) X(SpringGreen4) X(Turquoise4) X(DeepSkyBlue3_31) \
  X(DeepSkyBlue3_32) X(DodgerBlue1) X(Green3) X(SpringGreen3) X(DarkCyan) X(LightSeaGreen) X(DeepSkyBlue2) X(DeepSkyBlue1) \
  X(Green3_40) X(SpringGreen3_41) X(SpringGreen2) X(Cyan3) X(DarkTurquoise) X(Turquoise2) X(Green1) X(SpringGreen2_47) \
  X(SpringGreen1) X(MediumSpringGreen) X(Cyan2) X(Cyan1) X(DarkRed) X(DeepPink4) X(Purple4) X(Purple4_55) \
  X(Purple3) X(BlueViolet) X(Orange4) X(Grey37) X(MediumPurple4) X(SlateBlue3) X(SlateBlue3_62) X(RoyalBlue1) \
  X(Chartreuse4) X(DarkSeaGreen4) X(PaleTurquoise4) X(SteelBlue) X(SteelBlue3) X(CornflowerBlue) X(Chartreuse3) X(DarkSeaGreen4_71) \
  X(CadetBlue) X(CadetBlue_73) X(SkyBlue3) X(SteelBlue1) X(Chartreuse3_76) X(PaleGreen3) X(SeaGreen3) X(Aquamarine3) \
  X(MediumTurquoise) X(SteelBlue1_81) X(Chartreuse2_82) X(SeaGreen2) X(SeaGreen1) X(SeaGreen1_85) X(Aquamarine1) X(DarkSlateGray2) \
  X(DarkRed_88) X(DeepPink4_89) X(DarkMagenta) X(DarkMagenta_91) X(DarkViolet) X(Purple_93) X(Orange4_94) X(LightPink4) \
  X(Plum4) X(MediumPurple3) X(MediumPurple3_98) X(SlateBlue1) X(Yellow4) X(Wheat4) X(Grey53) X(LightSlateGrey) \
  X(MediumPurple) X(LightSlateBlue) X(Yellow4_106) X(DarkOliveGreen3) X(DarkSeaGreen) X(LightSkyBlue3) X(LightSkyBlue3_110) X(SkyBlue2) \
  X(Chartreuse2) X(DarkOliveGreen3_113) X(PaleGreen3_114) X(DarkSeaGreen3) X(DarkSlateGray3) X(SkyBlue1) X(Chartreuse1) X(LightGreen_119) \
  X(LightGreen) X(PaleGreen1) X(Aquamarine1_122) X(DarkSlateGray1) X(Red3) X(DeepPink4_125) X(MediumVioletRed) X(Magenta3) \
  X(DarkViolet_128) X(Purple_129) X(DarkOrange3) X(IndianRed) X(HotPink3) X(MediumOrchid3) X(MediumOrchid) X(MediumPurple2) \
  X(DarkGoldenrod) X(LightSalmon3) X(RosyBrown) X(Grey63) X(MediumPurple2_140) X(MediumPurple1) X(Gold3) X(DarkKhaki) \
  X(NavajoWhite3) X(Grey69) X(LightSteelBlue3) X(LightSteelBlue) X(Yellow3) X(DarkOliveGreen3_149) X(DarkSeaGreen3_150) X(DarkSeaGreen2) \
  X(LightCyan3) X(LightSkyBlue1) X(GreenYellow) X(DarkOliveGreen2) X(PaleGreen1_156) X(DarkSeaGreen2_157) X(DarkSeaGreen1) X(PaleTurquoise1) \
  X(Red3_160) X(DeepPink3) X(DeepPink3_162) X(Magenta3_163) X(Magenta3_164) X(Magenta2) X(DarkOrange3_166) X(IndianRed_167) \
  X(HotPink3_168) X(HotPink2) X(Orchid) X(MediumOrchid1) X(Orange3) X(LightSalmon3_173) X(LightPink3) X(Pink3) \
  X(Plum3) X(Violet) X(Gold3_178) X(LightGoldenrod3) X(Tan) X(MistyRose3) X(Thistle3) X(Plum2) \
  X(Yellow3_184) X(Khaki3) X(LightGoldenrod2) X(LightYellow3) X(Grey84) X(LightSteelBlue1) X(Yellow2) X(DarkOliveGreen1_191) \
  X(DarkOliveGreen1) X(DarkSeaGreen1_193) X(Honeydew2) X(LightCyan1) X(Red1) X(DeepPink2) X(DeepPink1) X(DeepPink1_198) \
  X(DeepPink1_199) X(Magenta2_200) X(Magenta1) X(OrangeRed1) X(IndianRed1) X(IndianRed1_204) X(HotPink) X(HotPink_206) \
  X(MediumOrchid1_207) X(DarkOrange) X(Salmon1) X(LightCoral) X(PaleVioletRed1) X(Orchid2) X(Orchid1) X(Orange1) \
  X(SandyBrown) X(LightSalmon1) X(LightPink1) X(Pink1) X(Plum1) X(Gold1) X(LightGoldenrod2_221) X(LightGoldenrod2_222) \
  X(NavajoWhite1) X(MistyRose1) X(Thistle1) X(Yellow1) X(LightGoldenrod1) X(Khaki1) X(Wheat1) X(Cornsilk1) \
  X(Grey100) X(Grey3) X(Grey7) X(Grey11) X(Grey15) X(Grey19) X(Grey23) X(Grey27) \
  X(Grey30) X(Grey35) X(Grey39) X(Grey42) X(Grey46) X(Grey50) X(Grey54) X(Grey58) \
  X(Grey62) X(Grey66) X(Grey70) X(Grey74) X(Grey78) X(Grey82) X(Grey85) X(Grey89) \
  X(Grey93)
