// the 256-colour palette by name, as xterm numbers it
#pragma once
#define PALETTE(X) \
  X(Black, 0) X(Maroon, 1) X(Green, 2) X(Olive, 3) X(Navy, 4) X(Purple, 5) X(Teal, 6) X(Silver, 7) X(Grey, 8) X(Red, 9) X(Lime, 10) X(Yellow, 11) \
  X(Blue, 12) X(Fuchsia, 13) X(Aqua, 14) X(White, 15) X(Grey0, 16) X(NavyBlue, 17) X(DarkBlue, 18) X(Blue3, 19) X(Blue2, 20) X(Blue1, 21) \
  X(DarkGreen, 22) X(DeepSkyBlue4_23, 23) X(DeepSkyBlue4_24, 24) X(DeepSkyBlue4_25, 25) X(DodgerBlue3, 26) X(DodgerBlue2, 27) X(Green4, 28) \
  X(SpringGreen4, 29) X(Turquoise4, 30) X(DeepSkyBlue3_31, 31) X(DeepSkyBlue3_32, 32) X(DodgerBlue1, 33) X(Green3, 34) X(SpringGreen3, 35) \
  X(DarkCyan, 36) X(LightSeaGreen, 37) X(DeepSkyBlue2, 38) X(DeepSkyBlue1, 39) X(Green3_40, 40) X(SpringGreen3_41, 41) X(SpringGreen2, 42) \
  X(Cyan3, 43) X(DarkTurquoise, 44) X(Turquoise2, 45) X(Green1, 46) X(SpringGreen2_47, 47) X(SpringGreen1, 48) X(MediumSpringGreen, 49) X(Cyan2, 50) \
  X(Cyan1, 51) X(DarkRed, 52) X(DeepPink4, 53) X(Purple4, 54) X(Purple4_55, 55) X(Purple3, 56) X(BlueViolet, 57) X(Orange4, 58) X(Grey37, 59) \
  X(MediumPurple4, 60) X(SlateBlue3, 61) X(SlateBlue3_62, 62) X(RoyalBlue1, 63) X(Chartreuse4, 64) X(DarkSeaGreen4, 65) X(PaleTurquoise4, 66) \
  X(SteelBlue, 67) X(SteelBlue3, 68) X(CornflowerBlue, 69) X(Chartreuse3, 70) X(DarkSeaGreen4_71, 71) X(CadetBlue, 72) X(CadetBlue_73, 73) \
  X(SkyBlue3, 74) X(SteelBlue1, 75) X(Chartreuse3_76, 76) X(PaleGreen3, 77) X(SeaGreen3, 78) X(Aquamarine3, 79) X(MediumTurquoise, 80) \
  X(SteelBlue1_81, 81) X(Chartreuse2_82, 82) X(SeaGreen2, 83) X(SeaGreen1, 84) X(SeaGreen1_85, 85) X(Aquamarine1, 86) X(DarkSlateGray2, 87) \
  X(DarkRed_88, 88) X(DeepPink4_89, 89) X(DarkMagenta, 90) X(DarkMagenta_91, 91) X(DarkViolet, 92) X(Purple_93, 93) X(Orange4_94, 94) \
  X(LightPink4, 95) X(Plum4, 96) X(MediumPurple3, 97) X(MediumPurple3_98, 98) X(SlateBlue1, 99) X(Yellow4, 100) X(Wheat4, 101) X(Grey53, 102) \
  X(LightSlateGrey, 103) X(MediumPurple, 104) X(LightSlateBlue, 105) X(Yellow4_106, 106) X(DarkOliveGreen3, 107) X(DarkSeaGreen, 108) \
  X(LightSkyBlue3, 109) X(LightSkyBlue3_110, 110) X(SkyBlue2, 111) X(Chartreuse2, 112) X(DarkOliveGreen3_113, 113) X(PaleGreen3_114, 114) \
  X(DarkSeaGreen3, 115) X(DarkSlateGray3, 116) X(SkyBlue1, 117) X(Chartreuse1, 118) X(LightGreen_119, 119) X(LightGreen, 120) X(PaleGreen1, 121) \
  X(Aquamarine1_122, 122) X(DarkSlateGray1, 123) X(Red3, 124) X(DeepPink4_125, 125) X(MediumVioletRed, 126) X(Magenta3, 127) X(DarkViolet_128, 128) \
  X(Purple_129, 129) X(DarkOrange3, 130) X(IndianRed, 131) X(HotPink3, 132) X(MediumOrchid3, 133) X(MediumOrchid, 134) X(MediumPurple2, 135) \
  X(DarkGoldenrod, 136) X(LightSalmon3, 137) X(RosyBrown, 138) X(Grey63, 139) X(MediumPurple2_140, 140) X(MediumPurple1, 141) X(Gold3, 142) \
  X(DarkKhaki, 143) X(NavajoWhite3, 144) X(Grey69, 145) X(LightSteelBlue3, 146) X(LightSteelBlue, 147) X(Yellow3, 148) X(DarkOliveGreen3_149, 149) \
  X(DarkSeaGreen3_150, 150) X(DarkSeaGreen2, 151) X(LightCyan3, 152) X(LightSkyBlue1, 153) X(GreenYellow, 154) X(DarkOliveGreen2, 155) \
  X(PaleGreen1_156, 156) X(DarkSeaGreen2_157, 157) X(DarkSeaGreen1, 158) X(PaleTurquoise1, 159) X(Red3_160, 160) X(DeepPink3, 161) \
  X(DeepPink3_162, 162) X(Magenta3_163, 163) X(Magenta3_164, 164) X(Magenta2, 165) X(DarkOrange3_166, 166) X(IndianRed_167, 167) X(HotPink3_168, 168) \
  X(HotPink2, 169) X(Orchid, 170) X(MediumOrchid1, 171) X(Orange3, 172) X(LightSalmon3_173, 173) X(LightPink3, 174) X(Pink3, 175) X(Plum3, 176) \
  X(Violet, 177) X(Gold3_178, 178) X(LightGoldenrod3, 179) X(Tan, 180) X(MistyRose3, 181) X(Thistle3, 182) X(Plum2, 183) X(Yellow3_184, 184) \
  X(Khaki3, 185) X(LightGoldenrod2, 186) X(LightYellow3, 187) X(Grey84, 188) X(LightSteelBlue1, 189) X(Yellow2, 190) X(DarkOliveGreen1_191, 191) \
  X(DarkOliveGreen1, 192) X(DarkSeaGreen1_193, 193) X(Honeydew2, 194) X(LightCyan1, 195) X(Red1, 196) X(DeepPink2, 197) X(DeepPink1, 198) \
  X(DeepPink1_198, 198) X(DeepPink1_199, 199) X(Magenta2_200, 200) X(Magenta1, 201) X(OrangeRed1, 202) X(IndianRed1, 203) X(IndianRed1_204, 204) \
  X(HotPink, 205) X(HotPink_206, 206) X(MediumOrchid1_207, 207) X(DarkOrange, 208) X(Salmon1, 209) X(LightCoral, 210) X(PaleVioletRed1, 211) \
  X(Orchid2, 212) X(Orchid1, 213) X(Orange1, 214) X(SandyBrown, 215) X(LightSalmon1, 216) X(LightPink1, 217) X(Pink1, 218) X(Plum1, 219) \
  X(Gold1, 220) X(LightGoldenrod2_221, 221) X(LightGoldenrod2_222, 222) X(NavajoWhite1, 223) X(MistyRose1, 224) X(Thistle1, 225) X(Yellow1, 226) \
  X(LightGoldenrod1, 227) X(Khaki1, 228) X(Wheat1, 229) X(Cornsilk1, 230) X(Grey100, 231) X(Grey3, 232) X(Grey7, 233) X(Grey11, 234) X(Grey15, 235) \
  X(Grey19, 236) X(Grey23, 237) X(Grey27, 238) X(Grey30, 239) X(Grey35, 240) X(Grey39, 241) X(Grey42, 242) X(Grey46, 243) X(Grey50, 244) \
  X(Grey54, 245) X(Grey58, 246) X(Grey62, 247) X(Grey66, 248) X(Grey70, 249) X(Grey74, 250) X(Grey78, 251) X(Grey82, 252) X(Grey85, 253) \
  X(Grey89, 254) X(Grey93, 255)
