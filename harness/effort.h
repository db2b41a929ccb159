{0, 51, 0},
{1, 63, 0},
{3, 84, 0},
{4, 27, 0},
{5, 511, 0},
{6, 86, 0},
{7, 44, 0},
{8, 51, 0},
{9, 63, 0},
{11, 381, 0},
{12, 27, 0},
{13, 569, 0},
{14, 118, 0},
{15, 47, 0},
{16, 50, 0},
{17, 60, 0},
{18, 152, 0},
{19, 72, 0},
{20, 32, 0},
{21, 582, 0},
{22, 97, 0},
{23, 55, 0},
{24, 50, 0},
{25, 60, 0},
{26, 843, 0},
{27, 373, 0},
{28, 32, 0},
{29, 516, 0},
{30, 144, 0},
{31, 48, 0},
{32, 53, 0},
{33, 64, 0},
{35, 80, 0},
{36, 66, 0},
{37, 585, 0},
{38, 112, 0},
{39, 64, 0},
{40, 53, 0},
{41, 64, 0},
{43, 371, 0},
{44, 218, 0},
{45, 585, 0},
{46, 208, 0},
{47, 70, 0},
{48, 67, 0},
{49, 78, 0},
{51, 79, 0},
{52, 60, 0},
{53, 636, 0},
{54, 106, 0},
{55, 68, 0},
{56, 67, 0},
{57, 78, 0},
{59, 352, 0},
{60, 241, 0},
{61, 588, 0},
{62, 253, 0},
{63, 83, 0},
{64, 82, 0},
{65, 133, 0},
{67, 106, 0},
{68, 78, 0},
{69, 722, 0},
{70, 140, 0},
{71, 110, 0},
{72, 82, 0},
{73, 133, 0},
{75, 384, 0},
{76, 286, 0},
{77, 597, 0},
{78, 253, 0},
{79, 123, 0},
{80, 38, 0},
{81, 62, 0},
{83, 66, 0},
{84, 20, 0},
{85, 274, 0},
{86, 53, 0},
{87, 31, 0},
{88, 38, 0},
{89, 62, 0},
{91, 328, 0},
{92, 20, 0},
{93, 311, 0},
{94, 112, 0},
{95, 64, 0},
{96, 36, 0},
{97, 53, 0},
{98, 86, 0},
{99, 67, 0},
{100, 27, 0},
{101, 322, 0},
{102, 53, 0},
{103, 38, 0},
{104, 36, 0},
{105, 53, 0},
{106, 389, 0},
{107, 365, 0},
{108, 27, 0},
{109, 333, 0},
{110, 129, 0},
{111, 41, 0},
{112, 41, 0},
{113, 51, 0},
{115, 69, 0},
{116, 49, 0},
{117, 347, 0},
{118, 55, 0},
{119, 75, 0},
{120, 41, 0},
{121, 51, 0},
{123, 313, 0},
{124, 175, 0},
{125, 341, 0},
{126, 129, 0},
{127, 184, 0},
{128, 53, 0},
{129, 59, 0},
{131, 70, 0},
{132, 57, 0},
{133, 393, 0},
{134, 57, 0},
{135, 57, 0},
{136, 53, 0},
{137, 59, 0},
{139, 326, 0},
{140, 187, 0},
{141, 373, 0},
{142, 164, 0},
{143, 67, 0},
{144, 71, 0},
{145, 82, 0},
{147, 89, 0},
{148, 73, 0},
{149, 429, 0},
{150, 69, 0},
{151, 83, 0},
{152, 71, 0},
{153, 82, 0},
{155, 383, 0},
{156, 211, 0},
{157, 399, 0},
{158, 250, 0},
{159, 185, 0},
{160, 106, 0},
{161, 123, 0},
{163, 167, 0},
{164, 51, 0},
{165, 1089, 0},
{166, 203, 0},
{167, 104, 0},
{168, 106, 0},
{169, 123, 0},
{171, 995, 0},
{172, 51, 0},
{173, 1128, 0},
{174, 276, 0},
{175, 130, 0},
{176, 105, 0},
{177, 152, 0},
{178, 237, 0},
{179, 186, 0},
{180, 62, 0},
{181, 1055, 0},
{182, 241, 0},
{183, 180, 0},
{184, 105, 0},
{185, 152, 0},
{186, 1306, 0},
{187, 927, 0},
{188, 62, 0},
{189, 1156, 0},
{190, 262, 0},
{191, 221, 0},
{192, 121, 0},
{193, 134, 0},
{195, 183, 0},
{196, 137, 0},
{197, 1223, 0},
{198, 236, 0},
{199, 252, 0},
{200, 121, 0},
{201, 134, 0},
{203, 862, 0},
{204, 669, 0},
{205, 1192, 0},
{206, 463, 0},
{207, 206, 0},
{208, 161, 0},
{209, 172, 0},
{211, 200, 0},
{212, 169, 0},
{213, 1236, 0},
{214, 249, 0},
{215, 156, 0},
{216, 161, 0},
{217, 172, 0},
{219, 847, 0},
{220, 678, 0},
{221, 1220, 0},
{222, 575, 0},
{223, 209, 0},
{224, 189, 0},
{225, 293, 0},
{227, 181, 0},
{228, 171, 0},
{229, 1352, 0},
{230, 276, 0},
{231, 199, 0},
{232, 189, 0},
{233, 293, 0},
{235, 1023, 0},
{236, 766, 0},
{237, 1397, 0},
{238, 636, 0},
{239, 260, 0},
{240, 67, 0},
{241, 87, 0},
{243, 142, 0},
{244, 37, 0},
{245, 601, 0},
{246, 112, 0},
{247, 106, 0},
{248, 67, 0},
{249, 87, 0},
{251, 701, 0},
{252, 37, 0},
{253, 587, 0},
{254, 228, 0},
{255, 201, 0},
{256, 68, 0},
{257, 119, 0},
{258, 158, 0},
{259, 117, 0},
{260, 45, 0},
{261, 696, 0},
{262, 119, 0},
{263, 135, 0},
{264, 68, 0},
{265, 119, 0},
{266, 773, 0},
{267, 666, 0},
{268, 45, 0},
{269, 684, 0},
{270, 221, 0},
{271, 172, 0},
{272, 88, 0},
{273, 94, 0},
{275, 150, 0},
{276, 86, 0},
{277, 716, 0},
{278, 113, 0},
{279, 165, 0},
{280, 88, 0},
{281, 94, 0},
{283, 706, 0},
{284, 280, 0},
{285, 710, 0},
{286, 305, 0},
{287, 437, 0},
{288, 122, 0},
{289, 103, 0},
{291, 149, 0},
{292, 83, 0},
{293, 740, 0},
{294, 128, 0},
{295, 136, 0},
{296, 122, 0},
{297, 103, 0},
{299, 782, 0},
{300, 323, 0},
{301, 674, 0},
{302, 292, 0},
{303, 222, 0},
{304, 149, 0},
{305, 175, 0},
{307, 158, 0},
{308, 100, 0},
{309, 862, 0},
{310, 147, 0},
{311, 166, 0},
{312, 149, 0},
{313, 175, 0},
{315, 868, 0},
{316, 386, 0},
{317, 859, 0},
{318, 313, 0},
{319, 542, 0},
{320, 235, 0},
{321, 320, 0},
{323, 444, 0},
{324, 104, 0},
{325, 2307, 0},
{326, 440, 0},
{327, 265, 0},
{328, 235, 0},
{329, 320, 0},
{331, 2677, 0},
{332, 104, 0},
{333, 2314, 0},
{334, 504, 0},
{335, 295, 0},
{336, 243, 0},
{337, 357, 0},
{338, 577, 0},
{339, 431, 0},
{340, 106, 0},
{341, 2425, 0},
{342, 446, 0},
{343, 274, 0},
{344, 243, 0},
{345, 357, 0},
{346, 3472, 0},
{347, 2608, 0},
{348, 106, 0},
{349, 2479, 0},
{350, 505, 0},
{351, 497, 0},
{352, 275, 0},
{353, 337, 0},
{355, 421, 0},
{356, 376, 0},
{357, 2488, 0},
{358, 585, 0},
{359, 383, 0},
{360, 275, 0},
{361, 337, 0},
{363, 2427, 0},
{364, 1887, 0},
{365, 2469, 0},
{366, 1176, 0},
{367, 606, 0},
{368, 360, 0},
{369, 415, 0},
{371, 419, 0},
{372, 388, 0},
{373, 2782, 0},
{374, 652, 0},
{375, 278, 0},
{376, 360, 0},
{377, 415, 0},
{379, 2467, 0},
{380, 2015, 0},
{381, 2555, 0},
{382, 1571, 0},
{383, 397, 0},
{384, 477, 0},
{385, 677, 0},
{387, 465, 0},
{388, 410, 0},
{389, 3069, 0},
{390, 756, 0},
{391, 353, 0},
{392, 477, 0},
{393, 677, 0},
{395, 2600, 0},
{396, 2374, 0},
{397, 3015, 0},
{398, 1717, 0},
{399, 783, 0},
{400, 111, 0},
{401, 201, 0},
{403, 207, 0},
{404, 53, 0},
{405, 1131, 0},
{406, 225, 0},
{407, 159, 0},
{408, 111, 0},
{409, 201, 0},
{411, 1393, 0},
{412, 53, 0},
{413, 1158, 0},
{414, 364, 0},
{415, 502, 0},
{416, 104, 0},
{417, 128, 0},
{418, 235, 0},
{419, 228, 0},
{420, 68, 0},
{421, 1156, 0},
{422, 184, 0},
{423, 133, 0},
{424, 104, 0},
{425, 128, 0},
{426, 1164, 0},
{427, 1340, 0},
{428, 68, 0},
{429, 1146, 0},
{430, 397, 0},
{431, 452, 0},
{432, 141, 0},
{433, 140, 0},
{435, 234, 0},
{436, 161, 0},
{437, 1255, 0},
{438, 211, 0},
{439, 261, 0},
{440, 141, 0},
{441, 140, 0},
{443, 1264, 0},
{444, 430, 0},
{445, 1186, 0},
{446, 524, 0},
{447, 657, 0},
{448, 251, 0},
{449, 188, 0},
{451, 289, 0},
{452, 127, 0},
{453, 1319, 0},
{454, 211, 0},
{455, 207, 0},
{456, 251, 0},
{457, 188, 0},
{459, 1376, 0},
{460, 510, 0},
{461, 1226, 0},
{462, 648, 0},
{463, 452, 0},
{464, 295, 0},
{465, 348, 0},
{467, 245, 0},
{468, 158, 0},
{469, 1378, 0},
{470, 258, 0},
{471, 261, 0},
{472, 295, 0},
{473, 348, 0},
{475, 1601, 0},
{476, 599, 0},
{477, 1413, 0},
{478, 566, 0},
{479, 643, 0},
{480, 96, 58},
{481, 105, 49},
{483, 137, 75},
{484, 41, 17},
{485, 830, 322},
{486, 228, 128},
{487, 245, 143},
{488, 96, 58},
{489, 105, 49},
{491, 635, 316},
{492, 41, 17},
{493, 935, 369},
{494, 287, 152},
{495, 273, 146},
{496, 104, 67},
{497, 108, 57},
{498, 278, 142},
{499, 133, 67},
{500, 51, 22},
{501, 932, 353},
{502, 191, 114},
{503, 405, 252},
{504, 104, 67},
{505, 108, 57},
{506, 1031, 518},
{507, 689, 344},
{508, 51, 22},
{509, 852, 339},
{510, 233, 134},
{511, 349, 205},
{512, 106, 64},
{513, 113, 64},
{515, 135, 67},
{516, 111, 48},
{517, 941, 359},
{518, 222, 128},
{519, 645, 397},
{520, 106, 64},
{521, 113, 64},
{523, 603, 283},
{524, 398, 183},
{525, 932, 350},
{526, 466, 274},
{527, 890, 443},
{528, 125, 68},
{529, 131, 73},
{531, 122, 60},
{532, 98, 41},
{533, 1022, 389},
{534, 229, 123},
{535, 602, 344},
{536, 125, 68},
{537, 131, 73},
{539, 559, 261},
{540, 415, 177},
{541, 929, 344},
{542, 537, 293},
{543, 942, 528},
{560, 74, 45},
{561, 89, 38},
{563, 108, 57},
{564, 29, 12},
{565, 429, 158},
{566, 126, 69},
{567, 212, 125},
{568, 74, 45},
{569, 89, 38},
{571, 556, 280},
{572, 29, 12},
{573, 476, 168},
{574, 203, 100},
{575, 256, 138},
{576, 75, 43},
{577, 74, 40},
{578, 203, 105},
{579, 110, 57},
{580, 40, 16},
{581, 497, 178},
{582, 125, 70},
{583, 258, 161},
{584, 75, 43},
{585, 74, 40},
{586, 1220, 622},
{587, 604, 300},
{588, 40, 16},
{589, 515, 185},
{590, 339, 190},
{591, 436, 255},
{592, 84, 47},
{593, 80, 44},
{595, 105, 52},
{596, 79, 33},
{597, 526, 182},
{598, 116, 66},
{599, 221, 131},
{600, 84, 47},
{601, 80, 44},
{603, 521, 255},
{604, 308, 136},
{605, 515, 177},
{606, 333, 180},
{607, 527, 292},
{608, 103, 58},
{609, 94, 49},
{611, 107, 51},
{612, 88, 34},
{613, 576, 186},
{614, 118, 67},
{615, 287, 157},
{616, 103, 58},
{617, 94, 49},
{619, 484, 221},
{620, 312, 128},
{621, 554, 184},
{622, 306, 164},
{623, 417, 209},
{640, 233, 128},
{641, 229, 101},
{643, 341, 176},
{644, 85, 37},
{645, 1840, 754},
{646, 522, 270},
{647, 511, 286},
{648, 233, 128},
{649, 229, 101},
{651, 1675, 858},
{652, 85, 37},
{653, 1874, 749},
{654, 663, 331},
{655, 695, 339},
{656, 264, 157},
{657, 214, 112},
{658, 493, 249},
{659, 282, 145},
{660, 102, 43},
{661, 1753, 701},
{662, 474, 258},
{663, 827, 462},
{664, 264, 157},
{665, 214, 112},
{666, 2872, 1428},
{667, 1598, 805},
{668, 102, 43},
{669, 1929, 776},
{670, 571, 308},
{671, 1153, 556},
{672, 278, 152},
{673, 267, 139},
{675, 301, 152},
{676, 250, 116},
{677, 2006, 786},
{678, 539, 283},
{679, 985, 492},
{680, 278, 152},
{681, 267, 139},
{683, 1493, 739},
{684, 1242, 576},
{685, 1961, 772},
{686, 1059, 567},
{687, 1923, 927},
{688, 335, 169},
{689, 339, 167},
{691, 309, 151},
{692, 274, 108},
{693, 1998, 765},
{694, 572, 287},
{695, 855, 433},
{696, 335, 169},
{697, 339, 167},
{699, 1437, 692},
{700, 1204, 529},
{701, 1970, 753},
{702, 1322, 659},
{703, 2318, 1097},
{720, 137, 83},
{721, 143, 63},
{723, 238, 118},
{724, 56, 22},
{725, 945, 347},
{726, 286, 150},
{727, 528, 299},
{728, 137, 83},
{729, 143, 63},
{731, 1312, 661},
{732, 56, 22},
{733, 935, 351},
{734, 508, 267},
{735, 687, 353},
{736, 135, 75},
{737, 152, 77},
{738, 320, 167},
{739, 202, 102},
{740, 68, 26},
{741, 1088, 395},
{742, 250, 141},
{743, 521, 311},
{744, 135, 75},
{745, 152, 77},
{746, 1146, 585},
{747, 1289, 655},
{748, 68, 26},
{749, 1080, 399},
{750, 412, 232},
{751, 1076, 655},
{752, 165, 87},
{753, 121, 68},
{755, 255, 126},
{756, 140, 57},
{757, 1091, 378},
{758, 224, 121},
{759, 599, 346},
{760, 165, 87},
{761, 121, 68},
{763, 1261, 621},
{764, 504, 227},
{765, 1106, 399},
{766, 536, 286},
{767, 1419, 753},
{768, 185, 97},
{769, 147, 80},
{771, 207, 97},
{772, 133, 53},
{773, 1124, 387},
{774, 236, 130},
{775, 548, 295},
{776, 185, 97},
{777, 147, 80},
{779, 1247, 589},
{780, 566, 246},
{781, 1023, 352},
{782, 511, 270},
{783, 1007, 548},
{800, 638, 336},
{801, 553, 253},
{803, 834, 428},
{804, 178, 77},
{805, 4029, 1725},
{806, 1154, 596},
{807, 1434, 736},
{808, 638, 336},
{809, 553, 253},
{811, 4783, 2445},
{812, 178, 77},
{813, 4083, 1772},
{814, 1263, 644},
{815, 1545, 746},
{816, 659, 343},
{817, 644, 332},
{818, 1361, 680},
{819, 754, 385},
{820, 188, 85},
{821, 4228, 1806},
{822, 1228, 640},
{823, 1982, 1021},
{824, 659, 343},
{825, 644, 332},
{826, 8515, 4198},
{827, 4555, 2315},
{828, 188, 85},
{829, 4359, 1883},
{830, 1356, 705},
{831, 2214, 1137},
{832, 772, 389},
{833, 744, 375},
{835, 730, 362},
{836, 694, 321},
{837, 4297, 1812},
{838, 1572, 786},
{839, 2473, 1223},
{840, 772, 389},
{841, 744, 375},
{843, 4538, 2245},
{844, 3556, 1672},
{845, 4273, 1807},
{846, 2870, 1433},
{847, 5253, 2484},
{848, 899, 438},
{849, 875, 429},
{851, 740, 355},
{852, 691, 306},
{853, 4713, 1934},
{854, 1651, 787},
{855, 2502, 1197},
{856, 899, 438},
{857, 875, 429},
{859, 4355, 2106},
{860, 3679, 1667},
{861, 4345, 1793},
{862, 3888, 1865},
{863, 5774, 2704},
{880, 223, 124},
{881, 338, 140},
{883, 472, 236},
{884, 81, 31},
{885, 1814, 686},
{886, 492, 254},
{887, 807, 484},
{888, 223, 124},
{889, 338, 140},
{891, 2311, 1155},
{892, 81, 31},
{893, 1840, 685},
{894, 785, 412},
{895, 1569, 810},
{896, 208, 115},
{897, 235, 117},
{898, 429, 218},
{899, 376, 192},
{900, 106, 41},
{901, 1847, 694},
{902, 530, 290},
{903, 940, 491},
{904, 208, 115},
{905, 235, 117},
{906, 1927, 984},
{907, 2050, 1023},
{908, 106, 41},
{909, 1828, 685},
{910, 849, 444},
{911, 1715, 1001},
{912, 343, 188},
{913, 203, 108},
{915, 446, 224},
{916, 282, 124},
{917, 1955, 703},
{918, 402, 222},
{919, 1022, 576},
{920, 343, 188},
{921, 203, 108},
{923, 2440, 1177},
{924, 782, 355},
{925, 1884, 701},
{926, 879, 476},
{927, 2169, 1147},
{928, 432, 224},
{929, 255, 132},
{931, 366, 173},
{932, 209, 85},
{933, 2029, 713},
{934, 454, 235},
{935, 986, 524},
{936, 432, 224},
{937, 255, 132},
{939, 2452, 1161},
{940, 905, 398},
{941, 1909, 686},
{942, 960, 492},
{943, 2138, 1185},
{960, 78, 40},
{961, 127, 71},
{963, 146, 86},
{964, 56, 34},
{965, 870, 420},
{966, 202, 117},
{967, 189, 118},
{968, 78, 40},
{969, 127, 71},
{971, 772, 459},
{972, 56, 34},
{973, 801, 396},
{974, 209, 117},
{975, 220, 134},
{976, 88, 54},
{977, 121, 67},
{978, 204, 117},
{979, 138, 83},
{980, 64, 38},
{981, 935, 458},
{982, 162, 93},
{983, 298, 196},
{984, 88, 54},
{985, 121, 67},
{986, 981, 522},
{987, 749, 456},
{988, 64, 38},
{989, 856, 414},
{990, 253, 143},
{991, 517, 327},
{992, 98, 56},
{993, 118, 68},
{995, 147, 88},
{996, 113, 65},
{997, 876, 417},
{998, 203, 114},
{999, 422, 259},
{1000, 98, 56},
{1001, 118, 68},
{1003, 782, 458},
{1004, 507, 284},
{1005, 977, 475},
{1006, 413, 231},
{1007, 664, 431},
{1008, 110, 56},
{1009, 131, 72},
{1011, 152, 81},
{1012, 113, 61},
{1013, 1087, 490},
{1014, 202, 106},
{1015, 304, 183},
{1016, 110, 56},
{1017, 131, 72},
{1019, 740, 426},
{1020, 521, 289},
{1021, 866, 401},
{1022, 530, 283},
{1023, 684, 388},
{1040, 55, 28},
{1041, 80, 53},
{1043, 123, 76},
{1044, 40, 28},
{1045, 531, 270},
{1046, 95, 56},
{1047, 200, 122},
{1048, 55, 28},
{1049, 80, 53},
{1051, 682, 414},
{1052, 40, 28},
{1053, 472, 227},
{1054, 365, 216},
{1055, 371, 232},
{1056, 61, 38},
{1057, 90, 54},
{1058, 123, 70},
{1059, 119, 79},
{1060, 43, 28},
{1061, 511, 247},
{1062, 101, 60},
{1063, 279, 179},
{1064, 61, 38},
{1065, 90, 54},
{1066, 562, 295},
{1067, 663, 407},
{1068, 43, 28},
{1069, 533, 245},
{1070, 233, 120},
{1071, 471, 290},
{1072, 72, 41},
{1073, 80, 45},
{1075, 107, 63},
{1076, 87, 52},
{1077, 517, 244},
{1078, 100, 57},
{1079, 331, 202},
{1080, 72, 41},
{1081, 80, 45},
{1083, 659, 388},
{1084, 297, 175},
{1085, 501, 230},
{1086, 243, 130},
{1087, 485, 278},
{1088, 97, 49},
{1089, 94, 48},
{1091, 110, 63},
{1092, 96, 57},
{1093, 557, 244},
{1094, 99, 51},
{1095, 214, 121},
{1096, 97, 49},
{1097, 94, 48},
{1099, 686, 386},
{1100, 313, 178},
{1101, 544, 241},
{1102, 293, 141},
{1103, 428, 246},
{1120, 188, 98},
{1121, 291, 161},
{1123, 405, 229},
{1124, 114, 71},
{1125, 1717, 850},
{1126, 382, 218},
{1127, 618, 370},
{1128, 188, 98},
{1129, 291, 161},
{1131, 2278, 1302},
{1132, 114, 71},
{1133, 1855, 901},
{1134, 428, 240},
{1135, 710, 422},
{1136, 196, 111},
{1137, 273, 150},
{1138, 534, 288},
{1139, 367, 196},
{1140, 134, 74},
{1141, 1984, 966},
{1142, 371, 206},
{1143, 719, 437},
{1144, 196, 111},
{1145, 273, 150},
{1146, 2895, 1493},
{1147, 2156, 1224},
{1148, 134, 74},
{1149, 1839, 887},
{1150, 504, 277},
{1151, 803, 481},
{1152, 237, 125},
{1153, 285, 149},
{1155, 343, 184},
{1156, 272, 143},
{1157, 1890, 892},
{1158, 475, 249},
{1159, 671, 389},
{1160, 237, 125},
{1161, 285, 149},
{1163, 2034, 1122},
{1164, 1453, 772},
{1165, 2060, 988},
{1166, 911, 484},
{1167, 1219, 705},
{1168, 284, 143},
{1169, 331, 164},
{1171, 339, 179},
{1172, 281, 139},
{1173, 1938, 875},
{1174, 490, 249},
{1175, 714, 373},
{1176, 284, 143},
{1177, 331, 164},
{1179, 1999, 1069},
{1180, 1571, 797},
{1181, 1975, 900},
{1182, 1210, 602},
{1183, 1568, 848},
{1200, 107, 57},
{1201, 178, 109},
{1203, 262, 156},
{1204, 61, 38},
{1205, 943, 460},
{1206, 216, 122},
{1207, 395, 236},
{1208, 107, 57},
{1209, 178, 109},
{1211, 1780, 1003},
{1212, 61, 38},
{1213, 1044, 472},
{1214, 386, 206},
{1215, 818, 490},
{1216, 140, 80},
{1217, 147, 84},
{1218, 224, 122},
{1219, 242, 138},
{1220, 64, 39},
{1221, 1068, 489},
{1222, 190, 109},
{1223, 381, 224},
{1224, 140, 80},
{1225, 147, 84},
{1226, 1201, 605},
{1227, 1702, 996},
{1228, 64, 39},
{1229, 1049, 470},
{1230, 476, 250},
{1231, 672, 401},
{1232, 152, 84},
{1233, 139, 77},
{1235, 235, 140},
{1236, 131, 70},
{1237, 1127, 514},
{1238, 228, 121},
{1239, 479, 277},
{1240, 152, 84},
{1241, 139, 77},
{1243, 1786, 1021},
{1244, 437, 236},
{1245, 1064, 477},
{1246, 528, 284},
{1247, 1237, 716},
{1248, 182, 93},
{1249, 166, 86},
{1251, 235, 129},
{1252, 134, 76},
{1253, 1141, 489},
{1254, 197, 98},
{1255, 377, 206},
{1256, 182, 93},
{1257, 166, 86},
{1259, 1631, 895},
{1260, 481, 255},
{1261, 1083, 468},
{1262, 508, 246},
{1263, 863, 477},
{1280, 467, 245},
{1281, 779, 411},
{1283, 1024, 539},
{1284, 231, 135},
{1285, 4390, 2170},
{1286, 957, 504},
{1287, 1159, 641},
{1288, 467, 245},
{1289, 779, 411},
{1291, 6653, 3548},
{1292, 231, 135},
{1293, 4131, 2050},
{1294, 1038, 552},
{1295, 1349, 756},
{1296, 530, 281},
{1297, 879, 445},
{1298, 1429, 758},
{1299, 1004, 523},
{1300, 244, 134},
{1301, 4344, 2134},
{1302, 904, 467},
{1303, 1467, 780},
{1304, 530, 281},
{1305, 879, 445},
{1306, 9478, 4758},
{1307, 6462, 3444},
{1308, 244, 134},
{1309, 4305, 2097},
{1310, 1003, 530},
{1311, 1873, 1037},
{1312, 635, 323},
{1313, 770, 392},
{1315, 989, 501},
{1316, 773, 398},
{1317, 4837, 2303},
{1318, 1323, 664},
{1319, 1658, 863},
{1320, 635, 323},
{1321, 770, 392},
{1323, 6069, 3155},
{1324, 4527, 2273},
{1325, 4530, 2167},
{1326, 2535, 1269},
{1327, 3985, 2217},
{1328, 772, 377},
{1329, 930, 449},
{1331, 915, 454},
{1332, 785, 386},
{1333, 4772, 2192},
{1334, 1386, 669},
{1335, 1594, 788},
{1336, 772, 377},
{1337, 930, 449},
{1339, 5836, 2955},
{1340, 4658, 2292},
{1341, 4584, 2123},
{1342, 3493, 1678},
{1343, 3737, 1906},
{1360, 173, 99},
{1361, 264, 149},
{1363, 356, 203},
{1364, 97, 65},
{1365, 1791, 835},
{1366, 384, 211},
{1367, 634, 369},
{1368, 173, 99},
{1369, 264, 149},
{1371, 2709, 1560},
{1372, 97, 65},
{1373, 1836, 823},
{1374, 695, 372},
{1375, 1283, 744},
{1376, 281, 146},
{1377, 258, 141},
{1378, 453, 238},
{1379, 356, 207},
{1380, 106, 62},
{1381, 1792, 833},
{1382, 328, 172},
{1383, 751, 429},
{1384, 281, 146},
{1385, 258, 141},
{1386, 1924, 960},
{1387, 2844, 1511},
{1388, 106, 62},
{1389, 1865, 831},
{1390, 688, 361},
{1391, 1338, 780},
{1392, 240, 130},
{1393, 210, 113},
{1395, 352, 200},
{1396, 200, 112},
{1397, 1942, 842},
{1398, 463, 239},
{1399, 835, 470},
{1400, 240, 130},
{1401, 210, 113},
{1403, 2673, 1436},
{1404, 812, 438},
{1405, 1873, 820},
{1406, 828, 419},
{1407, 1800, 1009},
{1408, 336, 174},
{1409, 316, 155},
{1411, 359, 200},
{1412, 225, 123},
{1413, 1996, 840},
{1414, 466, 211},
{1415, 798, 422},
{1416, 336, 174},
{1417, 316, 155},
{1419, 2659, 1444},
{1420, 826, 430},
{1421, 1974, 828},
{1422, 969, 456},
{1423, 1634, 884},
