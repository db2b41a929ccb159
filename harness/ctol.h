// written by tools/mkctol.py: {group, largest error / unit tolerance seen}
{3, 2.13},
{4, 3.91},
{6, 10.6},
{7, 4.75},
{8, 5.02},
{9, 11.7},
{10, 39},
{11, 11.8},
{19, 0.498},
{20, 1.33},
{22, 0.843},
{23, 4.31},
{24, 0.697},
{25, 1.78},
{26, 13.4},
{27, 4.91},
{35, 3.54},
{36, 5.41},
{38, 8.51},
{41, 27.6},
{42, 10.3},
{43, 28},
{51, 1.68},
{52, 1.61},
{54, 4.92},
{57, 10.7},
{58, 8.28},
{59, 11.5},
{67, 1.6},
{68, 1.75},
{70, 5.65},
{73, 23.1},
{74, 7.72},
{75, 13.8},
{83, 0.709},
{84, 0.32},
{86, 3.64},
{89, 14.8},
{90, 1.98},
{91, 6.11},
{99, 1.32},
{100, 1.88},
{102, 4.13},
{105, 10.5},
{106, 3.56},
{107, 16.9},
{115, 0.447},
{116, 0.415},
{118, 0.612},
{121, 1.73},
{122, 1.17},
{123, 2.85},
{131, 2.16},
{132, 5.11},
{134, 4.07},
{137, 6.67},
{138, 6.4},
{139, 15.2},
{147, 1.74},
{148, 2.18},
{150, 2.92},
{153, 3.42},
{154, 3.72},
{155, 3.18},
{163, 6.13},
{164, 9.42},
{166, 17.9},
{169, 51.5},
{170, 21.1},
{171, 111},
{179, 2.32},
{180, 5.9},
{182, 10},
{185, 17.7},
{186, 11.8},
{187, 22.4},
{195, 1.11},
{196, 2.94},
{197, 1.31},
{198, 2.3},
{199, 1.84},
{200, 1.75},
{201, 8.44},
{202, 12.7},
{203, 17.5},
{211, 0.673},
{212, 0.96},
{213, 2.09},
{214, 0.805},
{215, 0.348},
{216, 1.99},
{217, 3.67},
{218, 2.04},
{219, 1.26},
{259, 2.68},
{260, 2.68},
{262, 14.2},
{265, 19.5},
{266, 27.5},
{267, 15.7},
{275, 0.412},
{276, 0.653},
{278, 0.812},
{281, 2.9},
{282, 3.64},
{283, 4.59},
{291, 2.08},
{292, 2.71},
{294, 10.4},
{295, 3.75},
{297, 20.4},
{298, 15.7},
{299, 48.2},
{307, 1.21},
{308, 1.62},
{310, 2.63},
{311, 0.618},
{313, 4.81},
{314, 3.99},
{315, 12.7},
{323, 2.13},
{324, 4.55},
{325, 4.71},
{326, 10.9},
{329, 19.5},
{330, 18.3},
{331, 16.2},
{339, 0.447},
{340, 0.441},
{341, 0.459},
{342, 0.816},
{345, 1.78},
{346, 5.12},
{347, 2.34},
{355, 2.13},
{356, 2.88},
{358, 10.9},
{361, 22.9},
{362, 12.1},
{363, 10.2},
{371, 0.476},
{372, 0.484},
{374, 0.828},
{377, 1.78},
{378, 2.88},
{379, 2.51},
{643, 12.3},
{644, 3.81},
{645, 48.7},
{647, 7.62},
{648, 88.5},
{650, 67.8},
{651, 359},
{659, 13.1},
{660, 3.93},
{661, 15.2},
{663, 13.5},
{664, 18.6},
{666, 10.9},
{667, 49.8},
{675, 2.52},
{676, 46.9},
{677, 7.82},
{679, 3.17},
{680, 14.8},
{682, 18.6},
{683, 51.9},
{691, 0.948},
{692, 16},
{693, 4.09},
{695, 1.83},
{696, 13.6},
{698, 3.11},
{699, 18.7},
{707, 23.7},
{708, 7.17},
{709, 91.7},
{711, 23.2},
{712, 274},
{714, 458},
{715, 353},
{723, 70.2},
{724, 30.8},
{725, 401},
{727, 619},
{728, 6.98e+03},
{730, 5.26e+03},
{731, 6.32e+04},
{739, 1.33},
{740, 0.703},
{741, 2.62},
{743, 1.46},
{744, 3.41},
{746, 2.52},
{747, 11.6},
{755, 0.9},
{756, 0.281},
{757, 1.35},
{759, 1.63},
{760, 1.89},
{762, 3.54},
{763, 2.04},
{771, 1.35},
{772, 1.7},
{773, 2.03},
{775, 1.93},
{776, 2.92},
{778, 5.01},
{779, 4.87},
{787, 1.94},
{788, 2.98},
{789, 3.38},
{791, 3.46},
{792, 1.88},
{794, 4.6},
{795, 2.83},
{836, 1.84},
{838, 3.2},
{852, 0.355},
{854, 0.514},
{899, 4.31},
{901, 10.4},
{904, 18.3},
{915, 1.31},
{917, 1.59},
{920, 6.92},
{1027, 1.97},
{1028, 3.54},
{1030, 9.85},
{1031, 6.43},
{1032, 10.5},
{1033, 10.1},
{1034, 28.1},
{1035, 12.3},
{1043, 0.819},
{1044, 2.21},
{1046, 4.12},
{1047, 4.28},
{1048, 0.573},
{1049, 1.77},
{1050, 13.4},
{1051, 1.54},
{1059, 1.58},
{1060, 0.983},
{1062, 4.71},
{1065, 11},
{1066, 3.2},
{1067, 11.6},
{1075, 0.402},
{1076, 0.794},
{1078, 1.32},
{1081, 2.74},
{1082, 0.986},
{1083, 3.18},
{1091, 0.43},
{1092, 0.552},
{1094, 1.43},
{1097, 1.36},
{1098, 4.59},
{1099, 2.52},
{1107, 0.0745},
{1108, 0.0297},
{1110, 0.11},
{1113, 0.16},
{1114, 0.795},
{1115, 0.12},
{1123, 1.52},
{1124, 2.6},
{1126, 5.68},
{1129, 9.8},
{1130, 4.91},
{1131, 13.8},
{1139, 0.397},
{1140, 0.281},
{1142, 0.925},
{1145, 1.39},
{1146, 0.982},
{1147, 2.27},
{1155, 0.807},
{1156, 4.4},
{1158, 4.6},
{1161, 7.12},
{1162, 6.4},
{1163, 11.8},
{1171, 1.73},
{1172, 0.248},
{1174, 0.518},
{1177, 2.64},
{1178, 2.89},
{1179, 2.59},
{1187, 4.37},
{1188, 8.64},
{1190, 15.9},
{1193, 45.4},
{1194, 21.1},
{1195, 106},
{1203, 2.19},
{1204, 4.09},
{1206, 6.78},
{1209, 17.3},
{1210, 12.2},
{1211, 22},
{1219, 0.931},
{1220, 3.04},
{1222, 1.64},
{1223, 0.603},
{1225, 7.98},
{1226, 2.78},
{1227, 25.9},
{1235, 0.436},
{1236, 0.803},
{1238, 5.25},
{1239, 0.617},
{1241, 4.28},
{1242, 1.93},
{1243, 9.78},
{1283, 1.87},
{1284, 2.89},
{1286, 6.72},
{1289, 9.9},
{1290, 23.6},
{1291, 13.1},
{1299, 0.48},
{1300, 0.451},
{1302, 3.47},
{1305, 3.83},
{1306, 2.28},
{1307, 6.44},
{1315, 1.13},
{1316, 1.57},
{1318, 4.34},
{1319, 0.336},
{1321, 17.9},
{1322, 10.5},
{1323, 13.8},
{1331, 0.561},
{1332, 0.535},
{1334, 0.608},
{1335, 0.0724},
{1337, 3.25},
{1338, 2.52},
{1339, 2.29},
{1347, 1.96},
{1348, 2.86},
{1350, 11},
{1351, 1.25},
{1353, 10.4},
{1354, 21.5},
{1355, 14.1},
{1363, 0.397},
{1364, 0.487},
{1366, 0.832},
{1367, 0.166},
{1369, 1.77},
{1370, 4.21},
{1371, 1.71},
{1379, 2.1},
{1380, 2.88},
{1382, 10.5},
{1385, 12.2},
{1386, 9.46},
{1387, 13.1},
{1395, 0.424},
{1396, 0.53},
{1398, 0.825},
{1401, 1.77},
{1402, 2.36},
{1403, 1.66},
{1667, 20.9},
{1668, 4.31},
{1669, 42.9},
{1671, 35.1},
{1672, 149},
{1674, 46.3},
{1675, 384},
{1683, 9.57},
{1684, 4.92},
{1685, 16.9},
{1687, 13},
{1688, 24.4},
{1690, 16.8},
{1691, 23.2},
{1699, 2.52},
{1700, 46.9},
{1701, 7.82},
{1703, 3.16},
{1704, 14.8},
{1706, 18.6},
{1707, 51.9},
{1715, 0.948},
{1716, 16},
{1717, 4.09},
{1719, 1.83},
{1720, 13.6},
{1722, 3.11},
{1723, 18.7},
{1731, 23.7},
{1732, 7.67},
{1733, 91.7},
{1735, 22.7},
{1736, 274},
{1738, 48.6},
{1739, 353},
{1747, 70.2},
{1748, 30.8},
{1749, 401},
{1751, 619},
{1752, 6.98e+03},
{1754, 4.35e+03},
{1755, 6.32e+04},
{1763, 0.79},
{1764, 0.616},
{1765, 1.75},
{1767, 0.818},
{1768, 4.32},
{1770, 2.75},
{1771, 20},
{1779, 0.571},
{1780, 0.06},
{1781, 1.2},
{1783, 0.97},
{1784, 3.34},
{1786, 0.891},
{1787, 1.68},
{1795, 1.49},
{1796, 1.51},
{1797, 1.93},
{1799, 2.93},
{1800, 1.9},
{1802, 2.65},
{1803, 7.33},
{1811, 1.4},
{1812, 1.27},
{1813, 1.95},
{1815, 3.72},
{1816, 1.92},
{1818, 1.96},
{1819, 1.5},
{1860, 1.84},
{1862, 3.2},
{1876, 0.355},
{1878, 0.514},
{1923, 4.31},
{1925, 10.4},
{1928, 18.3},
{1931, 64.7},
{1939, 1.31},
{1941, 1.59},
{1944, 6.92},
{1947, 8.46},
{2051, 1.76},
{2052, 2.8},
{2054, 9.99},
{2056, 8.76e-06},
{2057, 10.3},
{2058, 14.2},
{2059, 12.2},
{2067, 0.484},
{2068, 0.55},
{2070, 0.833},
{2072, 7.13e-07},
{2073, 1.75},
{2074, 2.17},
{2075, 1.62},
{2083, 3.19},
{2084, 3.11},
{2086, 8.26},
{2089, 30.4},
{2090, 18.6},
{2091, 51.5},
{2099, 1.18},
{2100, 2.92},
{2102, 8.73},
{2105, 14.2},
{2106, 8.09},
{2107, 16.2},
{2115, 1.05},
{2116, 2.14},
{2118, 3.06},
{2121, 8.93},
{2122, 11.9},
{2123, 10.9},
{2131, 0.339},
{2132, 0.17},
{2134, 0.614},
{2137, 0.806},
{2138, 4.48},
{2139, 1.29},
{2179, 1.1},
{2180, 4.88},
{2182, 3.28},
{2185, 8.07},
{2186, 5.81},
{2187, 16.7},
{2195, 0.292},
{2196, 0.287},
{2198, 0.548},
{2201, 2.87},
{2202, 3.98},
{2203, 2.74},
{2243, 10.6},
{2244, 31.9},
{2246, 9.65},
{2249, 83.8},
{2250, 22.1},
{2251, 263},
{2259, 5.13},
{2260, 8.67},
{2262, 25.2},
{2265, 30.6},
{2266, 24},
{2267, 150},
{2307, 2.13},
{2308, 2.89},
{2310, 6.92},
{2313, 9.91},
{2314, 13.1},
{2315, 13},
{2323, 0.395},
{2324, 0.437},
{2326, 3.37},
{2329, 3.65},
{2330, 2.32},
{2331, 6.25},
{2339, 3.59},
{2340, 5.97},
{2342, 12.4},
{2345, 16.5},
{2346, 32.3},
{2347, 56.8},
{2355, 1.37},
{2356, 1.62},
{2358, 2.36},
{2361, 13.5},
{2362, 8.3},
{2363, 12.5},
{2371, 2.23},
{2372, 2.86},
{2374, 11.1},
{2375, 3.76},
{2377, 10.5},
{2378, 18.9},
{2379, 14},
{2387, 0.441},
{2388, 0.487},
{2390, 0.832},
{2391, 0.499},
{2393, 1.78},
{2394, 3.28},
{2395, 1.61},
{2403, 2.38},
{2404, 2.88},
{2406, 10.6},
{2409, 12.2},
{2410, 9.77},
{2411, 13},
{2419, 0.478},
{2420, 0.53},
{2422, 0.829},
{2425, 1.77},
{2426, 2.46},
{2427, 1.55},
{2691, 21.1},
{2693, 43.8},
{2696, 150},
{2699, 386},
{2707, 8.9},
{2709, 16.5},
{2712, 26.1},
{2715, 27.2},
{2755, 0.17},
{2757, 0.369},
{2760, 0.619},
{2763, 0.454},
{2771, 0.0396},
{2773, 0.0151},
{2776, 0.0194},
{2787, 1.74},
{2789, 3.25},
{2792, 10.8},
{2795, 17.4},
{2803, 0.267},
{2805, 0.248},
{2808, 2.28},
{2811, 1.04},
{2819, 0.631},
{2821, 1.74},
{2824, 1.3},
{2827, 8.58},
{2835, 0.0464},
{2837, 0.0312},
{2840, 0.0455},
{2843, 0.175},
{2884, 1.84},
{2886, 3.2},
{2900, 0.355},
{2902, 0.514},
{2947, 4.31},
{2949, 10.4},
{2952, 18.3},
{2955, 64.6},
{2963, 1.31},
{2965, 1.59},
{2968, 6.92},
{2971, 8.37},
{3075, 1.7},
{3076, 0.474},
{3078, 1.5},
{3079, 0.574},
{3080, 0.169},
{3081, 5.94},
{3082, 16.9},
{3083, 10.8},
{3091, 0.641},
{3092, 0.0709},
{3094, 0.986},
{3095, 0.163},
{3096, 0.0678},
{3097, 1.32},
{3098, 9.79},
{3099, 1.95},
{3107, 0.374},
{3108, 0.374},
{3110, 0.744},
{3113, 1.34},
{3114, 6.66},
{3115, 2.17},
{3123, 0.161},
{3124, 0.122},
{3126, 0.354},
{3129, 0.472},
{3130, 2.32},
{3131, 0.667},
{3139, 0.269},
{3140, 0.0277},
{3142, 0.227},
{3145, 0.296},
{3146, 1.36},
{3147, 0.535},
{3155, 0.0388},
{3156, 0.00338},
{3158, 0.023},
{3161, 0.0381},
{3162, 0.337},
{3163, 0.0361},
{3171, 0.262},
{3172, 0.0972},
{3174, 0.334},
{3177, 0.217},
{3178, 1.38},
{3179, 0.376},
{3187, 0.0262},
{3188, 0.00389},
{3190, 0.00627},
{3193, 0.0433},
{3194, 0.292},
{3195, 0.001},
{3203, 0.424},
{3204, 0.352},
{3206, 1.19},
{3209, 0.931},
{3210, 2.79},
{3211, 2.32},
{3219, 0.136},
{3220, 0.144},
{3222, 0.872},
{3225, 0.522},
{3226, 2.51},
{3227, 1.23},
{3235, 2.13},
{3236, 4.37},
{3238, 5.25},
{3241, 27.1},
{3242, 21.4},
{3243, 61.3},
{3251, 0.911},
{3252, 0.924},
{3254, 3.81},
{3257, 5.03},
{3258, 11.4},
{3259, 7.86},
{3267, 0.347},
{3268, 0.339},
{3270, 0.745},
{3271, 0.225},
{3273, 2.3},
{3274, 2.16},
{3275, 3.56},
{3283, 0.273},
{3284, 0.0541},
{3286, 0.0588},
{3287, 0.0312},
{3289, 0.177},
{3290, 1.72},
{3291, 0.353},
{3331, 2.35},
{3332, 2.92},
{3334, 14.4},
{3337, 13.5},
{3338, 23.6},
{3339, 15.8},
{3347, 0.447},
{3348, 0.601},
{3350, 0.857},
{3353, 2.54},
{3354, 2.9},
{3355, 5.32},
{3363, 1.72},
{3364, 2.22},
{3366, 1.88},
{3367, 3.7},
{3369, 9.86},
{3370, 15.6},
{3371, 8.58},
{3379, 0.67},
{3380, 0.756},
{3382, 0.793},
{3383, 0.528},
{3385, 1.69},
{3386, 3.59},
{3387, 2.93},
{3395, 0.553},
{3396, 0.245},
{3398, 0.513},
{3399, 0.635},
{3401, 0.647},
{3402, 5.17},
{3403, 1.08},
{3411, 0.0274},
{3412, 0.0096},
{3414, 0.0124},
{3415, 0.0293},
{3417, 0.0284},
{3418, 1.42},
{3419, 0.0945},
{3427, 0.355},
{3428, 0.32},
{3430, 0.4},
{3433, 0.655},
{3434, 3.4},
{3435, 1.03},
{3443, 0.0238},
{3444, 0.00722},
{3446, 0.0114},
{3449, 0.0218},
{3450, 0.593},
{3451, 0.0211},
{3715, 5.95},
{3716, 0.926},
{3717, 7.54},
{3719, 26.5},
{3720, 74.1},
{3722, 19.1},
{3723, 112},
{3731, 7.46},
{3732, 0.797},
{3733, 5.78},
{3735, 2.4},
{3736, 13.7},
{3738, 1.93},
{3739, 14.9},
{3747, 5.25},
{3748, 30.7},
{3749, 16.5},
{3751, 1.26},
{3752, 60.1},
{3754, 1.58},
{3755, 239},
{3763, 2.61},
{3764, 6.16},
{3765, 3.67},
{3767, 0.0249},
{3768, 5.95},
{3770, 0.237},
{3771, 11.9},
{3779, 4.33},
{3780, 2.81},
{3781, 16.4},
{3783, 5.37},
{3784, 17.1},
{3786, 16.2},
{3787, 34.8},
{3795, 22.1},
{3796, 4.5},
{3797, 27.3},
{3799, 255},
{3800, 944},
{3802, 1.8e+03},
{3803, 1.77e+04},
{3811, 0.705},
{3812, 0.939},
{3813, 3.58},
{3815, 4.33},
{3816, 30.5},
{3818, 1.81},
{3819, 25.7},
{3827, 0.878},
{3828, 1.03},
{3829, 0.87},
{3831, 0.977},
{3832, 3.39},
{3834, 1.93},
{3835, 2.45},
{3843, 0.605},
{3844, 0.584},
{3845, 0.633},
{3847, 0.748},
{3848, 1.3},
{3850, 1.64},
{3851, 2.69},
{3859, 0.831},
{3860, 0.455},
{3861, 0.538},
{3863, 0.778},
{3864, 0.722},
{3866, 2.15},
{3867, 0.98},
{3908, 0.14},
{3910, 0.224},
{3924, 0.00824},
{3926, 0.00641},
{3971, 0.394},
{3973, 0.459},
{3976, 1.02},
{3979, 3.51},
{3987, 0.0143},
{3989, 0.105},
{3992, 0.129},
{3995, 0.358},
{4099, 1.01},
{4100, 0.923},
{4102, 3.86},
{4104, 5.4e-06},
{4105, 2.99},
{4106, 21.4},
{4107, 7.31},
{4115, 0.221},
{4116, 0.0643},
{4118, 0.232},
{4120, 5.12e-07},
{4121, 0.312},
{4122, 8.4},
{4123, 0.533},
{4131, 0.665},
{4132, 1.32},
{4134, 2.29},
{4137, 2.67},
{4138, 17.7},
{4139, 5.94},
{4147, 0.313},
{4148, 0.333},
{4150, 0.704},
{4153, 1.44},
{4154, 8.04},
{4155, 2.32},
{4163, 0.529},
{4164, 0.103},
{4166, 1.75},
{4169, 1.64},
{4170, 8.4},
{4171, 3.15},
{4179, 0.23},
{4180, 0.0196},
{4182, 0.0769},
{4185, 0.215},
{4186, 3.32},
{4187, 0.284},
{4195, 0.455},
{4196, 0.524},
{4198, 1.4},
{4201, 1.56},
{4202, 5.43},
{4203, 2.3},
{4211, 0.089},
{4212, 0.0204},
{4214, 0.0324},
{4217, 0.333},
{4218, 1.42},
{4219, 0.00984},
{4227, 1.01},
{4228, 1.31},
{4230, 4.03},
{4233, 3.38},
{4234, 5.55},
{4235, 5.46},
{4243, 0.117},
{4244, 0.17},
{4246, 0.218},
{4249, 0.473},
{4250, 3.55},
{4251, 1.63},
{4259, 2.08},
{4260, 3.64},
{4262, 6.56},
{4265, 24.8},
{4266, 24.9},
{4267, 53.4},
{4275, 0.877},
{4276, 0.881},
{4278, 2.32},
{4281, 6.29},
{4282, 12.3},
{4283, 10.3},
{4291, 4.01},
{4292, 4},
{4294, 6.32},
{4297, 27.7},
{4298, 30.8},
{4299, 51.3},
{4307, 3.52},
{4308, 0.539},
{4310, 0.579},
{4313, 2.73},
{4314, 26.9},
{4315, 6.51},
{4387, 0.881},
{4388, 1.84},
{4390, 2.5},
{4393, 2.9},
{4394, 6.17},
{4395, 9.44},
{4403, 0.597},
{4404, 0.469},
{4406, 1.93},
{4409, 2.31},
{4410, 3.28},
{4411, 2.22},
{4419, 1.05},
{4420, 1.08},
{4422, 3.25},
{4423, 2.3e-07},
{4425, 4.02},
{4426, 18.8},
{4427, 3.54},
{4435, 0.0743},
{4436, 0.0448},
{4438, 0.0789},
{4441, 0.175},
{4442, 4.03},
{4443, 0.689},
{4451, 0.694},
{4452, 1.23},
{4454, 2.21},
{4457, 3.64},
{4458, 17.3},
{4459, 6.05},
{4467, 0.0777},
{4468, 0.0428},
{4470, 0.066},
{4473, 0.142},
{4474, 2.93},
{4475, 0.229},
{4739, 7.12},
{4741, 14.8},
{4744, 88.2},
{4747, 276},
{4755, 17.1},
{4757, 8.67},
{4760, 30.4},
{4763, 11.4},
{4771, 9.99},
{4772, 52.2},
{4773, 29.2},
{4776, 105},
{4779, 411},
{4787, 4.87},
{4788, 8.63},
{4789, 7.24},
{4792, 8.55},
{4795, 17.2},
{4803, 4.3},
{4805, 16.7},
{4808, 17.1},
{4811, 35.1},
{4819, 22.1},
{4821, 27.5},
{4824, 944},
{4827, 1.78e+04},
{4835, 1.24},
{4837, 4.16},
{4840, 7.07},
{4843, 25.8},
{4851, 1.08},
{4853, 0.943},
{4856, 2.76},
{4859, 3.99},
{4867, 1.51},
{4869, 3.25},
{4872, 2.25},
{4875, 4.95},
{4883, 0.864},
{4885, 2.47},
{4888, 1.21},
{4891, 2.11},
{4932, 0.491},
{4934, 0.883},
{4948, 0.0383},
{4950, 0.0393},
{4995, 1.29},
{4997, 1.99},
{5000, 3.32},
{5003, 11.5},
{5011, 0.0499},
{5013, 0.245},
{5016, 0.201},
{5019, 1.07},
{5123, 2.84},
{5125, 3.74},
{5128, 30},
{5139, 1.55},
{5141, 2.25},
{5144, 30},
{5411, 1.64},
{5413, 7.91},
{5416, 24.3},
{5427, 0.948},
{5429, 2.11},
{5432, 24.3},
{5763, 4.81},
{5765, 9.6},
{5768, 120},
{5779, 4.86},
{5781, 6.51},
{5784, 120},
{5795, 6.05},
{5797, 8.93},
{5800, 147},
{5811, 2.19},
{5813, 4.27},
{5816, 147},
{5827, 12},
{5829, 129},
{5832, 78.7},
{5843, 53.3},
{5845, 279},
{5848, 4.98e+03},
{5859, 2.19},
{5861, 3.78},
{5864, 55.9},
{5875, 0.322},
{5877, 0.736},
{5880, 2.72},
{5891, 4.4},
{5893, 2.35},
{5896, 3.28},
{5907, 1.29},
{5909, 2.08},
{5912, 2.74},
{5923, 0.998},
{5925, 1.29},
{5928, 28.7},
{5939, 0.322},
{5941, 0.736},
{5944, 2.72},
{5987, 15.4},
{5989, 44.1},
{5992, 43.9},
{6003, 0.322},
{6005, 0.736},
{6008, 2.72},
{6147, 2.55},
{6149, 6.24},
{6152, 36.3},
{6163, 1.51},
{6165, 2.13},
{6168, 36.3},
{6435, 0.46},
{6437, 1.28},
{6440, 11.6},
{6451, 0.293},
{6453, 0.693},
{6456, 11.6},
{6787, 6.65},
{6789, 8.04},
{6792, 196},
{6803, 4.7},
{6805, 7.12},
{6808, 196},
{6819, 6.05},
{6821, 8.93},
{6824, 147},
{6835, 2.19},
{6837, 4.27},
{6840, 147},
{6851, 12},
{6853, 129},
{6856, 78.7},
{6867, 53.3},
{6869, 279},
{6872, 4.98e+03},
{6883, 0.793},
{6885, 3.77},
{6888, 53.7},
{6899, 0.419},
{6901, 0.0983},
{6904, 2.92},
{6915, 16.6},
{6917, 1.34},
{6920, 2},
{6931, 0.826},
{6933, 3.47},
{6936, 2.68},
{6947, 0.567},
{6949, 2.47},
{6952, 15.4},
{6963, 0.419},
{6965, 0.0983},
{6968, 2.92},
{7011, 715},
{7013, 42.2},
{7016, 4.02e+04},
{7027, 0.419},
{7029, 0.0983},
{7032, 2.92},
{7171, 2.25},
{7173, 2.5},
{7176, 32.1},
{7187, 1.26},
{7189, 1.98},
{7192, 32.1},
{7459, 1.96},
{7461, 5.39},
{7464, 34.1},
{7475, 1.38},
{7477, 2.01},
{7480, 34.1},
{7811, 6.67},
{7813, 8.06},
{7816, 197},
{7827, 4.71},
{7829, 7.13},
{7832, 197},
{7875, 0.00045},
{7877, 0.00385},
{7880, 0.118},
{7891, 0.000328},
{7893, 0.00385},
{7896, 0.118},
{7907, 1.06},
{7909, 1.44},
{7912, 37.9},
{7923, 0.35},
{7925, 0.264},
{7928, 0.437},
{7939, 0.566},
{7941, 0.524},
{7944, 0.776},
{7955, 0.00751},
{7957, 0.0259},
{7960, 0.0206},
{7971, 0.789},
{7973, 1.76},
{7976, 10.9},
{7987, 0.35},
{7989, 0.264},
{7992, 0.339},
{8035, 304},
{8037, 172},
{8040, 5.06e+04},
{8051, 0.35},
{8053, 0.264},
{8056, 0.334},
{8195, 0.0577},
{8197, 0.277},
{8200, 8.75},
{8211, 0.0282},
{8213, 0.277},
{8216, 8.75},
{8483, 0.205},
{8485, 0.46},
{8488, 10.9},
{8499, 0.198},
{8501, 0.356},
{8504, 10.9},
{8835, 1.39},
{8837, 2.36},
{8840, 51.9},
{8851, 0.926},
{8853, 2.99},
{8856, 51.9},
{8867, 1.33},
{8869, 2.09},
{8872, 50.1},
{8883, 0.318},
{8885, 1.6},
{8888, 50.1},
{8899, 0.616},
{8901, 1.98},
{8904, 9.92},
{8915, 3.25},
{8917, 13.8},
{8920, 438},
{8931, 1.61},
{8933, 3.67},
{8936, 10.6},
{8947, 0.0537},
{8949, 0.419},
{8952, 2.15},
{8963, 0.988},
{8965, 0.509},
{8968, 1.04},
{8979, 0.529},
{8981, 0.726},
{8984, 0.539},
{8995, 0.338},
{8997, 1.29},
{9000, 6.33},
{9011, 0.0537},
{9013, 0.406},
{9016, 2.15},
{9059, 5.07},
{9061, 160},
{9064, 122},
{9075, 0.0537},
{9077, 0.336},
{9080, 2.15},
{9219, 0.265},
{9221, 0.529},
{9224, 16.9},
{9235, 0.0905},
{9237, 0.529},
{9240, 16.9},
{9507, 0.492},
{9509, 1.11},
{9512, 7.22},
{9523, 0.432},
{9525, 0.435},
{9528, 7.22},
{9859, 4.54},
{9861, 7.04},
{9864, 112},
{9875, 2.2},
{9877, 3.55},
{9880, 112},
{9891, 4.09},
{9893, 6.4},
{9896, 130},
{9907, 0.728},
{9909, 4.13},
{9912, 130},
{9923, 0.616},
{9925, 1.98},
{9928, 9.54},
{9939, 3.12},
{9941, 13.2},
{9944, 438},
{9955, 0.37},
{9957, 48.4},
{9960, 17.9},
{9971, 1.51},
{9973, 0.905},
{9976, 2.16},
{9987, 1.2},
{9989, 3.35},
{9992, 2.73},
{10003, 1.09},
{10005, 2.9},
{10008, 2.78},
{10019, 0.284},
{10021, 0.445},
{10024, 10.4},
{10035, 1.51},
{10037, 0.905},
{10040, 2.16},
{10083, 9.09},
{10085, 3.62e+03},
{10088, 59.7},
{10099, 1.51},
{10101, 0.905},
{10104, 2.16},
