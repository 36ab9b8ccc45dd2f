---------------------------- MODULE Tables ----------------------------
(* Generated by tools/gen_tables.py from the published definitions. *)
EXTENDS Integers

(* sRGB transfer function (IEC 61966-2-1): linear light of 8-bit level v, times 2^15 *)
SrgbLin ==
  <<0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 99, 110, 120, 132, 144, 157,
    170, 184, 198, 213, 229, 246, 263, 281, 299, 319, 338, 359, 381, 403, 425, 449,
    473, 498, 524, 551, 578, 606, 635, 665, 695, 727, 759, 792, 825, 860, 895, 931,
    969, 1006, 1045, 1085, 1125, 1167, 1209, 1252, 1296, 1341, 1386, 1433, 1481, 1529, 1578, 1629,
    1680, 1732, 1785, 1839, 1894, 1950, 2007, 2065, 2123, 2183, 2244, 2306, 2368, 2432, 2496, 2562,
    2629, 2696, 2765, 2834, 2905, 2977, 3049, 3123, 3198, 3273, 3350, 3428, 3507, 3587, 3668, 3750,
    3833, 3917, 4002, 4089, 4176, 4264, 4354, 4444, 4536, 4629, 4723, 4818, 4914, 5011, 5109, 5209,
    5309, 5411, 5514, 5618, 5723, 5829, 5936, 6045, 6155, 6265, 6377, 6490, 6605, 6720, 6837, 6954,
    7073, 7193, 7315, 7437, 7561, 7686, 7812, 7939, 8068, 8197, 8328, 8460, 8593, 8728, 8864, 9001,
    9139, 9278, 9419, 9561, 9704, 9848, 9994, 10141, 10289, 10438, 10589, 10741, 10894, 11048, 11204, 11361,
    11519, 11679, 11839, 12001, 12165, 12329, 12495, 12663, 12831, 13001, 13172, 13344, 13518, 13693, 13870, 14047,
    14226, 14407, 14588, 14771, 14956, 15141, 15328, 15517, 15706, 15897, 16090, 16284, 16479, 16675, 16873, 17072,
    17273, 17474, 17678, 17882, 18088, 18296, 18504, 18715, 18926, 19139, 19353, 19569, 19786, 20005, 20225, 20446,
    20669, 20893, 21118, 21345, 21574, 21803, 22035, 22267, 22501, 22737, 22974, 23212, 23452, 23693, 23936, 24180,
    24425, 24672, 24921, 25171, 25422, 25675, 25929, 26185, 26442, 26701, 26961, 27223, 27486, 27750, 28016, 28284,
    28553, 28823, 29095, 29369, 29644, 29920, 30198, 30478, 30759, 31041, 31325, 31611, 31898, 32186, 32476, 32768>>

(* linear light (times 2^15) at which the nearest 8-bit level becomes v = 1..255 *)
SrgbThr ==
  <<5, 15, 25, 35, 45, 55, 65, 75, 85, 94, 104, 115, 126, 138, 150, 163,
    177, 191, 206, 221, 237, 254, 272, 290, 309, 328, 349, 370, 391, 414, 437, 461,
    486, 511, 537, 564, 592, 621, 650, 680, 711, 743, 775, 808, 842, 877, 913, 950,
    987, 1026, 1065, 1105, 1146, 1188, 1230, 1274, 1318, 1363, 1410, 1457, 1505, 1554, 1604, 1654,
    1706, 1759, 1812, 1867, 1922, 1978, 2036, 2094, 2153, 2213, 2275, 2337, 2400, 2464, 2529, 2595,
    2662, 2730, 2800, 2870, 2941, 3013, 3086, 3160, 3235, 3312, 3389, 3467, 3547, 3627, 3709, 3791,
    3875, 3960, 4045, 4132, 4220, 4309, 4399, 4490, 4582, 4676, 4770, 4866, 4962, 5060, 5159, 5259,
    5360, 5462, 5566, 5670, 5776, 5883, 5990, 6100, 6210, 6321, 6434, 6547, 6662, 6778, 6895, 7014,
    7133, 7254, 7376, 7499, 7623, 7749, 7875, 8003, 8132, 8262, 8394, 8527, 8661, 8796, 8932, 9070,
    9208, 9348, 9490, 9632, 9776, 9921, 10067, 10215, 10363, 10513, 10665, 10817, 10971, 11126, 11282, 11440,
    11599, 11759, 11920, 12083, 12247, 12412, 12579, 12747, 12916, 13086, 13258, 13431, 13606, 13781, 13958, 14137,
    14316, 14497, 14680, 14863, 15048, 15235, 15422, 15611, 15802, 15993, 16186, 16381, 16577, 16774, 16972, 17172,
    17373, 17576, 17780, 17985, 18192, 18400, 18609, 18820, 19032, 19246, 19461, 19677, 19895, 20114, 20335, 20557,
    20781, 21005, 21232, 21459, 21688, 21919, 22151, 22384, 22619, 22855, 23093, 23332, 23572, 23814, 24058, 24302,
    24549, 24796, 25046, 25296, 25548, 25802, 26057, 26313, 26571, 26831, 27092, 27354, 27618, 27883, 28150, 28418,
    28688, 28959, 29232, 29506, 29782, 30059, 30338, 30618, 30900, 31183, 31468, 31754, 32042, 32331, 32622>>

(* CIELAB lightness of the gray level v, times 2^12 *)
LStarTab ==
  <<0, 1123, 2246, 3369, 4492, 5615, 6738, 7861, 8984, 10107, 11230, 12382, 13603, 14891, 16248, 17674,
    19171, 20739, 22380, 24094, 25882, 27746, 29685, 31701, 33785, 35869, 37942, 40005, 42058, 44102, 46136, 48160,
    50176, 52183, 54182, 56172, 58154, 60128, 62094, 64053, 66005, 67949, 69886, 71816, 73740, 75657, 77567, 79471,
    81369, 83261, 85147, 87027, 88901, 90769, 92632, 94489, 96341, 98188, 100030, 101866, 103698, 105524, 107346, 109163,
    110975, 112782, 114585, 116383, 118177, 119967, 121752, 123533, 125310, 127083, 128852, 130616, 132377, 134134, 135887, 137636,
    139381, 141123, 142861, 144595, 146326, 148053, 149777, 151498, 153215, 154928, 156638, 158345, 160049, 161750, 163447, 165141,
    166832, 168520, 170205, 171887, 173566, 175242, 176916, 178586, 180253, 181918, 183580, 185239, 186895, 188549, 190200, 191848,
    193493, 195136, 196777, 198415, 200050, 201683, 203313, 204941, 206566, 208189, 209810, 211428, 213044, 214658, 216269, 217878,
    219484, 221089, 222691, 224291, 225888, 227484, 229077, 230668, 232257, 233844, 235429, 237012, 238592, 240171, 241747, 243322,
    244895, 246465, 248034, 249600, 251165, 252728, 254289, 255848, 257405, 258960, 260513, 262065, 263614, 265162, 266708, 268252,
    269795, 271335, 272874, 274411, 275947, 277480, 279012, 280543, 282071, 283598, 285123, 286647, 288169, 289689, 291208, 292725,
    294240, 295754, 297266, 298777, 300286, 301794, 303300, 304804, 306307, 307809, 309309, 310807, 312304, 313799, 315293, 316786,
    318277, 319767, 321255, 322742, 324227, 325711, 327193, 328675, 330154, 331633, 333110, 334585, 336060, 337532, 339004, 340474,
    341943, 343411, 344877, 346342, 347805, 349268, 350729, 352189, 353647, 355104, 356560, 358015, 359469, 360921, 362372, 363822,
    365270, 366717, 368164, 369608, 371052, 372495, 373936, 375376, 376815, 378253, 379690, 381125, 382559, 383993, 385425, 386856,
    388285, 389714, 391142, 392568, 393993, 395418, 396841, 398263, 399684, 401103, 402522, 403940, 405357, 406772, 408187, 409600>>

(* Lanczos kernel of size 1 at offsets k/12, k = 0..12, times 2^14 *)
LanczosTab1 ==
  <<16384, 16013, 14940, 13280, 11205, 8921, 6640, 4552, 2801, 1476, 598, 132, 0>>

(* Lanczos kernel of size 2 at offsets k/12, k = 0..24, times 2^14 *)
LanczosTab2 ==
  <<16384, 16151, 15467, 14375, 12939, 11245, 9391, 7477, 5603, 3856, 2309, 1014, 0, -726, -1178, -1388,
    -1401, -1268, -1043, -779, -518, -293, -128, -31, 0>>

(* Lanczos kernel of size 3 at offsets k/12, k = 0..36, times 2^14 *)
LanczosTab3 ==
  <<16384, 16177, 15566, 14583, 13276, 11710, 9960, 8109, 6238, 4427, 2747, 1257, 0, -995, -1719, -2177,
    -2389, -2388, -2213, -1912, -1529, -1111, -696, -318, 0, 243, 406, 492, 509, 472, 398, 305,
    207, 121, 54, 13, 0>>

(* Lanczos kernel of size 4 at offsets k/12, k = 0..48, times 2^14 *)
LanczosTab4 ==
  <<16384, 16186, 15601, 14656, 13395, 11875, 10164, 8337, 6469, 4637, 2910, 1349, 0, -1101, -1935, -2499,
    -2801, -2866, -2727, -2423, -2000, -1504, -979, -467, 0, 395, 701, 910, 1020, 1040, 982, 862,
    700, 516, 328, 152, 0, -119, -202, -247, -259, -243, -207, -161, -111, -65, -29, -7,
    0>>

(* Lanczos kernel of size 5 at offsets k/12, k = 0..60, times 2^14 *)
LanczosTab5 ==
  <<16384, 16190, 15617, 14690, 13451, 11952, 10260, 8444, 6578, 4737, 2988, 1392, 0, -1152, -2040, -2656,
    -3005, -3105, -2984, -2682, -2241, -1708, -1128, -546, 0, 478, 865, 1145, 1313, 1371, 1328, 1200,
    1005, 767, 506, 244, 0, -211, -378, -495, -560, -576, -548, -485, -397, -295, -189, -88,
    0, 70, 120, 148, 156, 147, 127, 99, 69, 41, 19, 5, 0>>

(* Lanczos kernel of size 6 at offsets k/12, k = 0..72, times 2^14 *)
LanczosTab6 ==
  <<16384, 16192, 15626, 14709, 13481, 11994, 10312, 8502, 6638, 4792, 3031, 1417, 0, -1180, -2099, -2744,
    -3119, -3239, -3130, -2829, -2379, -1825, -1214, -592, 0, 527, 961, 1285, 1489, 1571, 1539, 1407,
    1195, 923, 618, 303, 0, -271, -495, -661, -765, -805, -785, -715, -603, -463, -307, -149,
    0, 130, 235, 309, 352, 364, 348, 309, 255, 190, 122, 57, 0, -46, -79, -98,
    -104, -99, -85, -67, -47, -28, -13, -3, 0>>

(* Lanczos kernel of size 7 at offsets k/12, k = 0..84, times 2^14 *)
LanczosTab7 ==
  <<16384, 16194, 15631, 14720, 13499, 12020, 10343, 8537, 6674, 4825, 3057, 1431, 0, -1197, -2134, -2798,
    -3189, -3321, -3220, -2920, -2464, -1897, -1267, -621, 0, 558, 1023, 1374, 1601, 1699, 1675, 1542,
    1317, 1026, 692, 341, 0, -311, -573, -773, -903, -961, -949, -874, -746, -581, -391, -193,
    0, 174, 320, 429, 499, 527, 517, 472, 400, 308, 205, 100, 0, -88, -160, -211,
    -241, -250, -240, -214, -177, -132, -85, -40, 0, 32, 56, 69, 74, 71, 61, 48,
    34, 20, 9, 2, 0>>

(* Lanczos kernel of size 8 at offsets k/12, k = 0..96, times 2^14 *)
LanczosTab8 ==
  <<16384, 16195, 15634, 14727, 13511, 12036, 10363, 8560, 6698, 4846, 3074, 1441, 0, -1209, -2158, -2833,
    -3235, -3375, -3279, -2980, -2521, -1945, -1303, -640, 0, 578, 1063, 1434, 1676, 1785, 1767, 1632,
    1401, 1095, 742, 368, 0, -338, -627, -851, -1000, -1070, -1063, -986, -848, -665, -451, -224,
    0, 206, 382, 517, 607, 649, 643, 595, 510, 398, 269, 133, 0, -121, -223, -300,
    -350, -371, -365, -334, -284, -220, -147, -72, 0, 63, 115, 153, 175, 181, 175, 156,
    129, 97, 63, 30, 0, -24, -42, -52, -55, -53, -46, -36, -26, -15, -7, -2,
    0>>

(* Lanczos kernel of size 9 at offsets k/12, k = 0..108, times 2^14 *)
LanczosTab9 ==
  <<16384, 16195, 15637, 14732, 13519, 12047, 10378, 8576, 6714, 4861, 3085, 1447, 0, -1216, -2174, -2857,
    -3266, -3413, -3320, -3022, -2560, -1979, -1327, -653, 0, 592, 1092, 1476, 1729, 1846, 1831, 1696,
    1459, 1144, 777, 387, 0, -358, -666, -906, -1069, -1149, -1146, -1067, -922, -726, -495, -247,
    0, 229, 427, 583, 688, 739, 738, 687, 593, 466, 318, 158, 0, -147, -272, -370,
    -436, -467, -464, -430, -370, -290, -196, -97, 0, 89, 164, 222, 259, 275, 271, 249,
    212, 164, 110, 54, 0, -48, -87, -115, -132, -138, -133, -119, -99, -74, -48, -23,
    0, 19, 32, 40, 43, 41, 36, 28, 20, 12, 6, 1, 0>>

(* Lanczos kernel of size 10 at offsets k/12, k = 0..120, times 2^14 *)
LanczosTab10 ==
  <<16384, 16196, 15638, 14736, 13525, 12055, 10388, 8587, 6725, 4872, 3093, 1452, 0, -1222, -2185, -2875,
    -3289, -3440, -3350, -3052, -2588, -2003, -1345, -662, 0, 603, 1113, 1506, 1767, 1890, 1878, 1743,
    1502, 1180, 804, 401, 0, -372, -694, -948, -1121, -1207, -1207, -1127, -977, -771, -527, -264,
    0, 247, 462, 632, 749, 808, 810, 757, 657, 519, 355, 178, 0, -166, -311, -425,
    -503, -542, -542, -506, -438, -345, -236, -118, 0, 109, 204, 278, 327, 352, 350, 325,
    280, 220, 149, 74, 0, -68, -126, -170, -199, -211, -209, -192, -164, -127, -85, -42,
    0, 37, 68, 90, 104, 108, 104, 94, 78, 59, 38, 18, 0, -15, -26, -32,
    -34, -33, -29, -23, -16, -10, -4, -1, 0>>

(* Lanczos kernel of size 12 at offsets k/12, k = 0..144, times 2^14 *)
LanczosTab12 ==
  <<16384, 16196, 15641, 14740, 13532, 12066, 10401, 8602, 6740, 4885, 3104, 1458, 0, -1229, -2200, -2898,
    -3319, -3475, -3388, -3091, -2625, -2034, -1368, -675, 0, 616, 1140, 1546, 1817, 1948, 1940, 1805,
    1559, 1228, 838, 419, 0, -392, -732, -1003, -1189, -1285, -1290, -1208, -1051, -833, -572, -287,
    0, 271, 509, 699, 833, 903, 909, 854, 744, 591, 407, 205, 0, -194, -364, -501,
    -597, -648, -653, -614, -535, -425, -292, -147, 0, 139, 262, 360, 428, 465, 467, 439,
    382, 303, 208, 105, 0, -99, -185, -254, -301, -326, -327, -306, -266, -210, -144, -72,
    0, 67, 126, 172, 203, 219, 219, 204, 176, 138, 94, 47, 0, -43, -80, -109,
    -127, -136, -134, -124, -106, -82, -55, -27, 0, 24, 44, 59, 68, 71, 69, 62,
    52, 39, 26, 12, 0, -10, -17, -22, -23, -22, -20, -16, -11, -7, -3, -1,
    0>>

(* Lanczos kernel of size 16 at offsets k/12, k = 0..192, times 2^14 *)
LanczosTab16 ==
  <<16384, 16197, 15643, 14745, 13540, 12076, 10414, 8617, 6755, 4899, 3115, 1465, 0, -1237, -2216, -2921,
    -3349, -3510, -3427, -3131, -2662, -2066, -1392, -688, 0, 630, 1168, 1586, 1869, 2007, 2003, 1867,
    1617, 1277, 874, 438, 0, -412, -771, -1059, -1260, -1366, -1376, -1293, -1128, -897, -618, -312,
    0, 296, 558, 770, 921, 1003, 1014, 957, 838, 669, 462, 234, 0, -224, -422, -584,
    -700, -764, -774, -732, -642, -514, -355, -180, 0, 173, 327, 453, 543, 593, 602, 569,
    500, 400, 277, 140, 0, -135, -255, -353, -424, -463, -470, -445, -391, -312, -216, -110,
    0, 105, 199, 276, 331, 361, 366, 346, 304, 243, 168, 85, 0, -81, -154, -213,
    -255, -278, -282, -266, -233, -186, -129, -65, 0, 62, 117, 162, 193, 210, 212, 200,
    175, 139, 96, 48, 0, -46, -87, -119, -142, -154, -155, -146, -127, -101, -69, -35,
    0, 33, 61, 84, 100, 108, 108, 101, 87, 69, 47, 23, 0, -22, -40, -55,
    -65, -69, -69, -64, -54, -42, -29, -14, 0, 13, 23, 31, 36, 38, 37, 33,
    28, 21, 14, 7, 0, -5, -9, -12, -13, -12, -11, -9, -6, -4, -2, 0,
    0>>

(* Lanczos kernel of size 20 at offsets k/12, k = 0..240, times 2^14 *)
LanczosTab20 ==
  <<16384, 16197, 15644, 14747, 13543, 12081, 10420, 8624, 6762, 4906, 3120, 1467, 0, -1240, -2223, -2931,
    -3363, -3527, -3445, -3149, -2679, -2081, -1403, -694, 0, 636, 1180, 1605, 1893, 2035, 2033, 1897,
    1645, 1300, 890, 447, 0, -421, -790, -1086, -1294, -1405, -1416, -1333, -1165, -927, -640, -323,
    0, 308, 582, 805, 964, 1051, 1065, 1007, 883, 706, 489, 248, 0, -238, -451, -625,
    -751, -822, -835, -791, -696, -558, -387, -197, 0, 190, 360, 500, 601, 659, 670, 636,
    560, 450, 312, 159, 0, -154, -292, -406, -488, -536, -545, -518, -457, -367, -255, -130,
    0, 126, 239, 332, 400, 439, 447, 425, 374, 301, 209, 107, 0, -103, -196, -272,
    -328, -360, -367, -348, -307, -247, -172, -87, 0, 85, 161, 223, 269, 295, 300, 285,
    251, 202, 140, 71, 0, -69, -131, -182, -219, -240, -244, -232, -204, -164, -114, -58,
    0, 56, 106, 147, 176, 193, 196, 186, 164, 131, 91, 46, 0, -44, -84, -117,
    -140, -153, -155, -147, -129, -103, -71, -36, 0, 35, 66, 91, 109, 119, 120, 113,
    99, 79, 55, 28, 0, -26, -50, -69, -82, -89, -90, -84, -74, -59, -40, -20,
    0, 19, 36, 49, 59, 63, 64, 60, 52, 41, 28, 14, 0, -13, -24, -33,
    -39, -42, -41, -38, -33, -26, -17, -9, 0, 8, 14, 19, 22, 23, 23, 20,
    17, 13, 9, 4, 0, -3, -6, -7, -8, -8, -7, -5, -4, -2, -1, 0,
    0>>

(* normalised sinc at k/128, k = 0..1025, times 2^14 *)
SincTab ==
  <<16384, 16382, 16377, 16369, 16358, 16343, 16325, 16304, 16279, 16251, 16220, 16186, 16148, 16107, 16063, 16016,
    15966, 15913, 15856, 15797, 15734, 15668, 15599, 15528, 15453, 15375, 15294, 15211, 15124, 15035, 14943, 14848,
    14751, 14651, 14548, 14442, 14334, 14223, 14110, 13994, 13876, 13756, 13633, 13507, 13380, 13250, 13119, 12985,
    12849, 12710, 12570, 12428, 12285, 12139, 11991, 11842, 11691, 11539, 11385, 11229, 11072, 10914, 10754, 10593,
    10430, 10267, 10102, 9936, 9770, 9602, 9433, 9264, 9093, 8922, 8751, 8578, 8405, 8232, 8058, 7884,
    7709, 7534, 7359, 7184, 7009, 6833, 6658, 6482, 6307, 6132, 5958, 5783, 5609, 5435, 5262, 5089,
    4917, 4745, 4574, 4404, 4235, 4066, 3899, 3732, 3566, 3401, 3238, 3075, 2914, 2754, 2595, 2437,
    2281, 2126, 1973, 1821, 1670, 1522, 1375, 1229, 1085, 943, 803, 664, 528, 393, 260, 129,
    0, -127, -252, -375, -496, -614, -731, -845, -958, -1068, -1175, -1281, -1384, -1485, -1584, -1680,
    -1774, -1866, -1955, -2042, -2126, -2208, -2288, -2365, -2440, -2512, -2582, -2650, -2715, -2777, -2837, -2895,
    -2950, -3003, -3053, -3101, -3146, -3189, -3230, -3268, -3304, -3337, -3368, -3397, -3423, -3447, -3468, -3487,
    -3504, -3519, -3531, -3541, -3549, -3554, -3558, -3559, -3558, -3555, -3550, -3543, -3534, -3522, -3509, -3494,
    -3477, -3458, -3437, -3414, -3389, -3363, -3335, -3305, -3274, -3240, -3206, -3169, -3131, -3092, -3051, -3009,
    -2965, -2920, -2874, -2826, -2777, -2727, -2676, -2623, -2570, -2515, -2460, -2403, -2346, -2287, -2228, -2168,
    -2107, -2046, -1984, -1921, -1857, -1793, -1729, -1664, -1599, -1533, -1467, -1400, -1333, -1266, -1199, -1132,
    -1064, -997, -929, -862, -794, -727, -659, -592, -525, -458, -392, -326, -260, -194, -129, -64,
    0, 64, 127, 190, 252, 313, 374, 434, 493, 552, 610, 667, 723, 778, 833, 887,
    939, 991, 1042, 1091, 1140, 1188, 1234, 1280, 1325, 1368, 1410, 1451, 1491, 1530, 1567, 1604,
    1639, 1673, 1706, 1737, 1767, 1796, 1824, 1850, 1875, 1899, 1921, 1943, 1962, 1981, 1998, 2014,
    2029, 2042, 2054, 2065, 2074, 2082, 2089, 2094, 2098, 2101, 2103, 2103, 2102, 2100, 2097, 2092,
    2086, 2079, 2071, 2061, 2050, 2039, 2026, 2011, 1996, 1980, 1962, 1944, 1924, 1903, 1882, 1859,
    1836, 1811, 1785, 1759, 1732, 1703, 1674, 1644, 1613, 1582, 1550, 1517, 1483, 1448, 1413, 1377,
    1341, 1304, 1266, 1228, 1190, 1150, 1111, 1071, 1030, 989, 948, 906, 865, 822, 780, 737,
    694, 651, 608, 564, 521, 477, 434, 390, 346, 303, 259, 216, 172, 129, 86, 43,
    0, -43, -85, -127, -169, -210, -251, -292, -332, -372, -412, -451, -489, -527, -565, -602,
    -639, -675, -710, -745, -779, -812, -845, -877, -909, -940, -970, -999, -1028, -1056, -1083, -1109,
    -1135, -1159, -1183, -1206, -1229, -1250, -1271, -1290, -1309, -1327, -1344, -1360, -1376, -1390, -1403, -1416,
    -1428, -1438, -1448, -1457, -1465, -1472, -1478, -1484, -1488, -1491, -1494, -1496, -1496, -1496, -1495, -1493,
    -1490, -1486, -1482, -1476, -1470, -1463, -1454, -1446, -1436, -1425, -1414, -1402, -1389, -1375, -1360, -1345,
    -1329, -1312, -1295, -1277, -1258, -1238, -1218, -1197, -1176, -1154, -1131, -1108, -1084, -1060, -1035, -1009,
    -983, -957, -930, -903, -875, -847, -818, -789, -760, -730, -700, -670, -640, -609, -578, -546,
    -515, -483, -452, -420, -388, -355, -323, -291, -258, -226, -194, -161, -129, -96, -64, -32,
    0, 32, 64, 95, 127, 158, 189, 220, 250, 281, 311, 340, 370, 399, 428, 456,
    484, 511, 539, 565, 592, 617, 643, 668, 692, 716, 739, 762, 784, 806, 827, 848,
    868, 887, 906, 924, 942, 959, 975, 991, 1006, 1020, 1034, 1047, 1059, 1070, 1081, 1092,
    1101, 1110, 1118, 1126, 1133, 1139, 1144, 1149, 1153, 1156, 1158, 1160, 1161, 1162, 1162, 1161,
    1159, 1157, 1154, 1150, 1145, 1140, 1135, 1128, 1121, 1113, 1105, 1096, 1086, 1076, 1065, 1054,
    1042, 1029, 1016, 1002, 988, 973, 957, 942, 925, 908, 891, 873, 854, 835, 816, 796,
    776, 756, 735, 714, 692, 670, 648, 625, 602, 579, 555, 532, 508, 483, 459, 434,
    409, 384, 359, 334, 309, 283, 257, 232, 206, 180, 154, 129, 103, 77, 51, 26,
    0, -26, -51, -76, -102, -127, -152, -176, -201, -225, -250, -273, -297, -321, -344, -367,
    -389, -412, -434, -455, -477, -498, -518, -539, -559, -578, -597, -616, -634, -652, -669, -686,
    -702, -718, -734, -749, -763, -777, -791, -804, -816, -828, -840, -850, -861, -870, -880, -888,
    -896, -904, -911, -917, -923, -928, -933, -937, -941, -944, -946, -948, -949, -950, -950, -949,
    -948, -947, -944, -942, -938, -934, -930, -925, -920, -913, -907, -900, -892, -884, -875, -866,
    -857, -846, -836, -825, -813, -801, -789, -776, -762, -749, -734, -720, -705, -690, -674, -658,
    -641, -625, -607, -590, -572, -554, -536, -517, -498, -479, -460, -440, -421, -401, -381, -360,
    -340, -319, -298, -277, -256, -235, -214, -193, -171, -150, -129, -107, -86, -64, -43, -21,
    0, 21, 43, 64, 85, 106, 127, 147, 168, 188, 208, 229, 248, 268, 288, 307,
    326, 345, 363, 381, 399, 417, 434, 451, 468, 485, 501, 517, 532, 547, 562, 576,
    590, 604, 617, 629, 642, 654, 665, 676, 687, 697, 707, 716, 725, 733, 741, 749,
    756, 762, 768, 774, 779, 784, 788, 791, 795, 797, 799, 801, 802, 803, 803, 803,
    802, 801, 799, 797, 795, 792, 788, 784, 779, 774, 769, 763, 757, 750, 743, 735,
    727, 719, 710, 701, 691, 681, 670, 660, 648, 637, 625, 613, 600, 587, 574, 560,
    546, 532, 518, 503, 488, 473, 457, 441, 425, 409, 393, 376, 359, 342, 325, 308,
    290, 273, 255, 237, 219, 201, 183, 165, 147, 128, 110, 92, 73, 55, 37, 18,
    0, -18, -36, -55, -73, -91, -109, -126, -144, -162, -179, -196, -213, -230, -247, -264,
    -280, -296, -312, -328, -344, -359, -374, -389, -403, -417, -431, -445, -458, -471, -484, -497,
    -509, -520, -532, -543, -554, -564, -574, -584, -593, -602, -610, -619, -626, -634, -641, -647,
    -653, -659, -664, -669, -674, -678, -682, -685, -688, -690, -692, -694, -695, -696, -696, -696,
    -695, -694, -693, -691, -689, -687, -684, -680, -676, -672, -668, -663, -657, -651, -645, -639,
    -632, -625, -617, -609, -601, -592, -583, -574, -564, -554, -544, -533, -522, -511, -500, -488,
    -476, -464, -451, -438, -425, -412, -398, -385, -371, -357, -343, -328, -313, -299, -284, -269,
    -253, -238, -223, -207, -191, -176, -160, -144, -128, -112, -96, -80, -64, -48, -32, -16,
    0, 16>>

(* exp(-2^(k-11)), k = 1..15, i.e. exponents 2^-10 .. 2^4, times 2^15 *)
ExpTab ==
  <<32736, 32704, 32640, 32513, 32260, 31760, 30783, 28918, 25520, 19875, 12055, 4435, 600, 11, 0>>

(* cosine and sine of d quarter degrees, d = 0..1439, times 2^14 *)
CosTab ==
  <<16384, 16384, 16383, 16383, 16382, 16380, 16378, 16376, 16374, 16371, 16368, 16365, 16362, 16358, 16353, 16349,
    16344, 16339, 16333, 16328, 16322, 16315, 16309, 16302, 16294, 16287, 16279, 16270, 16262, 16253, 16244, 16234,
    16225, 16214, 16204, 16193, 16182, 16171, 16159, 16147, 16135, 16123, 16110, 16096, 16083, 16069, 16055, 16041,
    16026, 16011, 15996, 15980, 15964, 15948, 15931, 15914, 15897, 15880, 15862, 15844, 15826, 15807, 15788, 15769,
    15749, 15729, 15709, 15689, 15668, 15647, 15626, 15604, 15582, 15560, 15537, 15515, 15491, 15468, 15444, 15420,
    15396, 15371, 15346, 15321, 15296, 15270, 15244, 15218, 15191, 15164, 15137, 15109, 15082, 15053, 15025, 14996,
    14968, 14938, 14909, 14879, 14849, 14819, 14788, 14757, 14726, 14694, 14663, 14631, 14598, 14566, 14533, 14500,
    14466, 14433, 14399, 14364, 14330, 14295, 14260, 14225, 14189, 14153, 14117, 14081, 14044, 14007, 13970, 13932,
    13894, 13856, 13818, 13780, 13741, 13702, 13662, 13623, 13583, 13543, 13502, 13462, 13421, 13380, 13338, 13297,
    13255, 13213, 13170, 13128, 13085, 13042, 12998, 12955, 12911, 12867, 12822, 12778, 12733, 12688, 12642, 12597,
    12551, 12505, 12458, 12412, 12365, 12318, 12271, 12223, 12176, 12128, 12080, 12031, 11982, 11934, 11885, 11835,
    11786, 11736, 11686, 11636, 11585, 11535, 11484, 11433, 11381, 11330, 11278, 11226, 11174, 11121, 11069, 11016,
    10963, 10910, 10856, 10803, 10749, 10695, 10641, 10586, 10531, 10477, 10422, 10366, 10311, 10255, 10199, 10143,
    10087, 10031, 9974, 9917, 9860, 9803, 9746, 9688, 9630, 9572, 9514, 9456, 9397, 9339, 9280, 9221,
    9162, 9102, 9043, 8983, 8923, 8863, 8803, 8743, 8682, 8621, 8561, 8500, 8438, 8377, 8316, 8254,
    8192, 8130, 8068, 8006, 7943, 7881, 7818, 7755, 7692, 7629, 7565, 7502, 7438, 7374, 7311, 7246,
    7182, 7118, 7053, 6989, 6924, 6859, 6794, 6729, 6664, 6599, 6533, 6467, 6402, 6336, 6270, 6204,
    6138, 6071, 6005, 5938, 5872, 5805, 5738, 5671, 5604, 5536, 5469, 5402, 5334, 5266, 5199, 5131,
    5063, 4995, 4927, 4859, 4790, 4722, 4653, 4585, 4516, 4447, 4378, 4310, 4240, 4171, 4102, 4033,
    3964, 3894, 3825, 3755, 3686, 3616, 3546, 3476, 3406, 3336, 3266, 3196, 3126, 3056, 2986, 2915,
    2845, 2775, 2704, 2634, 2563, 2492, 2422, 2351, 2280, 2209, 2139, 2068, 1997, 1926, 1855, 1784,
    1713, 1641, 1570, 1499, 1428, 1357, 1285, 1214, 1143, 1072, 1000, 929, 857, 786, 715, 643,
    572, 500, 429, 357, 286, 214, 143, 71, 0, -71, -143, -214, -286, -357, -429, -500,
    -572, -643, -715, -786, -857, -929, -1000, -1072, -1143, -1214, -1285, -1357, -1428, -1499, -1570, -1641,
    -1713, -1784, -1855, -1926, -1997, -2068, -2139, -2209, -2280, -2351, -2422, -2492, -2563, -2634, -2704, -2775,
    -2845, -2915, -2986, -3056, -3126, -3196, -3266, -3336, -3406, -3476, -3546, -3616, -3686, -3755, -3825, -3894,
    -3964, -4033, -4102, -4171, -4240, -4310, -4378, -4447, -4516, -4585, -4653, -4722, -4790, -4859, -4927, -4995,
    -5063, -5131, -5199, -5266, -5334, -5402, -5469, -5536, -5604, -5671, -5738, -5805, -5872, -5938, -6005, -6071,
    -6138, -6204, -6270, -6336, -6402, -6467, -6533, -6599, -6664, -6729, -6794, -6859, -6924, -6989, -7053, -7118,
    -7182, -7246, -7311, -7374, -7438, -7502, -7565, -7629, -7692, -7755, -7818, -7881, -7943, -8006, -8068, -8130,
    -8192, -8254, -8316, -8377, -8438, -8500, -8561, -8621, -8682, -8743, -8803, -8863, -8923, -8983, -9043, -9102,
    -9162, -9221, -9280, -9339, -9397, -9456, -9514, -9572, -9630, -9688, -9746, -9803, -9860, -9917, -9974, -10031,
    -10087, -10143, -10199, -10255, -10311, -10366, -10422, -10477, -10531, -10586, -10641, -10695, -10749, -10803, -10856, -10910,
    -10963, -11016, -11069, -11121, -11174, -11226, -11278, -11330, -11381, -11433, -11484, -11535, -11585, -11636, -11686, -11736,
    -11786, -11835, -11885, -11934, -11982, -12031, -12080, -12128, -12176, -12223, -12271, -12318, -12365, -12412, -12458, -12505,
    -12551, -12597, -12642, -12688, -12733, -12778, -12822, -12867, -12911, -12955, -12998, -13042, -13085, -13128, -13170, -13213,
    -13255, -13297, -13338, -13380, -13421, -13462, -13502, -13543, -13583, -13623, -13662, -13702, -13741, -13780, -13818, -13856,
    -13894, -13932, -13970, -14007, -14044, -14081, -14117, -14153, -14189, -14225, -14260, -14295, -14330, -14364, -14399, -14433,
    -14466, -14500, -14533, -14566, -14598, -14631, -14663, -14694, -14726, -14757, -14788, -14819, -14849, -14879, -14909, -14938,
    -14968, -14996, -15025, -15053, -15082, -15109, -15137, -15164, -15191, -15218, -15244, -15270, -15296, -15321, -15346, -15371,
    -15396, -15420, -15444, -15468, -15491, -15515, -15537, -15560, -15582, -15604, -15626, -15647, -15668, -15689, -15709, -15729,
    -15749, -15769, -15788, -15807, -15826, -15844, -15862, -15880, -15897, -15914, -15931, -15948, -15964, -15980, -15996, -16011,
    -16026, -16041, -16055, -16069, -16083, -16096, -16110, -16123, -16135, -16147, -16159, -16171, -16182, -16193, -16204, -16214,
    -16225, -16234, -16244, -16253, -16262, -16270, -16279, -16287, -16294, -16302, -16309, -16315, -16322, -16328, -16333, -16339,
    -16344, -16349, -16353, -16358, -16362, -16365, -16368, -16371, -16374, -16376, -16378, -16380, -16382, -16383, -16383, -16384,
    -16384, -16384, -16383, -16383, -16382, -16380, -16378, -16376, -16374, -16371, -16368, -16365, -16362, -16358, -16353, -16349,
    -16344, -16339, -16333, -16328, -16322, -16315, -16309, -16302, -16294, -16287, -16279, -16270, -16262, -16253, -16244, -16234,
    -16225, -16214, -16204, -16193, -16182, -16171, -16159, -16147, -16135, -16123, -16110, -16096, -16083, -16069, -16055, -16041,
    -16026, -16011, -15996, -15980, -15964, -15948, -15931, -15914, -15897, -15880, -15862, -15844, -15826, -15807, -15788, -15769,
    -15749, -15729, -15709, -15689, -15668, -15647, -15626, -15604, -15582, -15560, -15537, -15515, -15491, -15468, -15444, -15420,
    -15396, -15371, -15346, -15321, -15296, -15270, -15244, -15218, -15191, -15164, -15137, -15109, -15082, -15053, -15025, -14996,
    -14968, -14938, -14909, -14879, -14849, -14819, -14788, -14757, -14726, -14694, -14663, -14631, -14598, -14566, -14533, -14500,
    -14466, -14433, -14399, -14364, -14330, -14295, -14260, -14225, -14189, -14153, -14117, -14081, -14044, -14007, -13970, -13932,
    -13894, -13856, -13818, -13780, -13741, -13702, -13662, -13623, -13583, -13543, -13502, -13462, -13421, -13380, -13338, -13297,
    -13255, -13213, -13170, -13128, -13085, -13042, -12998, -12955, -12911, -12867, -12822, -12778, -12733, -12688, -12642, -12597,
    -12551, -12505, -12458, -12412, -12365, -12318, -12271, -12223, -12176, -12128, -12080, -12031, -11982, -11934, -11885, -11835,
    -11786, -11736, -11686, -11636, -11585, -11535, -11484, -11433, -11381, -11330, -11278, -11226, -11174, -11121, -11069, -11016,
    -10963, -10910, -10856, -10803, -10749, -10695, -10641, -10586, -10531, -10477, -10422, -10366, -10311, -10255, -10199, -10143,
    -10087, -10031, -9974, -9917, -9860, -9803, -9746, -9688, -9630, -9572, -9514, -9456, -9397, -9339, -9280, -9221,
    -9162, -9102, -9043, -8983, -8923, -8863, -8803, -8743, -8682, -8621, -8561, -8500, -8438, -8377, -8316, -8254,
    -8192, -8130, -8068, -8006, -7943, -7881, -7818, -7755, -7692, -7629, -7565, -7502, -7438, -7374, -7311, -7246,
    -7182, -7118, -7053, -6989, -6924, -6859, -6794, -6729, -6664, -6599, -6533, -6467, -6402, -6336, -6270, -6204,
    -6138, -6071, -6005, -5938, -5872, -5805, -5738, -5671, -5604, -5536, -5469, -5402, -5334, -5266, -5199, -5131,
    -5063, -4995, -4927, -4859, -4790, -4722, -4653, -4585, -4516, -4447, -4378, -4310, -4240, -4171, -4102, -4033,
    -3964, -3894, -3825, -3755, -3686, -3616, -3546, -3476, -3406, -3336, -3266, -3196, -3126, -3056, -2986, -2915,
    -2845, -2775, -2704, -2634, -2563, -2492, -2422, -2351, -2280, -2209, -2139, -2068, -1997, -1926, -1855, -1784,
    -1713, -1641, -1570, -1499, -1428, -1357, -1285, -1214, -1143, -1072, -1000, -929, -857, -786, -715, -643,
    -572, -500, -429, -357, -286, -214, -143, -71, 0, 71, 143, 214, 286, 357, 429, 500,
    572, 643, 715, 786, 857, 929, 1000, 1072, 1143, 1214, 1285, 1357, 1428, 1499, 1570, 1641,
    1713, 1784, 1855, 1926, 1997, 2068, 2139, 2209, 2280, 2351, 2422, 2492, 2563, 2634, 2704, 2775,
    2845, 2915, 2986, 3056, 3126, 3196, 3266, 3336, 3406, 3476, 3546, 3616, 3686, 3755, 3825, 3894,
    3964, 4033, 4102, 4171, 4240, 4310, 4378, 4447, 4516, 4585, 4653, 4722, 4790, 4859, 4927, 4995,
    5063, 5131, 5199, 5266, 5334, 5402, 5469, 5536, 5604, 5671, 5738, 5805, 5872, 5938, 6005, 6071,
    6138, 6204, 6270, 6336, 6402, 6467, 6533, 6599, 6664, 6729, 6794, 6859, 6924, 6989, 7053, 7118,
    7182, 7246, 7311, 7374, 7438, 7502, 7565, 7629, 7692, 7755, 7818, 7881, 7943, 8006, 8068, 8130,
    8192, 8254, 8316, 8377, 8438, 8500, 8561, 8621, 8682, 8743, 8803, 8863, 8923, 8983, 9043, 9102,
    9162, 9221, 9280, 9339, 9397, 9456, 9514, 9572, 9630, 9688, 9746, 9803, 9860, 9917, 9974, 10031,
    10087, 10143, 10199, 10255, 10311, 10366, 10422, 10477, 10531, 10586, 10641, 10695, 10749, 10803, 10856, 10910,
    10963, 11016, 11069, 11121, 11174, 11226, 11278, 11330, 11381, 11433, 11484, 11535, 11585, 11636, 11686, 11736,
    11786, 11835, 11885, 11934, 11982, 12031, 12080, 12128, 12176, 12223, 12271, 12318, 12365, 12412, 12458, 12505,
    12551, 12597, 12642, 12688, 12733, 12778, 12822, 12867, 12911, 12955, 12998, 13042, 13085, 13128, 13170, 13213,
    13255, 13297, 13338, 13380, 13421, 13462, 13502, 13543, 13583, 13623, 13662, 13702, 13741, 13780, 13818, 13856,
    13894, 13932, 13970, 14007, 14044, 14081, 14117, 14153, 14189, 14225, 14260, 14295, 14330, 14364, 14399, 14433,
    14466, 14500, 14533, 14566, 14598, 14631, 14663, 14694, 14726, 14757, 14788, 14819, 14849, 14879, 14909, 14938,
    14968, 14996, 15025, 15053, 15082, 15109, 15137, 15164, 15191, 15218, 15244, 15270, 15296, 15321, 15346, 15371,
    15396, 15420, 15444, 15468, 15491, 15515, 15537, 15560, 15582, 15604, 15626, 15647, 15668, 15689, 15709, 15729,
    15749, 15769, 15788, 15807, 15826, 15844, 15862, 15880, 15897, 15914, 15931, 15948, 15964, 15980, 15996, 16011,
    16026, 16041, 16055, 16069, 16083, 16096, 16110, 16123, 16135, 16147, 16159, 16171, 16182, 16193, 16204, 16214,
    16225, 16234, 16244, 16253, 16262, 16270, 16279, 16287, 16294, 16302, 16309, 16315, 16322, 16328, 16333, 16339,
    16344, 16349, 16353, 16358, 16362, 16365, 16368, 16371, 16374, 16376, 16378, 16380, 16382, 16383, 16383, 16384>>

SinTab ==
  <<0, 71, 143, 214, 286, 357, 429, 500, 572, 643, 715, 786, 857, 929, 1000, 1072,
    1143, 1214, 1285, 1357, 1428, 1499, 1570, 1641, 1713, 1784, 1855, 1926, 1997, 2068, 2139, 2209,
    2280, 2351, 2422, 2492, 2563, 2634, 2704, 2775, 2845, 2915, 2986, 3056, 3126, 3196, 3266, 3336,
    3406, 3476, 3546, 3616, 3686, 3755, 3825, 3894, 3964, 4033, 4102, 4171, 4240, 4310, 4378, 4447,
    4516, 4585, 4653, 4722, 4790, 4859, 4927, 4995, 5063, 5131, 5199, 5266, 5334, 5402, 5469, 5536,
    5604, 5671, 5738, 5805, 5872, 5938, 6005, 6071, 6138, 6204, 6270, 6336, 6402, 6467, 6533, 6599,
    6664, 6729, 6794, 6859, 6924, 6989, 7053, 7118, 7182, 7246, 7311, 7374, 7438, 7502, 7565, 7629,
    7692, 7755, 7818, 7881, 7943, 8006, 8068, 8130, 8192, 8254, 8316, 8377, 8438, 8500, 8561, 8621,
    8682, 8743, 8803, 8863, 8923, 8983, 9043, 9102, 9162, 9221, 9280, 9339, 9397, 9456, 9514, 9572,
    9630, 9688, 9746, 9803, 9860, 9917, 9974, 10031, 10087, 10143, 10199, 10255, 10311, 10366, 10422, 10477,
    10531, 10586, 10641, 10695, 10749, 10803, 10856, 10910, 10963, 11016, 11069, 11121, 11174, 11226, 11278, 11330,
    11381, 11433, 11484, 11535, 11585, 11636, 11686, 11736, 11786, 11835, 11885, 11934, 11982, 12031, 12080, 12128,
    12176, 12223, 12271, 12318, 12365, 12412, 12458, 12505, 12551, 12597, 12642, 12688, 12733, 12778, 12822, 12867,
    12911, 12955, 12998, 13042, 13085, 13128, 13170, 13213, 13255, 13297, 13338, 13380, 13421, 13462, 13502, 13543,
    13583, 13623, 13662, 13702, 13741, 13780, 13818, 13856, 13894, 13932, 13970, 14007, 14044, 14081, 14117, 14153,
    14189, 14225, 14260, 14295, 14330, 14364, 14399, 14433, 14466, 14500, 14533, 14566, 14598, 14631, 14663, 14694,
    14726, 14757, 14788, 14819, 14849, 14879, 14909, 14938, 14968, 14996, 15025, 15053, 15082, 15109, 15137, 15164,
    15191, 15218, 15244, 15270, 15296, 15321, 15346, 15371, 15396, 15420, 15444, 15468, 15491, 15515, 15537, 15560,
    15582, 15604, 15626, 15647, 15668, 15689, 15709, 15729, 15749, 15769, 15788, 15807, 15826, 15844, 15862, 15880,
    15897, 15914, 15931, 15948, 15964, 15980, 15996, 16011, 16026, 16041, 16055, 16069, 16083, 16096, 16110, 16123,
    16135, 16147, 16159, 16171, 16182, 16193, 16204, 16214, 16225, 16234, 16244, 16253, 16262, 16270, 16279, 16287,
    16294, 16302, 16309, 16315, 16322, 16328, 16333, 16339, 16344, 16349, 16353, 16358, 16362, 16365, 16368, 16371,
    16374, 16376, 16378, 16380, 16382, 16383, 16383, 16384, 16384, 16384, 16383, 16383, 16382, 16380, 16378, 16376,
    16374, 16371, 16368, 16365, 16362, 16358, 16353, 16349, 16344, 16339, 16333, 16328, 16322, 16315, 16309, 16302,
    16294, 16287, 16279, 16270, 16262, 16253, 16244, 16234, 16225, 16214, 16204, 16193, 16182, 16171, 16159, 16147,
    16135, 16123, 16110, 16096, 16083, 16069, 16055, 16041, 16026, 16011, 15996, 15980, 15964, 15948, 15931, 15914,
    15897, 15880, 15862, 15844, 15826, 15807, 15788, 15769, 15749, 15729, 15709, 15689, 15668, 15647, 15626, 15604,
    15582, 15560, 15537, 15515, 15491, 15468, 15444, 15420, 15396, 15371, 15346, 15321, 15296, 15270, 15244, 15218,
    15191, 15164, 15137, 15109, 15082, 15053, 15025, 14996, 14968, 14938, 14909, 14879, 14849, 14819, 14788, 14757,
    14726, 14694, 14663, 14631, 14598, 14566, 14533, 14500, 14466, 14433, 14399, 14364, 14330, 14295, 14260, 14225,
    14189, 14153, 14117, 14081, 14044, 14007, 13970, 13932, 13894, 13856, 13818, 13780, 13741, 13702, 13662, 13623,
    13583, 13543, 13502, 13462, 13421, 13380, 13338, 13297, 13255, 13213, 13170, 13128, 13085, 13042, 12998, 12955,
    12911, 12867, 12822, 12778, 12733, 12688, 12642, 12597, 12551, 12505, 12458, 12412, 12365, 12318, 12271, 12223,
    12176, 12128, 12080, 12031, 11982, 11934, 11885, 11835, 11786, 11736, 11686, 11636, 11585, 11535, 11484, 11433,
    11381, 11330, 11278, 11226, 11174, 11121, 11069, 11016, 10963, 10910, 10856, 10803, 10749, 10695, 10641, 10586,
    10531, 10477, 10422, 10366, 10311, 10255, 10199, 10143, 10087, 10031, 9974, 9917, 9860, 9803, 9746, 9688,
    9630, 9572, 9514, 9456, 9397, 9339, 9280, 9221, 9162, 9102, 9043, 8983, 8923, 8863, 8803, 8743,
    8682, 8621, 8561, 8500, 8438, 8377, 8316, 8254, 8192, 8130, 8068, 8006, 7943, 7881, 7818, 7755,
    7692, 7629, 7565, 7502, 7438, 7374, 7311, 7246, 7182, 7118, 7053, 6989, 6924, 6859, 6794, 6729,
    6664, 6599, 6533, 6467, 6402, 6336, 6270, 6204, 6138, 6071, 6005, 5938, 5872, 5805, 5738, 5671,
    5604, 5536, 5469, 5402, 5334, 5266, 5199, 5131, 5063, 4995, 4927, 4859, 4790, 4722, 4653, 4585,
    4516, 4447, 4378, 4310, 4240, 4171, 4102, 4033, 3964, 3894, 3825, 3755, 3686, 3616, 3546, 3476,
    3406, 3336, 3266, 3196, 3126, 3056, 2986, 2915, 2845, 2775, 2704, 2634, 2563, 2492, 2422, 2351,
    2280, 2209, 2139, 2068, 1997, 1926, 1855, 1784, 1713, 1641, 1570, 1499, 1428, 1357, 1285, 1214,
    1143, 1072, 1000, 929, 857, 786, 715, 643, 572, 500, 429, 357, 286, 214, 143, 71,
    0, -71, -143, -214, -286, -357, -429, -500, -572, -643, -715, -786, -857, -929, -1000, -1072,
    -1143, -1214, -1285, -1357, -1428, -1499, -1570, -1641, -1713, -1784, -1855, -1926, -1997, -2068, -2139, -2209,
    -2280, -2351, -2422, -2492, -2563, -2634, -2704, -2775, -2845, -2915, -2986, -3056, -3126, -3196, -3266, -3336,
    -3406, -3476, -3546, -3616, -3686, -3755, -3825, -3894, -3964, -4033, -4102, -4171, -4240, -4310, -4378, -4447,
    -4516, -4585, -4653, -4722, -4790, -4859, -4927, -4995, -5063, -5131, -5199, -5266, -5334, -5402, -5469, -5536,
    -5604, -5671, -5738, -5805, -5872, -5938, -6005, -6071, -6138, -6204, -6270, -6336, -6402, -6467, -6533, -6599,
    -6664, -6729, -6794, -6859, -6924, -6989, -7053, -7118, -7182, -7246, -7311, -7374, -7438, -7502, -7565, -7629,
    -7692, -7755, -7818, -7881, -7943, -8006, -8068, -8130, -8192, -8254, -8316, -8377, -8438, -8500, -8561, -8621,
    -8682, -8743, -8803, -8863, -8923, -8983, -9043, -9102, -9162, -9221, -9280, -9339, -9397, -9456, -9514, -9572,
    -9630, -9688, -9746, -9803, -9860, -9917, -9974, -10031, -10087, -10143, -10199, -10255, -10311, -10366, -10422, -10477,
    -10531, -10586, -10641, -10695, -10749, -10803, -10856, -10910, -10963, -11016, -11069, -11121, -11174, -11226, -11278, -11330,
    -11381, -11433, -11484, -11535, -11585, -11636, -11686, -11736, -11786, -11835, -11885, -11934, -11982, -12031, -12080, -12128,
    -12176, -12223, -12271, -12318, -12365, -12412, -12458, -12505, -12551, -12597, -12642, -12688, -12733, -12778, -12822, -12867,
    -12911, -12955, -12998, -13042, -13085, -13128, -13170, -13213, -13255, -13297, -13338, -13380, -13421, -13462, -13502, -13543,
    -13583, -13623, -13662, -13702, -13741, -13780, -13818, -13856, -13894, -13932, -13970, -14007, -14044, -14081, -14117, -14153,
    -14189, -14225, -14260, -14295, -14330, -14364, -14399, -14433, -14466, -14500, -14533, -14566, -14598, -14631, -14663, -14694,
    -14726, -14757, -14788, -14819, -14849, -14879, -14909, -14938, -14968, -14996, -15025, -15053, -15082, -15109, -15137, -15164,
    -15191, -15218, -15244, -15270, -15296, -15321, -15346, -15371, -15396, -15420, -15444, -15468, -15491, -15515, -15537, -15560,
    -15582, -15604, -15626, -15647, -15668, -15689, -15709, -15729, -15749, -15769, -15788, -15807, -15826, -15844, -15862, -15880,
    -15897, -15914, -15931, -15948, -15964, -15980, -15996, -16011, -16026, -16041, -16055, -16069, -16083, -16096, -16110, -16123,
    -16135, -16147, -16159, -16171, -16182, -16193, -16204, -16214, -16225, -16234, -16244, -16253, -16262, -16270, -16279, -16287,
    -16294, -16302, -16309, -16315, -16322, -16328, -16333, -16339, -16344, -16349, -16353, -16358, -16362, -16365, -16368, -16371,
    -16374, -16376, -16378, -16380, -16382, -16383, -16383, -16384, -16384, -16384, -16383, -16383, -16382, -16380, -16378, -16376,
    -16374, -16371, -16368, -16365, -16362, -16358, -16353, -16349, -16344, -16339, -16333, -16328, -16322, -16315, -16309, -16302,
    -16294, -16287, -16279, -16270, -16262, -16253, -16244, -16234, -16225, -16214, -16204, -16193, -16182, -16171, -16159, -16147,
    -16135, -16123, -16110, -16096, -16083, -16069, -16055, -16041, -16026, -16011, -15996, -15980, -15964, -15948, -15931, -15914,
    -15897, -15880, -15862, -15844, -15826, -15807, -15788, -15769, -15749, -15729, -15709, -15689, -15668, -15647, -15626, -15604,
    -15582, -15560, -15537, -15515, -15491, -15468, -15444, -15420, -15396, -15371, -15346, -15321, -15296, -15270, -15244, -15218,
    -15191, -15164, -15137, -15109, -15082, -15053, -15025, -14996, -14968, -14938, -14909, -14879, -14849, -14819, -14788, -14757,
    -14726, -14694, -14663, -14631, -14598, -14566, -14533, -14500, -14466, -14433, -14399, -14364, -14330, -14295, -14260, -14225,
    -14189, -14153, -14117, -14081, -14044, -14007, -13970, -13932, -13894, -13856, -13818, -13780, -13741, -13702, -13662, -13623,
    -13583, -13543, -13502, -13462, -13421, -13380, -13338, -13297, -13255, -13213, -13170, -13128, -13085, -13042, -12998, -12955,
    -12911, -12867, -12822, -12778, -12733, -12688, -12642, -12597, -12551, -12505, -12458, -12412, -12365, -12318, -12271, -12223,
    -12176, -12128, -12080, -12031, -11982, -11934, -11885, -11835, -11786, -11736, -11686, -11636, -11585, -11535, -11484, -11433,
    -11381, -11330, -11278, -11226, -11174, -11121, -11069, -11016, -10963, -10910, -10856, -10803, -10749, -10695, -10641, -10586,
    -10531, -10477, -10422, -10366, -10311, -10255, -10199, -10143, -10087, -10031, -9974, -9917, -9860, -9803, -9746, -9688,
    -9630, -9572, -9514, -9456, -9397, -9339, -9280, -9221, -9162, -9102, -9043, -8983, -8923, -8863, -8803, -8743,
    -8682, -8621, -8561, -8500, -8438, -8377, -8316, -8254, -8192, -8130, -8068, -8006, -7943, -7881, -7818, -7755,
    -7692, -7629, -7565, -7502, -7438, -7374, -7311, -7246, -7182, -7118, -7053, -6989, -6924, -6859, -6794, -6729,
    -6664, -6599, -6533, -6467, -6402, -6336, -6270, -6204, -6138, -6071, -6005, -5938, -5872, -5805, -5738, -5671,
    -5604, -5536, -5469, -5402, -5334, -5266, -5199, -5131, -5063, -4995, -4927, -4859, -4790, -4722, -4653, -4585,
    -4516, -4447, -4378, -4310, -4240, -4171, -4102, -4033, -3964, -3894, -3825, -3755, -3686, -3616, -3546, -3476,
    -3406, -3336, -3266, -3196, -3126, -3056, -2986, -2915, -2845, -2775, -2704, -2634, -2563, -2492, -2422, -2351,
    -2280, -2209, -2139, -2068, -1997, -1926, -1855, -1784, -1713, -1641, -1570, -1499, -1428, -1357, -1285, -1214,
    -1143, -1072, -1000, -929, -857, -786, -715, -643, -572, -500, -429, -357, -286, -214, -143, -71>>

(* linear sRGB -> XYZ (D65) and back, row-major, times 2^13 *)
RgbToXyz ==
  <<3379, 2929, 1478, 1742, 5859, 591, 158, 976, 7785>>

XyzToRgb ==
  <<26546, -12592, -4084, -7940, 15368, 340, 456, -1671, 8661>>

(* reference whites D50 and D65, divided by 100, times 2^14 *)
WhiteD50 ==
  <<15798, 16384, 13520>>

WhiteD65 ==
  <<15573, 16384, 17840>>

=============================================================================
