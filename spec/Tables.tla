------------------------------- MODULE Tables -------------------------------
(* generated by gen/mktables.py *)
\* ExpTab[n+1] = 10^6 * exp(-n/128), n = 0 .. 1856
ExpTab == <<
  1000000, 992218, 984496, 976835, 969233, 961691, 954207, 946781, 939413, 932102, 924849, 917652, 910510, 903425, 896394, 889418,
  882497, 875629, 868815, 862054, 855345, 848689, 842084, 835531, 829029, 822578, 816176, 809825, 803523, 797270, 791065, 784909,
  778801, 772740, 766727, 760760, 754840, 748965, 743137, 737354, 731616, 725922, 720273, 714668, 709106, 703588, 698113, 692680,
  687289, 681941, 676634, 671368, 666144, 660960, 655816, 650712, 645649, 640624, 635639, 630692, 625784, 620914, 616082, 611288,
  606531, 601811, 597127, 592480, 587870, 583295, 578756, 574252, 569783, 565349, 560949, 556584, 552252, 547955, 543691, 539460,
  535261, 531096, 526963, 522862, 518793, 514756, 510750, 506775, 502832, 498919, 495036, 491183, 487361, 483568, 479805, 476071,
  472367, 468691, 465043, 461424, 457833, 454270, 450735, 447228, 443747, 440294, 436868, 433468, 430095, 426748, 423427, 420132,
  416862, 413618, 410399, 407205, 404037, 400892, 397773, 394677, 391606, 388558, 385534, 382534, 379557, 376603, 373673, 370765,
  367879, 365017, 362176, 359358, 356561, 353786, 351033, 348301, 345591, 342901, 340233, 337585, 334958, 332351, 329765, 327199,
  324652, 322126, 319619, 317132, 314664, 312215, 309786, 307375, 304983, 302609, 300254, 297918, 295599, 293299, 291017, 288752,
  286505, 284275, 282063, 279868, 277690, 275529, 273385, 271257, 269146, 267052, 264974, 262912, 260866, 258836, 256821, 254823,
  252840, 250872, 248920, 246983, 245061, 243153, 241261, 239384, 237521, 235672, 233838, 232019, 230213, 228422, 226644, 224880,
  223130, 221394, 219671, 217961, 216265, 214582, 212912, 211255, 209611, 207980, 206362, 204756, 203162, 201581, 200013, 198456,
  196912, 195379, 193859, 192350, 190853, 189368, 187894, 186432, 184981, 183542, 182114, 180696, 179290, 177895, 176510, 175137,
  173774, 172422, 171080, 169748, 168427, 167117, 165816, 164526, 163246, 161975, 160715, 159464, 158223, 156992, 155770, 154558,
  153355, 152162, 150977, 149803, 148637, 147480, 146332, 145194, 144064, 142943, 141830, 140726, 139631, 138545, 137467, 136397,
  135335, 134282, 133237, 132200, 131171, 130151, 129138, 128133, 127136, 126146, 125165, 124191, 123224, 122265, 121314, 120370,
  119433, 118504, 117581, 116666, 115758, 114858, 113964, 113077, 112197, 111324, 110457, 109598, 108745, 107899, 107059, 106226,
  105399, 104579, 103765, 102958, 102156, 101361, 100573, 99790, 99013, 98243, 97478, 96720, 95967, 95220, 94479, 93744,
  93014, 92291, 91572, 90860, 90153, 89451, 88755, 88064, 87379, 86699, 86024, 85355, 84691, 84032, 83378, 82729,
  82085, 81446, 80812, 80184, 79560, 78940, 78326, 77717, 77112, 76512, 75916, 75325, 74739, 74158, 73581, 73008,
  72440, 71876, 71317, 70762, 70211, 69665, 69122, 68585, 68051, 67521, 66996, 66474, 65957, 65444, 64935, 64429,
  63928, 63430, 62937, 62447, 61961, 61479, 61000, 60526, 60055, 59587, 59124, 58664, 58207, 57754, 57305, 56859,
  56416, 55977, 55541, 55109, 54680, 54255, 53833, 53414, 52998, 52586, 52176, 51770, 51367, 50968, 50571, 50178,
  49787, 49400, 49015, 48634, 48255, 47880, 47507, 47137, 46771, 46407, 46046, 45687, 45332, 44979, 44629, 44282,
  43937, 43595, 43256, 42919, 42585, 42254, 41925, 41599, 41275, 40954, 40635, 40319, 40005, 39694, 39385, 39078,
  38774, 38472, 38173, 37876, 37581, 37289, 36999, 36711, 36425, 36142, 35860, 35581, 35304, 35030, 34757, 34486,
  34218, 33952, 33688, 33425, 33165, 32907, 32651, 32397, 32145, 31895, 31647, 31400, 31156, 30913, 30673, 30434,
  30197, 29962, 29729, 29498, 29268, 29041, 28815, 28590, 28368, 28147, 27928, 27711, 27495, 27281, 27069, 26858,
  26649, 26442, 26236, 26032, 25829, 25628, 25429, 25231, 25035, 24840, 24646, 24455, 24264, 24075, 23888, 23702,
  23518, 23335, 23153, 22973, 22794, 22617, 22441, 22266, 22093, 21921, 21750, 21581, 21413, 21247, 21081, 20917,
  20754, 20593, 20433, 20274, 20116, 19959, 19804, 19650, 19497, 19345, 19195, 19045, 18897, 18750, 18604, 18459,
  18316, 18173, 18032, 17891, 17752, 17614, 17477, 17341, 17206, 17072, 16939, 16807, 16677, 16547, 16418, 16290,
  16163, 16038, 15913, 15789, 15666, 15544, 15423, 15303, 15184, 15066, 14949, 14832, 14717, 14603, 14489, 14376,
  14264, 14153, 14043, 13934, 13825, 13718, 13611, 13505, 13400, 13296, 13192, 13090, 12988, 12887, 12786, 12687,
  12588, 12490, 12393, 12297, 12201, 12106, 12012, 11918, 11825, 11733, 11642, 11552, 11462, 11372, 11284, 11196,
  11109, 11023, 10937, 10852, 10767, 10683, 10600, 10518, 10436, 10355, 10274, 10194, 10115, 10036, 9958, 9881,
  9804, 9727, 9652, 9577, 9502, 9428, 9355, 9282, 9210, 9138, 9067, 8996, 8926, 8857, 8788, 8720,
  8652, 8584, 8518, 8451, 8386, 8320, 8256, 8191, 8128, 8064, 8002, 7939, 7877, 7816, 7755, 7695,
  7635, 7576, 7517, 7458, 7400, 7343, 7285, 7229, 7173, 7117, 7061, 7006, 6952, 6898, 6844, 6791,
  6738, 6686, 6633, 6582, 6531, 6480, 6429, 6379, 6330, 6280, 6232, 6183, 6135, 6087, 6040, 5993,
  5946, 5900, 5854, 5808, 5763, 5718, 5674, 5630, 5586, 5542, 5499, 5457, 5414, 5372, 5330, 5289,
  5248, 5207, 5166, 5126, 5086, 5046, 5007, 4968, 4930, 4891, 4853, 4815, 4778, 4741, 4704, 4667,
  4631, 4595, 4559, 4524, 4488, 4454, 4419, 4384, 4350, 4316, 4283, 4250, 4216, 4184, 4151, 4119,
  4087, 4055, 4023, 3992, 3961, 3930, 3900, 3869, 3839, 3809, 3780, 3750, 3721, 3692, 3663, 3635,
  3607, 3578, 3551, 3523, 3496, 3468, 3441, 3415, 3388, 3362, 3336, 3310, 3284, 3258, 3233, 3208,
  3183, 3158, 3133, 3109, 3085, 3061, 3037, 3013, 2990, 2967, 2944, 2921, 2898, 2875, 2853, 2831,
  2809, 2787, 2765, 2744, 2722, 2701, 2680, 2659, 2639, 2618, 2598, 2577, 2557, 2538, 2518, 2498,
  2479, 2459, 2440, 2421, 2402, 2384, 2365, 2347, 2329, 2310, 2292, 2275, 2257, 2239, 2222, 2205,
  2187, 2170, 2154, 2137, 2120, 2104, 2087, 2071, 2055, 2039, 2023, 2007, 1992, 1976, 1961, 1946,
  1930, 1915, 1901, 1886, 1871, 1856, 1842, 1828, 1813, 1799, 1785, 1771, 1758, 1744, 1730, 1717,
  1704, 1690, 1677, 1664, 1651, 1638, 1626, 1613, 1600, 1588, 1576, 1563, 1551, 1539, 1527, 1515,
  1503, 1492, 1480, 1469, 1457, 1446, 1435, 1423, 1412, 1401, 1390, 1380, 1369, 1358, 1348, 1337,
  1327, 1316, 1306, 1296, 1286, 1276, 1266, 1256, 1246, 1237, 1227, 1218, 1208, 1199, 1189, 1180,
  1171, 1162, 1153, 1144, 1135, 1126, 1117, 1109, 1100, 1091, 1083, 1074, 1066, 1058, 1050, 1041,
  1033, 1025, 1017, 1009, 1002, 994, 986, 978, 971, 963, 956, 948, 941, 934, 926, 919,
  912, 905, 898, 891, 884, 877, 870, 863, 857, 850, 843, 837, 830, 824, 817, 811,
  805, 798, 792, 786, 780, 774, 768, 762, 756, 750, 744, 738, 733, 727, 721, 716,
  710, 705, 699, 694, 688, 683, 678, 672, 667, 662, 657, 652, 647, 642, 637, 632,
  627, 622, 617, 612, 607, 603, 598, 593, 589, 584, 580, 575, 571, 566, 562, 557,
  553, 549, 545, 540, 536, 532, 528, 524, 520, 516, 512, 508, 504, 500, 496, 492,
  488, 484, 481, 477, 473, 469, 466, 462, 459, 455, 451, 448, 444, 441, 438, 434,
  431, 427, 424, 421, 417, 414, 411, 408, 405, 401, 398, 395, 392, 389, 386, 383,
  380, 377, 374, 371, 368, 366, 363, 360, 357, 354, 352, 349, 346, 343, 341, 338,
  335, 333, 330, 328, 325, 323, 320, 318, 315, 313, 310, 308, 305, 303, 301, 298,
  296, 294, 291, 289, 287, 285, 282, 280, 278, 276, 274, 272, 270, 267, 265, 263,
  261, 259, 257, 255, 253, 251, 249, 247, 245, 244, 242, 240, 238, 236, 234, 232,
  231, 229, 227, 225, 223, 222, 220, 218, 217, 215, 213, 212, 210, 208, 207, 205,
  203, 202, 200, 199, 197, 196, 194, 193, 191, 190, 188, 187, 185, 184, 182, 181,
  180, 178, 177, 175, 174, 173, 171, 170, 169, 167, 166, 165, 163, 162, 161, 160,
  158, 157, 156, 155, 154, 152, 151, 150, 149, 148, 147, 145, 144, 143, 142, 141,
  140, 139, 138, 137, 136, 134, 133, 132, 131, 130, 129, 128, 127, 126, 125, 124,
  123, 122, 121, 121, 120, 119, 118, 117, 116, 115, 114, 113, 112, 111, 111, 110,
  109, 108, 107, 106, 106, 105, 104, 103, 102, 102, 101, 100, 99, 98, 98, 97,
  96, 95, 95, 94, 93, 92, 92, 91, 90, 90, 89, 88, 88, 87, 86, 85,
  85, 84, 84, 83, 82, 82, 81, 80, 80, 79, 78, 78, 77, 77, 76, 75,
  75, 74, 74, 73, 73, 72, 71, 71, 70, 70, 69, 69, 68, 68, 67, 67,
  66, 66, 65, 65, 64, 64, 63, 63, 62, 62, 61, 61, 60, 60, 59, 59,
  58, 58, 57, 57, 57, 56, 56, 55, 55, 54, 54, 53, 53, 53, 52, 52,
  51, 51, 51, 50, 50, 49, 49, 49, 48, 48, 48, 47, 47, 46, 46, 46,
  45, 45, 45, 44, 44, 44, 43, 43, 43, 42, 42, 42, 41, 41, 41, 40,
  40, 40, 39, 39, 39, 39, 38, 38, 38, 37, 37, 37, 36, 36, 36, 36,
  35, 35, 35, 35, 34, 34, 34, 33, 33, 33, 33, 32, 32, 32, 32, 31,
  31, 31, 31, 30, 30, 30, 30, 30, 29, 29, 29, 29, 28, 28, 28, 28,
  28, 27, 27, 27, 27, 26, 26, 26, 26, 26, 25, 25, 25, 25, 25, 24,
  24, 24, 24, 24, 24, 23, 23, 23, 23, 23, 22, 22, 22, 22, 22, 22,
  21, 21, 21, 21, 21, 21, 20, 20, 20, 20, 20, 20, 20, 19, 19, 19,
  19, 19, 19, 18, 18, 18, 18, 18, 18, 18, 18, 17, 17, 17, 17, 17,
  17, 17, 16, 16, 16, 16, 16, 16, 16, 16, 15, 15, 15, 15, 15, 15,
  15, 15, 15, 14, 14, 14, 14, 14, 14, 14, 14, 14, 13, 13, 13, 13,
  13, 13, 13, 13, 13, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12,
  11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 10, 10, 10, 10,
  10, 10, 10, 10, 10, 10, 10, 10, 10, 9, 9, 9, 9, 9, 9, 9,
  9, 9, 9, 9, 9, 9, 9, 8, 8, 8, 8, 8, 8, 8, 8, 8,
  8, 8, 8, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 6, 6, 6, 6, 6, 6, 6,
  6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 5,
  5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5,
  5, 5, 5, 5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4,
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
  4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1
>>
\* LnMant[n+1] = 10^5 * ln(1 + n/256), n = 0 .. 256
LnMant == <<
  0, 390, 778, 1165, 1550, 1934, 2317, 2698, 3077, 3455, 3832, 4207, 4581, 4953, 5324, 5694,
  6062, 6429, 6795, 7159, 7522, 7884, 8244, 8603, 8961, 9318, 9673, 10027, 10380, 10731, 11081, 11430,
  11778, 12125, 12470, 12815, 13158, 13500, 13840, 14180, 14518, 14855, 15192, 15527, 15861, 16193, 16525, 16856,
  17185, 17513, 17841, 18167, 18492, 18816, 19139, 19462, 19783, 20103, 20422, 20740, 21056, 21372, 21687, 22001,
  22314, 22626, 22937, 23247, 23557, 23865, 24172, 24478, 24784, 25088, 25392, 25694, 25996, 26297, 26596, 26895,
  27193, 27491, 27787, 28082, 28377, 28671, 28963, 29255, 29546, 29837, 30126, 30415, 30703, 30989, 31276, 31561,
  31845, 32129, 32412, 32694, 32975, 33256, 33536, 33814, 34093, 34370, 34647, 34923, 35198, 35472, 35746, 36018,
  36291, 36562, 36833, 37102, 37372, 37640, 37908, 38175, 38441, 38707, 38972, 39236, 39499, 39762, 40024, 40286,
  40547, 40807, 41066, 41325, 41583, 41840, 42097, 42353, 42608, 42863, 43117, 43371, 43624, 43876, 44127, 44378,
  44629, 44878, 45127, 45376, 45624, 45871, 46118, 46364, 46609, 46854, 47098, 47342, 47585, 47827, 48069, 48310,
  48551, 48791, 49030, 49269, 49508, 49746, 49983, 50219, 50456, 50691, 50926, 51161, 51395, 51628, 51861, 52093,
  52325, 52556, 52787, 53017, 53246, 53476, 53704, 53932, 54160, 54387, 54613, 54839, 55065, 55290, 55514, 55738,
  55962, 56185, 56407, 56629, 56850, 57071, 57292, 57512, 57732, 57951, 58169, 58387, 58605, 58822, 59039, 59255,
  59471, 59686, 59901, 60115, 60329, 60543, 60756, 60968, 61180, 61392, 61603, 61814, 62024, 62234, 62443, 62652,
  62861, 63069, 63277, 63484, 63691, 63897, 64103, 64309, 64514, 64719, 64923, 65127, 65330, 65533, 65736, 65938,
  66140, 66341, 66542, 66743, 66943, 67143, 67342, 67541, 67740, 67938, 68136, 68333, 68530, 68727, 68923, 69119,
  69315
>>
\* LnTab[n] = 10^5 * ln(n), n = 1 .. 2000
LnTab == <<
  0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906, 270805, 277259,
  283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584, 333220, 336730, 340120, 343399, 346574,
  349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888, 371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120,
  389182, 391202, 393183, 395124, 397029, 398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888,
  417439, 418965, 420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945, 438203,
  439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179, 453260, 454329, 455388, 456435,
  457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439, 465396, 466344, 467283, 468213, 469135, 470048, 470953, 471850,
  472739, 473620, 474493, 475359, 476217, 477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203,
  485981, 486753, 487520, 488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284, 496981,
  497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986, 505625, 506260, 506890, 507517,
  508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990, 513580, 514166, 514749, 515329, 515906, 516479, 517048,
  517615, 518178, 518739, 519296, 519850, 520401, 520949, 521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750,
  526269, 526786, 527300, 527811, 528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754,
  534233, 534711, 535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816, 540268, 540717, 541165,
  541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532, 545959, 546383, 546806, 547227, 547646, 548064,
  548480, 548894, 549306, 549717, 550126, 550533, 550939, 551343, 551745, 552146, 552545, 552943, 553339, 553733, 554126, 554518,
  554908, 555296, 555683, 556068, 556452, 556834, 557215, 557595, 557973, 558350, 558725, 559099, 559471, 559842, 560212, 560580,
  560947, 561313, 561677, 562040, 562402, 562762, 563121, 563479, 563835, 564191, 564545, 564897, 565249, 565599, 565948, 566296,
  566643, 566988, 567332, 567675, 568017, 568358, 568698, 569036, 569373, 569709, 570044, 570378, 570711, 571043, 571373, 571703,
  572031, 572359, 572685, 573010, 573334, 573657, 573979, 574300, 574620, 574939, 575257, 575574, 575890, 576205, 576519, 576832,
  577144, 577455, 577765, 578074, 578383, 578690, 578996, 579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711,
  582008, 582305, 582600, 582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793, 586079, 586363,
  586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440, 589715, 589990, 590263, 590536, 590808,
  591080, 591350, 591620, 591889, 592158, 592426, 592693, 592959, 593225, 593489, 593754, 594017, 594280, 594542, 594803, 595064,
  595324, 595584, 595842, 596101, 596358, 596615, 596871, 597126, 597381, 597635, 597889, 598141, 598394, 598645, 598896, 599146,
  599396, 599645, 599894, 600141, 600389, 600635, 600881, 601127, 601372, 601616, 601859, 602102, 602345, 602587, 602828, 603069,
  603309, 603548, 603787, 604025, 604263, 604501, 604737, 604973, 605209, 605444, 605678, 605912, 606146, 606379, 606611, 606843,
  607074, 607304, 607535, 607764, 607993, 608222, 608450, 608677, 608904, 609131, 609357, 609582, 609807, 610032, 610256, 610479,
  610702, 610925, 611147, 611368, 611589, 611810, 612030, 612249, 612468, 612687, 612905, 613123, 613340, 613556, 613773, 613988,
  614204, 614419, 614633, 614847, 615060, 615273, 615486, 615698, 615910, 616121, 616331, 616542, 616752, 616961, 617170, 617379,
  617587, 617794, 618002, 618208, 618415, 618621, 618826, 619032, 619236, 619441, 619644, 619848, 620051, 620254, 620456, 620658,
  620859, 621060, 621261, 621461, 621661, 621860, 622059, 622258, 622456, 622654, 622851, 623048, 623245, 623441, 623637, 623832,
  624028, 624222, 624417, 624611, 624804, 624998, 625190, 625383, 625575, 625767, 625958, 626149, 626340, 626530, 626720, 626910,
  627099, 627288, 627476, 627664, 627852, 628040, 628227, 628413, 628600, 628786, 628972, 629157, 629342, 629527, 629711, 629895,
  630079, 630262, 630445, 630628, 630810, 630992, 631173, 631355, 631536, 631716, 631897, 632077, 632257, 632436, 632615, 632794,
  632972, 633150, 633328, 633505, 633683, 633859, 634036, 634212, 634388, 634564, 634739, 634914, 635089, 635263, 635437, 635611,
  635784, 635957, 636130, 636303, 636475, 636647, 636819, 636990, 637161, 637332, 637502, 637673, 637843, 638012, 638182, 638351,
  638519, 638688, 638856, 639024, 639192, 639359, 639526, 639693, 639859, 640026, 640192, 640357, 640523, 640688, 640853, 641017,
  641182, 641346, 641510, 641673, 641836, 641999, 642162, 642325, 642487, 642649, 642811, 642972, 643133, 643294, 643455, 643615,
  643775, 643935, 644095, 644254, 644413, 644572, 644731, 644889, 645047, 645205, 645362, 645520, 645677, 645834, 645990, 646147,
  646303, 646459, 646614, 646770, 646925, 647080, 647235, 647389, 647543, 647697, 647851, 648004, 648158, 648311, 648464, 648616,
  648768, 648920, 649072, 649224, 649375, 649527, 649677, 649828, 649979, 650129, 650279, 650429, 650578, 650728, 650877, 651026,
  651175, 651323, 651471, 651619, 651767, 651915, 652062, 652209, 652356, 652503, 652649, 652796, 652942, 653088, 653233, 653379,
  653524, 653669, 653814, 653959, 654103, 654247, 654391, 654535, 654679, 654822, 654965, 655108, 655251, 655393, 655536, 655678,
  655820, 655962, 656103, 656244, 656386, 656526, 656667, 656808, 656948, 657088, 657228, 657368, 657508, 657647, 657786, 657925,
  658064, 658203, 658341, 658479, 658617, 658755, 658893, 659030, 659167, 659304, 659441, 659578, 659715, 659851, 659987, 660123,
  660259, 660394, 660530, 660665, 660800, 660935, 661070, 661204, 661338, 661473, 661607, 661740, 661874, 662007, 662141, 662274,
  662407, 662539, 662672, 662804, 662936, 663068, 663200, 663332, 663463, 663595, 663726, 663857, 663988, 664118, 664249, 664379,
  664509, 664639, 664769, 664898, 665028, 665157, 665286, 665415, 665544, 665673, 665801, 665929, 666058, 666185, 666313, 666441,
  666568, 666696, 666823, 666950, 667077, 667203, 667330, 667456, 667582, 667708, 667834, 667960, 668085, 668211, 668336, 668461,
  668586, 668711, 668835, 668960, 669084, 669208, 669332, 669456, 669580, 669703, 669827, 669950, 670073, 670196, 670319, 670441,
  670564, 670686, 670808, 670930, 671052, 671174, 671296, 671417, 671538, 671659, 671780, 671901, 672022, 672143, 672263, 672383,
  672503, 672623, 672743, 672863, 672982, 673102, 673221, 673340, 673459, 673578, 673697, 673815, 673934, 674052, 674170, 674288,
  674406, 674524, 674641, 674759, 674876, 674993, 675110, 675227, 675344, 675460, 675577, 675693, 675809, 675926, 676041, 676157,
  676273, 676388, 676504, 676619, 676734, 676849, 676964, 677079, 677194, 677308, 677422, 677537, 677651, 677765, 677878, 677992,
  678106, 678219, 678333, 678446, 678559, 678672, 678784, 678897, 679010, 679122, 679234, 679347, 679459, 679571, 679682, 679794,
  679906, 680017, 680128, 680239, 680351, 680461, 680572, 680683, 680793, 680904, 681014, 681124, 681235, 681344, 681454, 681564,
  681674, 681783, 681892, 682002, 682111, 682220, 682329, 682437, 682546, 682655, 682763, 682871, 682979, 683087, 683195, 683303,
  683411, 683518, 683626, 683733, 683841, 683948, 684055, 684162, 684268, 684375, 684482, 684588, 684694, 684801, 684907, 685013,
  685118, 685224, 685330, 685435, 685541, 685646, 685751, 685857, 685961, 686066, 686171, 686276, 686380, 686485, 686589, 686693,
  686797, 686901, 687005, 687109, 687213, 687316, 687420, 687523, 687626, 687730, 687833, 687936, 688038, 688141, 688244, 688346,
  688449, 688551, 688653, 688755, 688857, 688959, 689061, 689163, 689264, 689366, 689467, 689568, 689669, 689770, 689871, 689972,
  690073, 690174, 690274, 690375, 690475, 690575, 690675, 690776, 690875, 690975, 691075, 691175, 691274, 691374, 691473, 691572,
  691672, 691771, 691870, 691968, 692067, 692166, 692264, 692363, 692461, 692560, 692658, 692756, 692854, 692952, 693049, 693147,
  693245, 693342, 693440, 693537, 693634, 693731, 693828, 693925, 694022, 694119, 694216, 694312, 694409, 694505, 694601, 694698,
  694794, 694890, 694986, 695081, 695177, 695273, 695368, 695464, 695559, 695655, 695750, 695845, 695940, 696035, 696130, 696224,
  696319, 696414, 696508, 696602, 696697, 696791, 696885, 696979, 697073, 697167, 697261, 697354, 697448, 697541, 697635, 697728,
  697821, 697915, 698008, 698101, 698193, 698286, 698379, 698472, 698564, 698657, 698749, 698841, 698934, 699026, 699118, 699210,
  699302, 699393, 699485, 699577, 699668, 699760, 699851, 699942, 700033, 700125, 700216, 700307, 700397, 700488, 700579, 700670,
  700760, 700851, 700941, 701031, 701121, 701212, 701302, 701392, 701481, 701571, 701661, 701751, 701840, 701930, 702019, 702108,
  702198, 702287, 702376, 702465, 702554, 702643, 702731, 702820, 702909, 702997, 703086, 703174, 703262, 703351, 703439, 703527,
  703615, 703703, 703791, 703878, 703966, 704054, 704141, 704229, 704316, 704403, 704491, 704578, 704665, 704752, 704839, 704925,
  705012, 705099, 705186, 705272, 705359, 705445, 705531, 705618, 705704, 705790, 705876, 705962, 706048, 706133, 706219, 706305,
  706390, 706476, 706561, 706647, 706732, 706817, 706902, 706987, 707072, 707157, 707242, 707327, 707412, 707496, 707581, 707665,
  707750, 707834, 707918, 708003, 708087, 708171, 708255, 708339, 708423, 708506, 708590, 708674, 708757, 708841, 708924, 709008,
  709091, 709174, 709257, 709340, 709423, 709506, 709589, 709672, 709755, 709838, 709920, 710003, 710085, 710168, 710250, 710332,
  710414, 710497, 710579, 710661, 710743, 710824, 710906, 710988, 711070, 711151, 711233, 711314, 711396, 711477, 711558, 711639,
  711721, 711802, 711883, 711964, 712044, 712125, 712206, 712287, 712367, 712448, 712528, 712609, 712689, 712769, 712850, 712930,
  713010, 713090, 713170, 713250, 713330, 713409, 713489, 713569, 713648, 713728, 713807, 713887, 713966, 714045, 714125, 714204,
  714283, 714362, 714441, 714520, 714598, 714677, 714756, 714835, 714913, 714992, 715070, 715149, 715227, 715305, 715383, 715462,
  715540, 715618, 715696, 715774, 715851, 715929, 716007, 716085, 716162, 716240, 716317, 716395, 716472, 716549, 716627, 716704,
  716781, 716858, 716935, 717012, 717089, 717166, 717242, 717319, 717396, 717472, 717549, 717625, 717702, 717778, 717855, 717931,
  718007, 718083, 718159, 718235, 718311, 718387, 718463, 718539, 718614, 718690, 718766, 718841, 718917, 718992, 719068, 719143,
  719218, 719293, 719369, 719444, 719519, 719594, 719669, 719744, 719818, 719893, 719968, 720042, 720117, 720192, 720266, 720341,
  720415, 720489, 720564, 720638, 720712, 720786, 720860, 720934, 721008, 721082, 721156, 721229, 721303, 721377, 721450, 721524,
  721598, 721671, 721744, 721818, 721891, 721964, 722037, 722111, 722184, 722257, 722330, 722402, 722475, 722548, 722621, 722694,
  722766, 722839, 722911, 722984, 723056, 723129, 723201, 723273, 723346, 723418, 723490, 723562, 723634, 723706, 723778, 723850,
  723921, 723993, 724065, 724137, 724208, 724280, 724351, 724423, 724494, 724566, 724637, 724708, 724779, 724850, 724922, 724993,
  725064, 725134, 725205, 725276, 725347, 725418, 725488, 725559, 725630, 725700, 725771, 725841, 725912, 725982, 726052, 726123,
  726193, 726263, 726333, 726403, 726473, 726543, 726613, 726683, 726753, 726822, 726892, 726962, 727031, 727101, 727170, 727240,
  727309, 727379, 727448, 727517, 727586, 727656, 727725, 727794, 727863, 727932, 728001, 728070, 728139, 728207, 728276, 728345,
  728413, 728482, 728551, 728619, 728688, 728756, 728824, 728893, 728961, 729029, 729097, 729166, 729234, 729302, 729370, 729438,
  729506, 729574, 729641, 729709, 729777, 729845, 729912, 729980, 730047, 730115, 730182, 730250, 730317, 730384, 730452, 730519,
  730586, 730653, 730720, 730787, 730854, 730921, 730988, 731055, 731122, 731189, 731255, 731322, 731389, 731455, 731522, 731588,
  731655, 731721, 731788, 731854, 731920, 731986, 732053, 732119, 732185, 732251, 732317, 732383, 732449, 732515, 732581, 732647,
  732712, 732778, 732844, 732909, 732975, 733041, 733106, 733171, 733237, 733302, 733368, 733433, 733498, 733563, 733629, 733694,
  733759, 733824, 733889, 733954, 734019, 734084, 734148, 734213, 734278, 734343, 734407, 734472, 734536, 734601, 734666, 734730,
  734794, 734859, 734923, 734987, 735052, 735116, 735180, 735244, 735308, 735372, 735436, 735500, 735564, 735628, 735692, 735756,
  735819, 735883, 735947, 736010, 736074, 736138, 736201, 736265, 736328, 736391, 736455, 736518, 736581, 736645, 736708, 736771,
  736834, 736897, 736960, 737023, 737086, 737149, 737212, 737275, 737337, 737400, 737463, 737526, 737588, 737651, 737713, 737776,
  737838, 737901, 737963, 738026, 738088, 738150, 738212, 738275, 738337, 738399, 738461, 738523, 738585, 738647, 738709, 738771,
  738833, 738895, 738956, 739018, 739080, 739142, 739203, 739265, 739326, 739388, 739449, 739511, 739572, 739634, 739695, 739756,
  739817, 739879, 739940, 740001, 740062, 740123, 740184, 740245, 740306, 740367, 740428, 740489, 740550, 740610, 740671, 740732,
  740792, 740853, 740914, 740974, 741035, 741095, 741156, 741216, 741276, 741337, 741397, 741457, 741518, 741578, 741638, 741698,
  741758, 741818, 741878, 741938, 741998, 742058, 742118, 742178, 742237, 742297, 742357, 742417, 742476, 742536, 742595, 742655,
  742714, 742774, 742833, 742893, 742952, 743011, 743071, 743130, 743189, 743248, 743308, 743367, 743426, 743485, 743544, 743603,
  743662, 743721, 743780, 743838, 743897, 743956, 744015, 744073, 744132, 744191, 744249, 744308, 744366, 744425, 744483, 744542,
  744600, 744659, 744717, 744775, 744833, 744892, 744950, 745008, 745066, 745124, 745182, 745240, 745298, 745356, 745414, 745472,
  745530, 745588, 745645, 745703, 745761, 745819, 745876, 745934, 745991, 746049, 746107, 746164, 746221, 746279, 746336, 746394,
  746451, 746508, 746566, 746623, 746680, 746737, 746794, 746851, 746908, 746965, 747022, 747079, 747136, 747193, 747250, 747307,
  747364, 747420, 747477, 747534, 747591, 747647, 747704, 747760, 747817, 747873, 747930, 747986, 748043, 748099, 748156, 748212,
  748268, 748324, 748381, 748437, 748493, 748549, 748605, 748661, 748717, 748773, 748829, 748885, 748941, 748997, 749053, 749109,
  749165, 749220, 749276, 749332, 749387, 749443, 749499, 749554, 749610, 749665, 749721, 749776, 749832, 749887, 749942, 749998,
  750053, 750108, 750163, 750219, 750274, 750329, 750384, 750439, 750494, 750549, 750604, 750659, 750714, 750769, 750824, 750879,
  750934, 750988, 751043, 751098, 751152, 751207, 751262, 751316, 751371, 751425, 751480, 751534, 751589, 751643, 751698, 751752,
  751806, 751861, 751915, 751969, 752023, 752078, 752132, 752186, 752240, 752294, 752348, 752402, 752456, 752510, 752564, 752618,
  752672, 752726, 752779, 752833, 752887, 752941, 752994, 753048, 753102, 753155, 753209, 753262, 753316, 753369, 753423, 753476,
  753530, 753583, 753636, 753690, 753743, 753796, 753849, 753903, 753956, 754009, 754062, 754115, 754168, 754221, 754274, 754327,
  754380, 754433, 754486, 754539, 754592, 754645, 754697, 754750, 754803, 754856, 754908, 754961, 755014, 755066, 755119, 755171,
  755224, 755276, 755329, 755381, 755433, 755486, 755538, 755591, 755643, 755695, 755747, 755799, 755852, 755904, 755956, 756008,
  756060, 756112, 756164, 756216, 756268, 756320, 756372, 756424, 756476, 756528, 756579, 756631, 756683, 756735, 756786, 756838,
  756890, 756941, 756993, 757044, 757096, 757147, 757199, 757250, 757302, 757353, 757405, 757456, 757507, 757558, 757610, 757661,
  757712, 757763, 757815, 757866, 757917, 757968, 758019, 758070, 758121, 758172, 758223, 758274, 758325, 758376, 758426, 758477,
  758528, 758579, 758630, 758680, 758731, 758782, 758832, 758883, 758934, 758984, 759035, 759085, 759136, 759186, 759237, 759287,
  759337, 759388, 759438, 759488, 759539, 759589, 759639, 759689, 759740, 759790, 759840, 759890, 759940, 759990, 760040, 760090
>>
=============================================================================
