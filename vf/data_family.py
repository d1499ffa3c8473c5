"""Parameters for which each family has a curve (tools/gen_family.py); reach only."""
Z = {'BN': [-2, -3, 5, 6, 7, -15, -41, -55, 82, -107, 123, -133, 169, 173, 202, -241, 257, -293, 308, -318, 321, 438, -553, 596, -675, 720, -749, 810, 833, -861, 869, 981, 1027, -1079, 1300, -1329, -1351, -1546, -1625, -1785, -1946, 2289, -2473, 2581, -3055, 3198, -3642, -3817, -3955, -4032, 4036, -4116, 4135, -5286, -5287, 5369, -5482, -6175, 6732, -6944, -7010, 7610, -7913, 7949, -8220, -9928, -10859, -11448, 13152, 13826, -14594, 19283, -19881, 23190, 26940, 31651, 34578, -35997, 36125, 43014, -48882, -51908, -52853, -54088, -56311, -62357, -69155, 74703, 90998, 94261, -97532, -101991, -113401, 126426, 149055, 220204, -236616, -287360, -367947, 467471, -471276, -523301, -574505, 616168, -840995, 864416, 896750, -920863, 974432, 1006612, 1130942, -1508048, 1619233, 1775276, 1941927, -3230179, 4114550, -4793428, -5433154, -7666381, 7957255, 8533782, -13591487, -13999358, -16728603, 22362362, -23464863, -25435963, 30157079, -34299246, 53934475, 57676268, -65344903, -67991199, -121010652, 172020680, 249121513, -256287956, -263928717, 265240456, 302629730, 326212705, 358365000, -407590862, -615644847, -700013310, -709925023, 842940992, 915735566, 929103069, -1031508703, 1595645923, 2261055235, -3089102103, -3439116463, -3674330269, -4933625245, -5668586982, 14351259612, 15504685844], 'BLS12': [4, -5, -56, 100, 118, -185, -329, -413, -437, -707, 718, -836, -854, -905, 1195, -1598, -1652, 1660, -1739, 1951, -2135, -2168, -2396, 2521, -2669, -2756, 2839, -2861, 2881, -3320, -3584, -3731, -3752, 3922, 4471, -5039, -5621, 5704, -6860, -10496, -11237, 11734, 12061, 12658, -12908, 13048, -15101, -15959, 20302, 21739, -22493, -25817, 29038, -29648, -31958, -32153, 34369, 34801, 36538, -37952, -38285, 42718, -45023, 63916, -85400, -98894, 102367, -109949, -112412, 116737, -124028, 124795, 128311, 130192, 141601, -142847, -159302, 172414, 197071, -215396, -344945, -351875, -371099, 483253, 502207, 567316, -1129079, -1341371, -1845089, 1922428, 1941592, 2013001, 2082610, -2699774, -3622757, 4327453, 4478629, -4642508, -5099372, -6078452, -6294170, -7596779, 7957756, 9403381, -10768835, -12200231, 12687511, -24692807, -24760268, 26040589, 31545136, 32538484, -37828643, 37904437, 38919490, 59266744, -60665855, -72312317, 92319682, 93532417, -208527593, -223356953, 251580547, 259818952, 382446523, 386219167, 402530998, 491780359, 525714727, 618072931, 725017990, 1346139136, 1389754639, -1563113009, -2191547207, 3146283547, 3152709928, 3543433024, -3746282849, 6590574610], 'BLS24': [49, -68, -110, 175, 259, -332, 661, 799, 1135, -1193, -1253, -1373, -2090, -2528, 2551, 2596, -2777, -3359, -3566, -4751, -5891, 6715, -7475, 7669, -8204, -11240, -11486, 18532, -18560, 23911, -30779, 55048, -62576, -63719, 82684, 106036, -109793, -127841, -137960, 152014, 171055, -213071, 214642, 309793, -343586, -477932, 510481, 946843, 1013650, 1061404, -1081739, -1134299, -1499774, -1525139, 1926565, 2722024, -3394088, -4135190, -5217371, 5876473, -6108512, -11478236, -12553064, -16592474, -16625543, 20915743, 21854713, -23634521, -33396875, -40024244, 42552394, -50626325, 56323117, -58082144, 126718684, -159692693, -184271708, -227152220, -262899584, -264157403], 'KSS16': [-2628, -4044, -4456, 5664, -9212, -10672, -13188, 15524, 16824, 21176, 47876, 71904, 74828, -114756, 190692, 192436, -204248, 259308, -269452, -288776, -595168, -892072, 899264], 'KSS18': [-37, -42, -94, 832, 1725, 2148, 2189, 6128, 6331, -7216, -7573, 8860, 8958, -12566, -13660, 13744, -14144, 14566, -15439, -23281, 23803, -25355, -30696, 30869, -35424, -35717, 39352, 44528, -45080, -48442, 49563, 53553, 56741, 58296, -59257, -61418, -67045, -71374, -71523, 87461, -104972, -107135, -107325, -115873, 119787, -121477, -124530, -160673, 176931, -184916, 193991, 208654, 237283, 247104, 251815, 255653, 260308, -359145, 421177, 459896, -460628, 477499, -535298, 647437, 662992, -967604, 968148, 1226937, -1287163, 1458281, -1480712, 1657211, 1874053, -1993032, -2019369, -2078993, -2081536, 2245578, 3117965, -3352029], 'KSS36': [-5, 21, 107, 576, 1202, -2375, 2559, 3053, 3110, 3419, 3493, 4461, -5108, -5120, -6195, 6602, 8250, -8701, 9404, -9744, 10458, 13862, -15199, 15650, 16620, -17747, -18794, -18968, 21541, -24294, -26038, 26562, 29209, 29575, 31085, 33845, -34743, 41567, 43020, -43271, 45137, -45665, -45946, 50531, 52797, 54266, -58096, -63915, -65145], 'KSS40': [-45455, 84773, 79249, 49553]}
