---- MODULE PermuteForms ----
\* index tuples (packed, 3 bits per lane) whose compile-time permute the harness instantiates (generated by harness/gen_bins.py)
PermuteForms == <<512, 3584, 2624, 1664, 2816, 1856, 1544, 2568, 1608, 2120, 2632, 136, 648, 1160, 1672, 2184, 2696, 3208, 3720, 1736, 2760, 264, 776, 1288, 1800, 2312, 2824, 3336, 3848, 1864, 2888, 1928, 2952, 1992, 3016, 4040, 1680, 1232, 2832, 976, 536, 3160, 1688, 2200, 280, 2840, 3352, 3032, 32, 2080, 2144, 1696, 2720, 2336, 2848, 1504, 3688, 1704, 2856, 2920, 4008, 560, 3632, 624, 1712, 1840, 2864, 1392, 1456, 632, 1720, 2872, 513, 1537, 1665, 321, 1857, 1985, 1097, 2633, 1673, 2185, 2825, 3529, 2449, 2649, 3673, 3353, 3929, 353, 1441, 1953, 105, 1129, 3945, 1961, 4009, 3561, 1585, 1137, 2737, 57, 1593, 185, 1721, 3321, 825, 2041, 3065, 2626, 3650, 1666, 1730, 1282, 2818, 3330, 3906, 3082, 1674, 3722, 2826, 3666, 3794, 1938, 1490, 90, 3738, 1434, 1498, 2010, 3234, 3746, 3554, 3242, 1258, 2282, 3882, 1386, 4010, 2354, 3442, 1010, 2106, 3130, 1658, 3194, 1722, 2810, 1978, 3715, 707, 1795, 3331, 835, 2435, 3595, 1675, 2699, 1227, 2827, 3467, 2643, 723, 2771, 851, 2075, 1115, 1691, 3227, 3739, 731, 3355, 611, 2659, 1251, 355, 1379, 1891, 1579, 4011, 3827, 3955, 4019, 2619, 1723, 3259, 3835, 3003, 2564, 132, 196, 1732, 1348, 3972, 1676, 2828, 844, 908, 3980, 1996, 2772, 404, 916, 3988, 92, 3164, 2780, 3420, 924, 1948, 3996, 740, 804, 2340, 4004, 1508, 1580, 2092, 3628, 3692, 3756, 3820, 3884, 3948, 428, 940, 1452, 1964, 2476, 2988, 3500, 4012, 4076, 3700, 820, 2356, 3508, 4020, 636, 1724, 1276, 2876, 3900, 444, 4028, 1532, 3781, 1989, 77, 1677, 3213, 1741, 3789, 1293, 2317, 2829, 1357, 2957, 2197, 29, 1565, 1629, 2205, 2333, 3869, 1437, 1061, 1125, 3941, 3493, 4069, 1069, 3757, 1261, 4013, 2029, 1269, 1845, 3893, 2997, 573, 125, 1725, 2813, 2054, 3590, 1094, 1670, 3718, 1222, 3782, 1798, 1862, 4038, 142, 1678, 2830, 2382, 1998, 2582, 1174, 1686, 2262, 2774, 1366, 2966, 3030, 1054, 3678, 158, 1182, 1694, 2718, 1950, 1702, 1582, 3182, 3694, 1710, 3886, 4014, 494, 1718, 886, 1598, 1662, 190, 702, 1214, 1726, 2238, 2750, 3262, 3774, 1790, 1854, 2366, 382, 1918, 2942, 1982, 3518, 2046, 2567, 583, 1607, 2439, 1103, 3663, 1679, 2831, 1359, 2895, 2071, 3223, 2839, 3863, 1879, 2391, 3031, 1567, 2719, 2783, 3807, 1823, 103, 2663, 2215, 2727, 1831, 687, 2223, 3503, 4015, 1719, 3895, 1399, 2999, 3511, 1527, 191, 1727, 383, 1983>>
====
