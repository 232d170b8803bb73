---- MODULE TTab ----
\* Round(1000 * t^2) for the two-sided level alpha (percent); rows are df = 1..120 and infinity.
TSq1 == <<4052181, 98503, 34116, 21198, 16258, 13745, 12246, 11259, 10561, 10044, 9646, 9330, 9074, 8862, 8683, 8531, 8400, 8285, 8185, 8096, 8017, 7945, 7881, 7823, 7770, 7721, 7677, 7636, 7598, 7562, 7530, 7499, 7471, 7444, 7419, 7396, 7373, 7353, 7333, 7314, 7296, 7280, 7264, 7248, 7234, 7220, 7207, 7194, 7182, 7171, 7159, 7149, 7139, 7129, 7119, 7110, 7102, 7093, 7085, 7077, 7070, 7062, 7055, 7048, 7042, 7035, 7029, 7023, 7017, 7011, 7006, 7001, 6995, 6990, 6985, 6981, 6976, 6971, 6967, 6963, 6959, 6954, 6950, 6947, 6943, 6939, 6935, 6932, 6928, 6925, 6922, 6919, 6915, 6912, 6909, 6906, 6904, 6901, 6898, 6895, 6893, 6890, 6888, 6885, 6883, 6880, 6878, 6876, 6873, 6871, 6869, 6867, 6865, 6863, 6861, 6859, 6857, 6855, 6853, 6851, 6635>>
TSq5 == <<161448, 18513, 10128, 7709, 6608, 5987, 5591, 5318, 5117, 4965, 4844, 4747, 4667, 4600, 4543, 4494, 4451, 4414, 4381, 4351, 4325, 4301, 4279, 4260, 4242, 4225, 4210, 4196, 4183, 4171, 4160, 4149, 4139, 4130, 4121, 4113, 4105, 4098, 4091, 4085, 4079, 4073, 4067, 4062, 4057, 4052, 4047, 4043, 4038, 4034, 4030, 4027, 4023, 4020, 4016, 4013, 4010, 4007, 4004, 4001, 3998, 3996, 3993, 3991, 3989, 3986, 3984, 3982, 3980, 3978, 3976, 3974, 3972, 3970, 3968, 3967, 3965, 3963, 3962, 3960, 3959, 3957, 3956, 3955, 3953, 3952, 3951, 3949, 3948, 3947, 3946, 3945, 3943, 3942, 3941, 3940, 3939, 3938, 3937, 3936, 3935, 3934, 3933, 3932, 3932, 3931, 3930, 3929, 3928, 3927, 3927, 3926, 3925, 3924, 3924, 3923, 3922, 3921, 3921, 3920, 3841>>
TSq10 == <<39863, 8526, 5538, 4545, 4060, 3776, 3589, 3458, 3360, 3285, 3225, 3177, 3136, 3102, 3073, 3048, 3026, 3007, 2990, 2975, 2961, 2949, 2937, 2927, 2918, 2909, 2901, 2894, 2887, 2881, 2875, 2869, 2864, 2859, 2855, 2850, 2846, 2842, 2839, 2835, 2832, 2829, 2826, 2823, 2820, 2818, 2815, 2813, 2811, 2809, 2807, 2805, 2803, 2801, 2799, 2797, 2796, 2794, 2793, 2791, 2790, 2788, 2787, 2786, 2784, 2783, 2782, 2781, 2780, 2779, 2778, 2777, 2776, 2775, 2774, 2773, 2772, 2771, 2770, 2769, 2769, 2768, 2767, 2766, 2765, 2765, 2764, 2763, 2763, 2762, 2761, 2761, 2760, 2760, 2759, 2759, 2758, 2757, 2757, 2756, 2756, 2755, 2755, 2754, 2754, 2753, 2753, 2753, 2752, 2752, 2751, 2751, 2750, 2750, 2750, 2749, 2749, 2749, 2748, 2748, 2706>>
TSq20 == <<9472, 3556, 2682, 2351, 2178, 2073, 2002, 1951, 1913, 1883, 1859, 1839, 1823, 1809, 1797, 1787, 1778, 1770, 1763, 1757, 1751, 1746, 1741, 1737, 1733, 1729, 1726, 1723, 1720, 1717, 1715, 1712, 1710, 1708, 1706, 1704, 1703, 1701, 1699, 1698, 1697, 1695, 1694, 1693, 1692, 1691, 1690, 1689, 1688, 1687, 1686, 1685, 1684, 1683, 1683, 1682, 1681, 1680, 1680, 1679, 1679, 1678, 1677, 1677, 1676, 1676, 1675, 1675, 1674, 1674, 1673, 1673, 1673, 1672, 1672, 1671, 1671, 1671, 1670, 1670, 1669, 1669, 1669, 1669, 1668, 1668, 1668, 1667, 1667, 1667, 1666, 1666, 1666, 1666, 1665, 1665, 1665, 1665, 1665, 1664, 1664, 1664, 1664, 1663, 1663, 1663, 1663, 1663, 1662, 1662, 1662, 1662, 1662, 1662, 1661, 1661, 1661, 1661, 1661, 1661, 1642>>
TSq30 == <<3852, 1922, 1562, 1415, 1336, 1286, 1253, 1228, 1209, 1195, 1183, 1173, 1165, 1158, 1152, 1147, 1143, 1139, 1135, 1132, 1129, 1127, 1124, 1122, 1120, 1118, 1117, 1115, 1114, 1112, 1111, 1110, 1109, 1108, 1107, 1106, 1105, 1104, 1103, 1103, 1102, 1101, 1101, 1100, 1099, 1099, 1098, 1098, 1097, 1097, 1096, 1096, 1096, 1095, 1095, 1094, 1094, 1094, 1093, 1093, 1093, 1092, 1092, 1092, 1092, 1091, 1091, 1091, 1091, 1090, 1090, 1090, 1090, 1089, 1089, 1089, 1089, 1089, 1088, 1088, 1088, 1088, 1088, 1088, 1087, 1087, 1087, 1087, 1087, 1087, 1087, 1086, 1086, 1086, 1086, 1086, 1086, 1086, 1086, 1085, 1085, 1085, 1085, 1085, 1085, 1085, 1085, 1085, 1084, 1084, 1084, 1084, 1084, 1084, 1084, 1084, 1084, 1084, 1084, 1084, 1074>>
TSq50 == <<1000, 667, 585, 549, 528, 515, 506, 499, 494, 490, 486, 484, 481, 479, 478, 476, 475, 474, 473, 472, 471, 470, 470, 469, 468, 468, 467, 467, 467, 466, 466, 465, 465, 465, 465, 464, 464, 464, 464, 463, 463, 463, 463, 463, 462, 462, 462, 462, 462, 462, 461, 461, 461, 461, 461, 461, 461, 461, 461, 460, 460, 460, 460, 460, 460, 460, 460, 460, 460, 460, 460, 460, 460, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 459, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 458, 455>>
TSq70 == <<260, 198, 180, 172, 167, 163, 161, 160, 158, 157, 156, 156, 155, 155, 154, 154, 154, 153, 153, 153, 153, 152, 152, 152, 152, 152, 152, 152, 151, 151, 151, 151, 151, 151, 151, 151, 151, 151, 151, 151, 151, 151, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 150, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 149, 148>>
TSq90 == <<25, 20, 19, 18, 17, 17, 17, 17, 17, 17, 17, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16>>
TSq(a) == CASE a = 1 -> TSq1 [] a = 5 -> TSq5 [] a = 10 -> TSq10 [] a = 20 -> TSq20 [] a = 30 -> TSq30 [] a = 50 -> TSq50 [] a = 70 -> TSq70 [] a = 90 -> TSq90
====
