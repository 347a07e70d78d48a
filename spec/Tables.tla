------------------------------- MODULE Tables -------------------------------
(* Generated by tools/gen_tables.py: values of the transcendental functions on the grid k/8,  *)
(* k in -160..160, times 10^8 and rounded; losses times 10^4.                                     *)
EXTENDS Integers

SigmoidSeq == << 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 13, 14, 16, 19, 21, 24, 27, 31, 35, 39, 45, 50, 57, 65, 73, 83, 94, 107, 121, 137, 155, 176, 199, 226, 256, 290, 329, 373, 422, 479, 542, 614, 696, 789, 894, 1013, 1148, 1301, 1474, 1670, 1893, 2144, 2430, 2754, 3120, 3536, 4006, 4540, 5144, 5829, 6605, 7485, 8481, 9610, 10890, 12339, 13982, 15844, 17953, 20343, 23051, 26119, 29596, 33535, 37998, 43056, 48786, 55278, 62633, 70967, 80409, 91105, 103223, 116951, 132502, 150118, 170072, 192673, 218272, 247262, 280093, 317268, 359360, 407014, 460957, 522013, 591107, 669285, 757724, 857749, 970848, 1098694, 1243165, 1406363, 1590639, 1798621, 2033235, 2297737, 2595736, 2931223, 3308598, 3732689, 4208773, 4742587, 5340333, 6008665, 6754669, 7585818, 8509905, 9534946, 10669059, 11920292, 13296424, 14804720, 16451646, 18242552, 20181322, 22270014, 24508501, 26894142, 29421497, 32082130, 34864514, 37754067, 40733340, 43782350, 46879063, 50000000, 53120937, 56217650, 59266660, 62245933, 65135486, 67917870, 70578503, 73105858, 75491499, 77729986, 79818678, 81757448, 83548354, 85195280, 86703576, 88079708, 89330941, 90465054, 91490095, 92414182, 93245331, 93991335, 94659667, 95257413, 95791227, 96267311, 96691402, 97068777, 97404264, 97702263, 97966765, 98201379, 98409361, 98593637, 98756835, 98901306, 99029152, 99142251, 99242276, 99330715, 99408893, 99477987, 99539043, 99592986, 99640640, 99682732, 99719907, 99752738, 99781728, 99807327, 99829928, 99849882, 99867498, 99883049, 99896777, 99908895, 99919591, 99929033, 99937367, 99944722, 99951214, 99956944, 99962002, 99966465, 99970404, 99973881, 99976949, 99979657, 99982047, 99984156, 99986018, 99987661, 99989110, 99990390, 99991519, 99992515, 99993395, 99994171, 99994856, 99995460, 99995994, 99996464, 99996880, 99997246, 99997570, 99997856, 99998107, 99998330, 99998526, 99998699, 99998852, 99998987, 99999106, 99999211, 99999304, 99999386, 99999458, 99999521, 99999578, 99999627, 99999671, 99999710, 99999744, 99999774, 99999801, 99999824, 99999845, 99999863, 99999879, 99999893, 99999906, 99999917, 99999927, 99999935, 99999943, 99999950, 99999955, 99999961, 99999965, 99999969, 99999973, 99999976, 99999979, 99999981, 99999984, 99999986, 99999987, 99999989, 99999990, 99999991, 99999992, 99999993, 99999994, 99999995, 99999995, 99999996, 99999996, 99999997, 99999997, 99999997, 99999998, 99999998, 99999998, 99999998, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 99999999, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000 >>
Sigmoid(k) == SigmoidSeq[k + 161]

SigmoidDSeq == << 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 13, 14, 16, 19, 21, 24, 27, 31, 35, 39, 45, 50, 57, 65, 73, 83, 94, 107, 121, 137, 155, 176, 199, 226, 256, 290, 329, 373, 422, 479, 542, 614, 696, 789, 894, 1013, 1148, 1301, 1474, 1670, 1892, 2144, 2430, 2753, 3120, 3536, 4006, 4540, 5144, 5829, 6605, 7484, 8480, 9609, 10889, 12338, 13980, 15841, 17950, 20339, 23045, 26112, 29587, 33524, 37984, 43037, 48762, 55247, 62594, 70917, 80344, 91022, 103117, 116814, 132327, 149893, 169783, 192302, 217795, 246651, 279308, 316262, 358069, 405357, 458832, 519288, 587613, 664806, 751983, 850391, 961422, 1086623, 1227710, 1386584, 1565338, 1766271, 1991895, 2244941, 2528357, 2845302, 3199130, 3593359, 4031635, 4517666, 5055141, 5647624, 6298414, 7010372, 7785720, 8625794, 9530771, 10499359, 11528475, 12612923, 13745080, 14914645, 16108465, 17310479, 18501835, 19661193, 20765252, 21789499, 22709170, 23500371, 24141290, 24613408, 24902598, 25000000, 24902598, 24613408, 24141290, 23500371, 22709170, 21789499, 20765252, 19661193, 18501835, 17310479, 16108465, 14914645, 13745080, 12612923, 11528475, 10499359, 9530771, 8625794, 7785720, 7010372, 6298414, 5647624, 5055141, 4517666, 4031635, 3593359, 3199130, 2845302, 2528357, 2244941, 1991895, 1766271, 1565338, 1386584, 1227710, 1086623, 961422, 850391, 751983, 664806, 587613, 519288, 458832, 405357, 358069, 316262, 279308, 246651, 217795, 192302, 169783, 149893, 132327, 116814, 103117, 91022, 80344, 70917, 62594, 55247, 48762, 43037, 37984, 33524, 29587, 26112, 23045, 20339, 17950, 15841, 13980, 12338, 10889, 9609, 8480, 7484, 6605, 5829, 5144, 4540, 4006, 3536, 3120, 2753, 2430, 2144, 1892, 1670, 1474, 1301, 1148, 1013, 894, 789, 696, 614, 542, 479, 422, 373, 329, 290, 256, 226, 199, 176, 155, 137, 121, 107, 94, 83, 73, 65, 57, 50, 45, 39, 35, 31, 27, 24, 21, 19, 16, 14, 13, 11, 10, 9, 8, 7, 6, 5, 5, 4, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0 >>
SigmoidD(k) == SigmoidDSeq[k + 161]

TanhSeq == << -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -100000000, -99999999, -99999999, -99999999, -99999999, -99999999, -99999998, -99999998, -99999997, -99999996, -99999995, -99999994, -99999992, -99999989, -99999986, -99999982, -99999977, -99999971, -99999963, -99999952, -99999939, -99999921, -99999899, -99999870, -99999834, -99999786, -99999726, -99999648, -99999548, -99999420, -99999255, -99999043, -99998771, -99998422, -99997974, -99997399, -99996660, -99995711, -99994493, -99992929, -99990920, -99988342, -99985031, -99980780, -99975321, -99968313, -99959315, -99947762, -99932930, -99913889, -99889444, -99858066, -99817790, -99766098, -99699764, -99614653, -99505475, -99365463, -99185972, -98955975, -98661430, -98284503, -97802611, -97187275, -96402758, -95404526, -94137554, -92534623, -90514825, -87982670, -84828364, -80930107, -76159416, -70390560, -63514895, -55459972, -46211716, -35835740, -24491866, -12435300, 0, 12435300, 24491866, 35835740, 46211716, 55459972, 63514895, 70390560, 76159416, 80930107, 84828364, 87982670, 90514825, 92534623, 94137554, 95404526, 96402758, 97187275, 97802611, 98284503, 98661430, 98955975, 99185972, 99365463, 99505475, 99614653, 99699764, 99766098, 99817790, 99858066, 99889444, 99913889, 99932930, 99947762, 99959315, 99968313, 99975321, 99980780, 99985031, 99988342, 99990920, 99992929, 99994493, 99995711, 99996660, 99997399, 99997974, 99998422, 99998771, 99999043, 99999255, 99999420, 99999548, 99999648, 99999726, 99999786, 99999834, 99999870, 99999899, 99999921, 99999939, 99999952, 99999963, 99999971, 99999977, 99999982, 99999986, 99999989, 99999992, 99999994, 99999995, 99999996, 99999997, 99999998, 99999998, 99999999, 99999999, 99999999, 99999999, 99999999, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000, 100000000 >>
Tanh(k) == TanhSeq[k + 161]

TanhDSeq == << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 17, 21, 27, 35, 45, 58, 74, 95, 122, 157, 202, 259, 333, 427, 548, 704, 904, 1161, 1491, 1914, 2458, 3156, 4052, 5203, 6680, 8578, 11014, 14142, 18158, 23315, 29936, 38437, 49352, 63364, 81354, 104449, 134095, 172149, 220989, 283667, 364088, 467257, 599571, 769209, 986604, 1265047, 1621429, 2077150, 2659223, 3401565, 4346492, 5546337, 7065082, 8979764, 11381210, 14373436, 18070664, 22590498, 28041487, 34503178, 41997434, 50451690, 59658581, 69241915, 78644773, 87157998, 94001485, 98453633, 100000000, 98453633, 94001485, 87157998, 78644773, 69241915, 59658581, 50451690, 41997434, 34503178, 28041487, 22590498, 18070664, 14373436, 11381210, 8979764, 7065082, 5546337, 4346492, 3401565, 2659223, 2077150, 1621429, 1265047, 986604, 769209, 599571, 467257, 364088, 283667, 220989, 172149, 134095, 104449, 81354, 63364, 49352, 38437, 29936, 23315, 18158, 14142, 11014, 8578, 6680, 5203, 4052, 3156, 2458, 1914, 1491, 1161, 904, 704, 548, 427, 333, 259, 202, 157, 122, 95, 74, 58, 45, 35, 27, 21, 17, 13, 10, 8, 6, 5, 4, 3, 2, 2, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
TanhD(k) == TanhDSeq[k + 161]

\* e^(-j/8) times 10^4, j in 0..160
ExpNegSeq == << 10000, 8825, 7788, 6873, 6065, 5353, 4724, 4169, 3679, 3247, 2865, 2528, 2231, 1969, 1738, 1534, 1353, 1194, 1054, 930, 821, 724, 639, 564, 498, 439, 388, 342, 302, 266, 235, 208, 183, 162, 143, 126, 111, 98, 87, 76, 67, 59, 52, 46, 41, 36, 32, 28, 25, 22, 19, 17, 15, 13, 12, 10, 9, 8, 7, 6, 6, 5, 4, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
ExpNeg(j) == ExpNegSeq[j + 1]

\* e^(k/8) = ExpDigits(k) * 10^(ExpPower(k) - 7)
ExpDigitsSeq == << 20611536, 23355930, 26465736, 29989608, 33982678, 38507419, 43634623, 49444505, 56027964, 63488001, 71941330, 81520207, 92374497, 10467402, 11861120, 13440410, 15229980, 17257828, 19555681, 22159490, 25109992, 28453348, 32241867, 36534822, 41399377, 46911640, 53157853, 60235738, 68256034, 77344219, 87642482, 99311943, 11253517, 12751906, 14449802, 16373771, 18553914, 21024339, 23823697, 26995785, 30590232, 34663274, 39278635, 44508525, 50434766, 57150077, 64759522, 73382152, 83152872, 94224548, 10677040, 12098671, 13709591, 15535002, 17603463, 19947337, 22603294, 25612888, 29023204, 32887599, 37266532, 42228513, 47851174, 54222484, 61442124, 69623047, 78893248, 89397762, 10130094, 11478900, 13007298, 14739199, 16701701, 18925506, 21445408, 24300831, 27536449, 31202885, 35357501, 40065297, 45399930, 51444860, 58294664, 66056508, 74851830, 84818235, 96111652, 10890877, 12340980, 13984163, 15846133, 17956021, 20346837, 23055987, 26125856, 29604473, 33546263, 38012896, 43074254, 48809524, 55308437, 62672670, 71017439, 80473301, 91188197, 10332976, 11708796, 13267804, 15034392, 17036198, 19304541, 21874911, 24787522, 28087942, 31827808, 36065631, 40867714, 46309187, 52475184, 59462174, 67379470, 76350942, 86516952, 98036550, 11108997, 12588142, 14264234, 16163495, 18315639, 20754338, 23517746, 26649097, 30197383, 34218118, 38774208, 43936934, 49787068, 56416140, 63927861, 72439757, 82084999, 93014489, 10539922, 11943297, 13533528, 15335497, 17377394, 19691168, 22313016, 25283960, 28650480, 32465247, 36787944, 41686202, 47236655, 53526143, 60653066, 68728928, 77880078, 88249690, 10000000, 11331485, 12840254, 14549914, 16487213, 18682460, 21170000, 23988753, 27182818, 30802168, 34903430, 39550767, 44816891, 50784190, 57546027, 65208191, 73890561, 83728975, 94877358, 10751013, 12182494, 13804574, 15642632, 17725424, 20085537, 22759895, 25790340, 29224284, 33115452, 37524723, 42521082, 48182698, 54598150, 61867809, 70105412, 79439840, 90017131, 10200277, 11558428, 13097415, 14841316, 16817414, 19056627, 21593987, 24469193, 27727228, 31419066, 35602466, 40342879, 45714471, 51801282, 58698543, 66514163, 75370421, 85405876, 96777537, 10966332, 12426482, 14081048, 15955918, 18080424, 20487805, 23215724, 26306862, 29809580, 33778679, 38276258, 43372683, 49147688, 55691627, 63106881, 71509465, 81030839, 91819970, 10404566, 11789918, 13359727, 15138554, 17154229, 19438288, 22026466, 24959256, 28282542, 32048319, 36315503, 41150856, 46630028, 52838745, 59874142, 67846291, 76879920, 87116362, 98715771, 11185962, 12675356, 14363060, 16275479, 18442534, 20898129, 23680682, 26833729, 30406598, 34455190, 39042845, 44241339, 50132005, 56807004, 64370769, 72941637, 82653703, 93658916, 10612946, 12026043, 13627292, 15441745, 17497789, 19827593, 22467606, 25459133, 28848977, 32690174, 37042820, 41975014, 47563922, 53896985, 61073285, 69205098, 78419650, 88861105, 10069282, 11409992, 12929215, 14650719, 16601440, 18811896, 21316671, 24154953, 27371147, 31015573, 35145249, 39824784, 45127393, 51136035, 57944719, 65659969, 74402492, 84309069, 95534691, 10825499, 12266897, 13900216, 15751008, 17848230, 20224694, 22917581, 25969022, 29426757, 33344884, 37784703, 42815678, 48516520 >>
ExpDigits(k) == ExpDigitsSeq[k + 161]
ExpPowerSeq == << -9, -9, -9, -9, -9, -9, -9, -9, -9, -9, -9, -9, -9, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -8, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -7, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -6, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -5, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -4, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8 >>
ExpPower(k) == ExpPowerSeq[k + 161]
\* e^n without its fraction, n in 0..20
ExpWholeSeq == << 1, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413, 1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195 >>
ExpWhole(n) == IF n < 0 THEN 0 ELSE ExpWholeSeq[n + 1]

\* -log2(1/q + 0.00001), not below zero
LossTable == << 0, 10000, 15849, 19999, 23219, 25849, 28073, 29999, 31698, 33218, 34593, 35848, 37003, 38072, 39067, 39998, 40872, 41697, 42477, 43216, 43920, 44591, 45232, 45846, 46435, 47001, 47545, 48070, 48576, 49065, 49537, 49995, 50439, 50870, 51288, 51694, 52089, 52474, 52848, 53214, 53570, 53917, 54256, 54588, 54912, 55229, 55539, 55843, 56140, 56431, 56717, 56997, 57272, 57541, 57806, 58065, 58321, 58571, 58818, 59060, 59299, 59533, 59764, 59991 >>
LossOfZero == 166096
=============================================================================
