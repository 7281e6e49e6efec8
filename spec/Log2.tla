---- MODULE Log2 ----
(* Base-two logarithms of positive integers in units of 1/65536, by linear      *)
(* interpolation in a table of log2(1 + i/1024); the error is below one unit.   *)
EXTENDS Integers, Sequences
LOCAL Tab == <<
  0, 92, 184, 277, 369, 461, 552, 644, 736, 827, 919, 1010, 1102, 1193, 1284, 1375,
  1466, 1557, 1648, 1738, 1829, 1919, 2010, 2100, 2190, 2281, 2371, 2461, 2551, 2640, 2730, 2820,
  2909, 2999, 3088, 3178, 3267, 3356, 3445, 3534, 3623, 3712, 3801, 3889, 3978, 4066, 4155, 4243,
  4331, 4419, 4507, 4595, 4683, 4771, 4859, 4947, 5034, 5122, 5209, 5296, 5384, 5471, 5558, 5645,
  5732, 5819, 5906, 5992, 6079, 6165, 6252, 6338, 6425, 6511, 6597, 6683, 6769, 6855, 6941, 7027,
  7112, 7198, 7283, 7369, 7454, 7540, 7625, 7710, 7795, 7880, 7965, 8050, 8134, 8219, 8304, 8388,
  8473, 8557, 8641, 8726, 8810, 8894, 8978, 9062, 9146, 9229, 9313, 9397, 9480, 9564, 9647, 9731,
  9814, 9897, 9980, 10063, 10146, 10229, 10312, 10395, 10477, 10560, 10642, 10725, 10807, 10890, 10972, 11054,
  11136, 11218, 11300, 11382, 11464, 11546, 11627, 11709, 11791, 11872, 11953, 12035, 12116, 12197, 12278, 12359,
  12440, 12521, 12602, 12683, 12764, 12844, 12925, 13005, 13086, 13166, 13246, 13327, 13407, 13487, 13567, 13647,
  13727, 13807, 13886, 13966, 14046, 14125, 14205, 14284, 14363, 14443, 14522, 14601, 14680, 14759, 14838, 14917,
  14996, 15075, 15153, 15232, 15310, 15389, 15467, 15546, 15624, 15702, 15781, 15859, 15937, 16015, 16093, 16170,
  16248, 16326, 16404, 16481, 16559, 16636, 16714, 16791, 16868, 16945, 17023, 17100, 17177, 17254, 17331, 17407,
  17484, 17561, 17637, 17714, 17791, 17867, 17943, 18020, 18096, 18172, 18248, 18325, 18401, 18477, 18552, 18628,
  18704, 18780, 18856, 18931, 19007, 19082, 19158, 19233, 19308, 19384, 19459, 19534, 19609, 19684, 19759, 19834,
  19909, 19983, 20058, 20133, 20207, 20282, 20356, 20431, 20505, 20579, 20654, 20728, 20802, 20876, 20950, 21024,
  21098, 21172, 21245, 21319, 21393, 21466, 21540, 21614, 21687, 21760, 21834, 21907, 21980, 22053, 22126, 22199,
  22272, 22345, 22418, 22491, 22564, 22636, 22709, 22782, 22854, 22927, 22999, 23072, 23144, 23216, 23288, 23360,
  23433, 23505, 23577, 23648, 23720, 23792, 23864, 23936, 24007, 24079, 24150, 24222, 24293, 24365, 24436, 24507,
  24579, 24650, 24721, 24792, 24863, 24934, 25005, 25076, 25146, 25217, 25288, 25359, 25429, 25500, 25570, 25641,
  25711, 25781, 25852, 25922, 25992, 26062, 26132, 26202, 26272, 26342, 26412, 26482, 26551, 26621, 26691, 26760,
  26830, 26899, 26969, 27038, 27108, 27177, 27246, 27315, 27384, 27453, 27523, 27591, 27660, 27729, 27798, 27867,
  27936, 28004, 28073, 28142, 28210, 28279, 28347, 28415, 28484, 28552, 28620, 28689, 28757, 28825, 28893, 28961,
  29029, 29097, 29164, 29232, 29300, 29368, 29435, 29503, 29571, 29638, 29706, 29773, 29840, 29908, 29975, 30042,
  30109, 30176, 30244, 30311, 30378, 30444, 30511, 30578, 30645, 30712, 30778, 30845, 30912, 30978, 31045, 31111,
  31178, 31244, 31310, 31377, 31443, 31509, 31575, 31641, 31707, 31773, 31839, 31905, 31971, 32037, 32103, 32168,
  32234, 32300, 32365, 32431, 32496, 32562, 32627, 32693, 32758, 32823, 32888, 32954, 33019, 33084, 33149, 33214,
  33279, 33344, 33409, 33473, 33538, 33603, 33668, 33732, 33797, 33861, 33926, 33990, 34055, 34119, 34184, 34248,
  34312, 34376, 34441, 34505, 34569, 34633, 34697, 34761, 34825, 34888, 34952, 35016, 35080, 35143, 35207, 35271,
  35334, 35398, 35461, 35525, 35588, 35651, 35715, 35778, 35841, 35904, 35968, 36031, 36094, 36157, 36220, 36283,
  36346, 36408, 36471, 36534, 36597, 36659, 36722, 36785, 36847, 36910, 36972, 37035, 37097, 37159, 37222, 37284,
  37346, 37408, 37470, 37532, 37595, 37657, 37719, 37780, 37842, 37904, 37966, 38028, 38090, 38151, 38213, 38275,
  38336, 38398, 38459, 38521, 38582, 38643, 38705, 38766, 38827, 38888, 38950, 39011, 39072, 39133, 39194, 39255,
  39316, 39377, 39438, 39498, 39559, 39620, 39681, 39741, 39802, 39863, 39923, 39984, 40044, 40105, 40165, 40225,
  40286, 40346, 40406, 40466, 40527, 40587, 40647, 40707, 40767, 40827, 40887, 40947, 41006, 41066, 41126, 41186,
  41246, 41305, 41365, 41424, 41484, 41543, 41603, 41662, 41722, 41781, 41841, 41900, 41959, 42018, 42077, 42137,
  42196, 42255, 42314, 42373, 42432, 42491, 42550, 42609, 42667, 42726, 42785, 42844, 42902, 42961, 43019, 43078,
  43137, 43195, 43253, 43312, 43370, 43429, 43487, 43545, 43603, 43662, 43720, 43778, 43836, 43894, 43952, 44010,
  44068, 44126, 44184, 44242, 44300, 44357, 44415, 44473, 44530, 44588, 44646, 44703, 44761, 44818, 44876, 44933,
  44990, 45048, 45105, 45162, 45220, 45277, 45334, 45391, 45448, 45505, 45562, 45619, 45676, 45733, 45790, 45847,
  45904, 45961, 46018, 46074, 46131, 46188, 46244, 46301, 46357, 46414, 46471, 46527, 46583, 46640, 46696, 46752,
  46809, 46865, 46921, 46977, 47034, 47090, 47146, 47202, 47258, 47314, 47370, 47426, 47482, 47538, 47593, 47649,
  47705, 47761, 47816, 47872, 47928, 47983, 48039, 48094, 48150, 48205, 48261, 48316, 48372, 48427, 48482, 48538,
  48593, 48648, 48703, 48758, 48813, 48869, 48924, 48979, 49034, 49089, 49143, 49198, 49253, 49308, 49363, 49418,
  49472, 49527, 49582, 49636, 49691, 49745, 49800, 49855, 49909, 49963, 50018, 50072, 50127, 50181, 50235, 50289,
  50344, 50398, 50452, 50506, 50560, 50614, 50668, 50722, 50776, 50830, 50884, 50938, 50992, 51046, 51100, 51153,
  51207, 51261, 51315, 51368, 51422, 51475, 51529, 51582, 51636, 51689, 51743, 51796, 51850, 51903, 51956, 52010,
  52063, 52116, 52169, 52222, 52276, 52329, 52382, 52435, 52488, 52541, 52594, 52647, 52700, 52752, 52805, 52858,
  52911, 52964, 53016, 53069, 53122, 53174, 53227, 53279, 53332, 53384, 53437, 53489, 53542, 53594, 53647, 53699,
  53751, 53804, 53856, 53908, 53960, 54012, 54064, 54117, 54169, 54221, 54273, 54325, 54377, 54429, 54481, 54532,
  54584, 54636, 54688, 54740, 54791, 54843, 54895, 54946, 54998, 55050, 55101, 55153, 55204, 55256, 55307, 55359,
  55410, 55461, 55513, 55564, 55615, 55667, 55718, 55769, 55820, 55871, 55922, 55974, 56025, 56076, 56127, 56178,
  56229, 56280, 56330, 56381, 56432, 56483, 56534, 56585, 56635, 56686, 56737, 56787, 56838, 56889, 56939, 56990,
  57040, 57091, 57141, 57192, 57242, 57292, 57343, 57393, 57443, 57494, 57544, 57594, 57644, 57695, 57745, 57795,
  57845, 57895, 57945, 57995, 58045, 58095, 58145, 58195, 58245, 58295, 58344, 58394, 58444, 58494, 58543, 58593,
  58643, 58692, 58742, 58792, 58841, 58891, 58940, 58990, 59039, 59089, 59138, 59187, 59237, 59286, 59335, 59385,
  59434, 59483, 59532, 59582, 59631, 59680, 59729, 59778, 59827, 59876, 59925, 59974, 60023, 60072, 60121, 60170,
  60219, 60267, 60316, 60365, 60414, 60462, 60511, 60560, 60609, 60657, 60706, 60754, 60803, 60851, 60900, 60948,
  60997, 61045, 61094, 61142, 61190, 61239, 61287, 61335, 61384, 61432, 61480, 61528, 61576, 61624, 61672, 61721,
  61769, 61817, 61865, 61913, 61961, 62009, 62056, 62104, 62152, 62200, 62248, 62296, 62343, 62391, 62439, 62487,
  62534, 62582, 62629, 62677, 62725, 62772, 62820, 62867, 62915, 62962, 63010, 63057, 63104, 63152, 63199, 63246,
  63294, 63341, 63388, 63435, 63483, 63530, 63577, 63624, 63671, 63718, 63765, 63812, 63859, 63906, 63953, 64000,
  64047, 64094, 64141, 64188, 64234, 64281, 64328, 64375, 64421, 64468, 64515, 64562, 64608, 64655, 64701, 64748,
  64794, 64841, 64887, 64934, 64980, 65027, 65073, 65120, 65166, 65212, 65259, 65305, 65351, 65397, 65444, 65490,
  65536
>>
LOCAL P2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
  32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216,
  33554432, 67108864, 134217728, 268435456, 536870912, 1073741824 >>

One2 == 65536                        \* the unit: log2(2)

LOCAL Exp(n) == CHOOSE k \in 0..30 : P2[k+1] <= n /\ (k = 30 \/ n < P2[k+2])

Lg(n) ==                             \* log2(n) for n >= 1
  LET k == Exp(n) IN
  IF k <= 10
  THEN k * One2 + Tab[n * P2[11-k] - 1024 + 1]
  ELSE LET d == P2[k-9]              \* 2^(k-10)
           i == (n \div d) - 1024
           r == n % d
       IN k * One2 + Tab[i+1] + (((Tab[i+2] - Tab[i+1]) * r) \div d)
====
