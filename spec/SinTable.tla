---- MODULE SinTable ----
EXTENDS Integers
\* sine at i/4096 turns, i = 0..4096, scaled by 100000 (position i+1); checked by the ASSUMEs of Motion.tla
SinTab == <<
  0, 153, 307, 460, 614, 767, 920, 1074, 1227, 1381, 1534, 1687, 1841, 1994, 2147, 2301, 2454, 2607, 2761, 2914, 3067, 3221, 3374, 3527,
  3681, 3834, 3987, 4141, 4294, 4447, 4600, 4754, 4907, 5060, 5213, 5366, 5520, 5673, 5826, 5979, 6132, 6285, 6438, 6591, 6744, 6897, 7050, 7203,
  7356, 7509, 7662, 7815, 7968, 8121, 8274, 8427, 8580, 8733, 8885, 9038, 9191, 9344, 9496, 9649, 9802, 9954, 10107, 10260, 10412, 10565, 10717, 10870,
  11022, 11175, 11327, 11479, 11632, 11784, 11937, 12089, 12241, 12393, 12545, 12698, 12850, 13002, 13154, 13306, 13458, 13610, 13762, 13914, 14066, 14218, 14370, 14521,
  14673, 14825, 14976, 15128, 15280, 15431, 15583, 15734, 15886, 16037, 16189, 16340, 16491, 16643, 16794, 16945, 17096, 17247, 17398, 17549, 17700, 17851, 18002, 18153,
  18304, 18455, 18606, 18756, 18907, 19057, 19208, 19359, 19509, 19659, 19810, 19960, 20110, 20261, 20411, 20561, 20711, 20861, 21011, 21161, 21311, 21461, 21611, 21760,
  21910, 22060, 22209, 22359, 22508, 22658, 22807, 22957, 23106, 23255, 23404, 23553, 23702, 23851, 24000, 24149, 24298, 24447, 24596, 24744, 24893, 25041, 25190, 25338,
  25487, 25635, 25783, 25931, 26079, 26227, 26375, 26523, 26671, 26819, 26967, 27115, 27262, 27410, 27557, 27705, 27852, 27999, 28146, 28294, 28441, 28588, 28735, 28882,
  29028, 29175, 29322, 29469, 29615, 29762, 29908, 30054, 30201, 30347, 30493, 30639, 30785, 30931, 31077, 31222, 31368, 31514, 31659, 31805, 31950, 32096, 32241, 32386,
  32531, 32676, 32821, 32966, 33111, 33255, 33400, 33545, 33689, 33833, 33978, 34122, 34266, 34410, 34554, 34698, 34842, 34986, 35129, 35273, 35416, 35560, 35703, 35846,
  35990, 36133, 36276, 36418, 36561, 36704, 36847, 36989, 37132, 37274, 37416, 37559, 37701, 37843, 37985, 38127, 38268, 38410, 38552, 38693, 38835, 38976, 39117, 39258,
  39399, 39540, 39681, 39822, 39962, 40103, 40243, 40384, 40524, 40664, 40804, 40944, 41084, 41224, 41364, 41503, 41643, 41782, 41922, 42061, 42200, 42339, 42478, 42617,
  42756, 42894, 43033, 43171, 43309, 43448, 43586, 43724, 43862, 43999, 44137, 44275, 44412, 44550, 44687, 44824, 44961, 45098, 45235, 45372, 45508, 45645, 45781, 45918,
  46054, 46190, 46326, 46462, 46598, 46733, 46869, 47004, 47140, 47275, 47410, 47545, 47680, 47815, 47949, 48084, 48218, 48353, 48487, 48621, 48755, 48889, 49023, 49156,
  49290, 49423, 49557, 49690, 49823, 49956, 50089, 50221, 50354, 50486, 50619, 50751, 50883, 51015, 51147, 51279, 51410, 51542, 51673, 51804, 51936, 52067, 52198, 52328,
  52459, 52590, 52720, 52850, 52980, 53110, 53240, 53370, 53500, 53629, 53759, 53888, 54017, 54146, 54275, 54404, 54532, 54661, 54789, 54918, 55046, 55174, 55302, 55429,
  55557, 55685, 55812, 55939, 56066, 56193, 56320, 56447, 56573, 56700, 56826, 56952, 57078, 57204, 57330, 57455, 57581, 57706, 57831, 57956, 58081, 58206, 58331, 58455,
  58580, 58704, 58828, 58952, 59076, 59200, 59323, 59447, 59570, 59693, 59816, 59939, 60062, 60184, 60307, 60429, 60551, 60673, 60795, 60917, 61038, 61160, 61281, 61402,
  61523, 61644, 61765, 61885, 62006, 62126, 62246, 62366, 62486, 62606, 62725, 62845, 62964, 63083, 63202, 63321, 63439, 63558, 63676, 63794, 63912, 64030, 64148, 64266,
  64383, 64500, 64618, 64735, 64851, 64968, 65085, 65201, 65317, 65433, 65549, 65665, 65781, 65896, 66011, 66127, 66242, 66356, 66471, 66586, 66700, 66814, 66928, 67042,
  67156, 67269, 67383, 67496, 67609, 67722, 67835, 67948, 68060, 68172, 68285, 68397, 68508, 68620, 68732, 68843, 68954, 69065, 69176, 69287, 69397, 69508, 69618, 69728,
  69838, 69947, 70057, 70166, 70275, 70385, 70493, 70602, 70711, 70819, 70927, 71035, 71143, 71251, 71358, 71466, 71573, 71680, 71787, 71894, 72000, 72107, 72213, 72319,
  72425, 72530, 72636, 72741, 72846, 72951, 73056, 73161, 73265, 73370, 73474, 73578, 73682, 73785, 73889, 73992, 74095, 74198, 74301, 74403, 74506, 74608, 74710, 74812,
  74914, 75015, 75117, 75218, 75319, 75419, 75520, 75621, 75721, 75821, 75921, 76021, 76120, 76220, 76319, 76418, 76517, 76615, 76714, 76812, 76910, 77008, 77106, 77204,
  77301, 77398, 77495, 77592, 77689, 77785, 77882, 77978, 78074, 78169, 78265, 78360, 78456, 78551, 78646, 78740, 78835, 78929, 79023, 79117, 79211, 79304, 79398, 79491,
  79584, 79676, 79769, 79861, 79954, 80046, 80138, 80229, 80321, 80412, 80503, 80594, 80685, 80775, 80866, 80956, 81046, 81135, 81225, 81314, 81404, 81493, 81581, 81670,
  81758, 81847, 81935, 82023, 82110, 82198, 82285, 82372, 82459, 82546, 82632, 82718, 82805, 82890, 82976, 83062, 83147, 83232, 83317, 83402, 83486, 83571, 83655, 83739,
  83822, 83906, 83989, 84073, 84155, 84238, 84321, 84403, 84485, 84567, 84649, 84731, 84812, 84893, 84974, 85055, 85136, 85216, 85296, 85376, 85456, 85535, 85615, 85694,
  85773, 85852, 85930, 86009, 86087, 86165, 86242, 86320, 86397, 86474, 86551, 86628, 86705, 86781, 86857, 86933, 87009, 87084, 87160, 87235, 87309, 87384, 87459, 87533,
  87607, 87681, 87755, 87828, 87901, 87974, 88047, 88120, 88192, 88264, 88336, 88408, 88480, 88551, 88622, 88693, 88764, 88835, 88905, 88975, 89045, 89115, 89184, 89253,
  89322, 89391, 89460, 89528, 89597, 89665, 89732, 89800, 89867, 89935, 90002, 90068, 90135, 90201, 90267, 90333, 90399, 90464, 90530, 90595, 90660, 90724, 90789, 90853,
  90917, 90981, 91044, 91107, 91171, 91234, 91296, 91359, 91421, 91483, 91545, 91606, 91668, 91729, 91790, 91851, 91911, 91972, 92032, 92092, 92151, 92211, 92270, 92329,
  92388, 92447, 92505, 92563, 92621, 92679, 92736, 92794, 92851, 92907, 92964, 93021, 93077, 93133, 93188, 93244, 93299, 93354, 93409, 93464, 93518, 93573, 93627, 93680,
  93734, 93787, 93840, 93893, 93946, 93998, 94051, 94103, 94154, 94206, 94257, 94308, 94359, 94410, 94460, 94511, 94561, 94611, 94660, 94709, 94759, 94807, 94856, 94905,
  94953, 95001, 95049, 95096, 95144, 95191, 95238, 95284, 95331, 95377, 95423, 95469, 95514, 95559, 95605, 95649, 95694, 95738, 95783, 95827, 95870, 95914, 95957, 96000,
  96043, 96086, 96128, 96170, 96212, 96254, 96295, 96337, 96378, 96418, 96459, 96499, 96539, 96579, 96619, 96658, 96698, 96737, 96775, 96814, 96852, 96890, 96928, 96966,
  97003, 97040, 97077, 97114, 97150, 97187, 97223, 97258, 97294, 97329, 97364, 97399, 97434, 97468, 97503, 97536, 97570, 97604, 97637, 97670, 97703, 97735, 97768, 97800,
  97832, 97863, 97895, 97926, 97957, 97988, 98018, 98048, 98079, 98108, 98138, 98167, 98196, 98225, 98254, 98282, 98311, 98339, 98366, 98394, 98421, 98448, 98475, 98501,
  98528, 98554, 98580, 98605, 98631, 98656, 98681, 98706, 98730, 98754, 98778, 98802, 98826, 98849, 98872, 98895, 98918, 98940, 98962, 98984, 99006, 99027, 99049, 99070,
  99090, 99111, 99131, 99151, 99171, 99191, 99210, 99229, 99248, 99267, 99285, 99303, 99321, 99339, 99356, 99374, 99391, 99407, 99424, 99440, 99456, 99472, 99488, 99503,
  99518, 99533, 99548, 99563, 99577, 99591, 99604, 99618, 99631, 99644, 99657, 99670, 99682, 99694, 99706, 99718, 99729, 99740, 99751, 99762, 99772, 99783, 99793, 99802,
  99812, 99821, 99830, 99839, 99848, 99856, 99864, 99872, 99880, 99887, 99894, 99901, 99908, 99914, 99920, 99926, 99932, 99938, 99943, 99948, 99953, 99958, 99962, 99966,
  99970, 99974, 99977, 99980, 99983, 99986, 99988, 99990, 99992, 99994, 99996, 99997, 99998, 99999, 100000, 100000, 100000, 100000, 100000, 99999, 99998, 99997, 99996, 99994,
  99992, 99990, 99988, 99986, 99983, 99980, 99977, 99974, 99970, 99966, 99962, 99958, 99953, 99948, 99943, 99938, 99932, 99926, 99920, 99914, 99908, 99901, 99894, 99887,
  99880, 99872, 99864, 99856, 99848, 99839, 99830, 99821, 99812, 99802, 99793, 99783, 99772, 99762, 99751, 99740, 99729, 99718, 99706, 99694, 99682, 99670, 99657, 99644,
  99631, 99618, 99604, 99591, 99577, 99563, 99548, 99533, 99518, 99503, 99488, 99472, 99456, 99440, 99424, 99407, 99391, 99374, 99356, 99339, 99321, 99303, 99285, 99267,
  99248, 99229, 99210, 99191, 99171, 99151, 99131, 99111, 99090, 99070, 99049, 99027, 99006, 98984, 98962, 98940, 98918, 98895, 98872, 98849, 98826, 98802, 98778, 98754,
  98730, 98706, 98681, 98656, 98631, 98605, 98580, 98554, 98528, 98501, 98475, 98448, 98421, 98394, 98366, 98339, 98311, 98282, 98254, 98225, 98196, 98167, 98138, 98108,
  98079, 98048, 98018, 97988, 97957, 97926, 97895, 97863, 97832, 97800, 97768, 97735, 97703, 97670, 97637, 97604, 97570, 97536, 97503, 97468, 97434, 97399, 97364, 97329,
  97294, 97258, 97223, 97187, 97150, 97114, 97077, 97040, 97003, 96966, 96928, 96890, 96852, 96814, 96775, 96737, 96698, 96658, 96619, 96579, 96539, 96499, 96459, 96418,
  96378, 96337, 96295, 96254, 96212, 96170, 96128, 96086, 96043, 96000, 95957, 95914, 95870, 95827, 95783, 95738, 95694, 95649, 95605, 95559, 95514, 95469, 95423, 95377,
  95331, 95284, 95238, 95191, 95144, 95096, 95049, 95001, 94953, 94905, 94856, 94807, 94759, 94709, 94660, 94611, 94561, 94511, 94460, 94410, 94359, 94308, 94257, 94206,
  94154, 94103, 94051, 93998, 93946, 93893, 93840, 93787, 93734, 93680, 93627, 93573, 93518, 93464, 93409, 93354, 93299, 93244, 93188, 93133, 93077, 93021, 92964, 92907,
  92851, 92794, 92736, 92679, 92621, 92563, 92505, 92447, 92388, 92329, 92270, 92211, 92151, 92092, 92032, 91972, 91911, 91851, 91790, 91729, 91668, 91606, 91545, 91483,
  91421, 91359, 91296, 91234, 91171, 91107, 91044, 90981, 90917, 90853, 90789, 90724, 90660, 90595, 90530, 90464, 90399, 90333, 90267, 90201, 90135, 90068, 90002, 89935,
  89867, 89800, 89732, 89665, 89597, 89528, 89460, 89391, 89322, 89253, 89184, 89115, 89045, 88975, 88905, 88835, 88764, 88693, 88622, 88551, 88480, 88408, 88336, 88264,
  88192, 88120, 88047, 87974, 87901, 87828, 87755, 87681, 87607, 87533, 87459, 87384, 87309, 87235, 87160, 87084, 87009, 86933, 86857, 86781, 86705, 86628, 86551, 86474,
  86397, 86320, 86242, 86165, 86087, 86009, 85930, 85852, 85773, 85694, 85615, 85535, 85456, 85376, 85296, 85216, 85136, 85055, 84974, 84893, 84812, 84731, 84649, 84567,
  84485, 84403, 84321, 84238, 84155, 84073, 83989, 83906, 83822, 83739, 83655, 83571, 83486, 83402, 83317, 83232, 83147, 83062, 82976, 82890, 82805, 82718, 82632, 82546,
  82459, 82372, 82285, 82198, 82110, 82023, 81935, 81847, 81758, 81670, 81581, 81493, 81404, 81314, 81225, 81135, 81046, 80956, 80866, 80775, 80685, 80594, 80503, 80412,
  80321, 80229, 80138, 80046, 79954, 79861, 79769, 79676, 79584, 79491, 79398, 79304, 79211, 79117, 79023, 78929, 78835, 78740, 78646, 78551, 78456, 78360, 78265, 78169,
  78074, 77978, 77882, 77785, 77689, 77592, 77495, 77398, 77301, 77204, 77106, 77008, 76910, 76812, 76714, 76615, 76517, 76418, 76319, 76220, 76120, 76021, 75921, 75821,
  75721, 75621, 75520, 75419, 75319, 75218, 75117, 75015, 74914, 74812, 74710, 74608, 74506, 74403, 74301, 74198, 74095, 73992, 73889, 73785, 73682, 73578, 73474, 73370,
  73265, 73161, 73056, 72951, 72846, 72741, 72636, 72530, 72425, 72319, 72213, 72107, 72000, 71894, 71787, 71680, 71573, 71466, 71358, 71251, 71143, 71035, 70927, 70819,
  70711, 70602, 70493, 70385, 70275, 70166, 70057, 69947, 69838, 69728, 69618, 69508, 69397, 69287, 69176, 69065, 68954, 68843, 68732, 68620, 68508, 68397, 68285, 68172,
  68060, 67948, 67835, 67722, 67609, 67496, 67383, 67269, 67156, 67042, 66928, 66814, 66700, 66586, 66471, 66356, 66242, 66127, 66011, 65896, 65781, 65665, 65549, 65433,
  65317, 65201, 65085, 64968, 64851, 64735, 64618, 64500, 64383, 64266, 64148, 64030, 63912, 63794, 63676, 63558, 63439, 63321, 63202, 63083, 62964, 62845, 62725, 62606,
  62486, 62366, 62246, 62126, 62006, 61885, 61765, 61644, 61523, 61402, 61281, 61160, 61038, 60917, 60795, 60673, 60551, 60429, 60307, 60184, 60062, 59939, 59816, 59693,
  59570, 59447, 59323, 59200, 59076, 58952, 58828, 58704, 58580, 58455, 58331, 58206, 58081, 57956, 57831, 57706, 57581, 57455, 57330, 57204, 57078, 56952, 56826, 56700,
  56573, 56447, 56320, 56193, 56066, 55939, 55812, 55685, 55557, 55429, 55302, 55174, 55046, 54918, 54789, 54661, 54532, 54404, 54275, 54146, 54017, 53888, 53759, 53629,
  53500, 53370, 53240, 53110, 52980, 52850, 52720, 52590, 52459, 52328, 52198, 52067, 51936, 51804, 51673, 51542, 51410, 51279, 51147, 51015, 50883, 50751, 50619, 50486,
  50354, 50221, 50089, 49956, 49823, 49690, 49557, 49423, 49290, 49156, 49023, 48889, 48755, 48621, 48487, 48353, 48218, 48084, 47949, 47815, 47680, 47545, 47410, 47275,
  47140, 47004, 46869, 46733, 46598, 46462, 46326, 46190, 46054, 45918, 45781, 45645, 45508, 45372, 45235, 45098, 44961, 44824, 44687, 44550, 44412, 44275, 44137, 43999,
  43862, 43724, 43586, 43448, 43309, 43171, 43033, 42894, 42756, 42617, 42478, 42339, 42200, 42061, 41922, 41782, 41643, 41503, 41364, 41224, 41084, 40944, 40804, 40664,
  40524, 40384, 40243, 40103, 39962, 39822, 39681, 39540, 39399, 39258, 39117, 38976, 38835, 38693, 38552, 38410, 38268, 38127, 37985, 37843, 37701, 37559, 37416, 37274,
  37132, 36989, 36847, 36704, 36561, 36418, 36276, 36133, 35990, 35846, 35703, 35560, 35416, 35273, 35129, 34986, 34842, 34698, 34554, 34410, 34266, 34122, 33978, 33833,
  33689, 33545, 33400, 33255, 33111, 32966, 32821, 32676, 32531, 32386, 32241, 32096, 31950, 31805, 31659, 31514, 31368, 31222, 31077, 30931, 30785, 30639, 30493, 30347,
  30201, 30054, 29908, 29762, 29615, 29469, 29322, 29175, 29028, 28882, 28735, 28588, 28441, 28294, 28146, 27999, 27852, 27705, 27557, 27410, 27262, 27115, 26967, 26819,
  26671, 26523, 26375, 26227, 26079, 25931, 25783, 25635, 25487, 25338, 25190, 25041, 24893, 24744, 24596, 24447, 24298, 24149, 24000, 23851, 23702, 23553, 23404, 23255,
  23106, 22957, 22807, 22658, 22508, 22359, 22209, 22060, 21910, 21760, 21611, 21461, 21311, 21161, 21011, 20861, 20711, 20561, 20411, 20261, 20110, 19960, 19810, 19659,
  19509, 19359, 19208, 19057, 18907, 18756, 18606, 18455, 18304, 18153, 18002, 17851, 17700, 17549, 17398, 17247, 17096, 16945, 16794, 16643, 16491, 16340, 16189, 16037,
  15886, 15734, 15583, 15431, 15280, 15128, 14976, 14825, 14673, 14521, 14370, 14218, 14066, 13914, 13762, 13610, 13458, 13306, 13154, 13002, 12850, 12698, 12545, 12393,
  12241, 12089, 11937, 11784, 11632, 11479, 11327, 11175, 11022, 10870, 10717, 10565, 10412, 10260, 10107, 9954, 9802, 9649, 9496, 9344, 9191, 9038, 8885, 8733,
  8580, 8427, 8274, 8121, 7968, 7815, 7662, 7509, 7356, 7203, 7050, 6897, 6744, 6591, 6438, 6285, 6132, 5979, 5826, 5673, 5520, 5366, 5213, 5060,
  4907, 4754, 4600, 4447, 4294, 4141, 3987, 3834, 3681, 3527, 3374, 3221, 3067, 2914, 2761, 2607, 2454, 2301, 2147, 1994, 1841, 1687, 1534, 1381,
  1227, 1074, 920, 767, 614, 460, 307, 153, 0, -153, -307, -460, -614, -767, -920, -1074, -1227, -1381, -1534, -1687, -1841, -1994, -2147, -2301,
  -2454, -2607, -2761, -2914, -3067, -3221, -3374, -3527, -3681, -3834, -3987, -4141, -4294, -4447, -4600, -4754, -4907, -5060, -5213, -5366, -5520, -5673, -5826, -5979,
  -6132, -6285, -6438, -6591, -6744, -6897, -7050, -7203, -7356, -7509, -7662, -7815, -7968, -8121, -8274, -8427, -8580, -8733, -8885, -9038, -9191, -9344, -9496, -9649,
  -9802, -9954, -10107, -10260, -10412, -10565, -10717, -10870, -11022, -11175, -11327, -11479, -11632, -11784, -11937, -12089, -12241, -12393, -12545, -12698, -12850, -13002, -13154, -13306,
  -13458, -13610, -13762, -13914, -14066, -14218, -14370, -14521, -14673, -14825, -14976, -15128, -15280, -15431, -15583, -15734, -15886, -16037, -16189, -16340, -16491, -16643, -16794, -16945,
  -17096, -17247, -17398, -17549, -17700, -17851, -18002, -18153, -18304, -18455, -18606, -18756, -18907, -19057, -19208, -19359, -19509, -19659, -19810, -19960, -20110, -20261, -20411, -20561,
  -20711, -20861, -21011, -21161, -21311, -21461, -21611, -21760, -21910, -22060, -22209, -22359, -22508, -22658, -22807, -22957, -23106, -23255, -23404, -23553, -23702, -23851, -24000, -24149,
  -24298, -24447, -24596, -24744, -24893, -25041, -25190, -25338, -25487, -25635, -25783, -25931, -26079, -26227, -26375, -26523, -26671, -26819, -26967, -27115, -27262, -27410, -27557, -27705,
  -27852, -27999, -28146, -28294, -28441, -28588, -28735, -28882, -29028, -29175, -29322, -29469, -29615, -29762, -29908, -30054, -30201, -30347, -30493, -30639, -30785, -30931, -31077, -31222,
  -31368, -31514, -31659, -31805, -31950, -32096, -32241, -32386, -32531, -32676, -32821, -32966, -33111, -33255, -33400, -33545, -33689, -33833, -33978, -34122, -34266, -34410, -34554, -34698,
  -34842, -34986, -35129, -35273, -35416, -35560, -35703, -35846, -35990, -36133, -36276, -36418, -36561, -36704, -36847, -36989, -37132, -37274, -37416, -37559, -37701, -37843, -37985, -38127,
  -38268, -38410, -38552, -38693, -38835, -38976, -39117, -39258, -39399, -39540, -39681, -39822, -39962, -40103, -40243, -40384, -40524, -40664, -40804, -40944, -41084, -41224, -41364, -41503,
  -41643, -41782, -41922, -42061, -42200, -42339, -42478, -42617, -42756, -42894, -43033, -43171, -43309, -43448, -43586, -43724, -43862, -43999, -44137, -44275, -44412, -44550, -44687, -44824,
  -44961, -45098, -45235, -45372, -45508, -45645, -45781, -45918, -46054, -46190, -46326, -46462, -46598, -46733, -46869, -47004, -47140, -47275, -47410, -47545, -47680, -47815, -47949, -48084,
  -48218, -48353, -48487, -48621, -48755, -48889, -49023, -49156, -49290, -49423, -49557, -49690, -49823, -49956, -50089, -50221, -50354, -50486, -50619, -50751, -50883, -51015, -51147, -51279,
  -51410, -51542, -51673, -51804, -51936, -52067, -52198, -52328, -52459, -52590, -52720, -52850, -52980, -53110, -53240, -53370, -53500, -53629, -53759, -53888, -54017, -54146, -54275, -54404,
  -54532, -54661, -54789, -54918, -55046, -55174, -55302, -55429, -55557, -55685, -55812, -55939, -56066, -56193, -56320, -56447, -56573, -56700, -56826, -56952, -57078, -57204, -57330, -57455,
  -57581, -57706, -57831, -57956, -58081, -58206, -58331, -58455, -58580, -58704, -58828, -58952, -59076, -59200, -59323, -59447, -59570, -59693, -59816, -59939, -60062, -60184, -60307, -60429,
  -60551, -60673, -60795, -60917, -61038, -61160, -61281, -61402, -61523, -61644, -61765, -61885, -62006, -62126, -62246, -62366, -62486, -62606, -62725, -62845, -62964, -63083, -63202, -63321,
  -63439, -63558, -63676, -63794, -63912, -64030, -64148, -64266, -64383, -64500, -64618, -64735, -64851, -64968, -65085, -65201, -65317, -65433, -65549, -65665, -65781, -65896, -66011, -66127,
  -66242, -66356, -66471, -66586, -66700, -66814, -66928, -67042, -67156, -67269, -67383, -67496, -67609, -67722, -67835, -67948, -68060, -68172, -68285, -68397, -68508, -68620, -68732, -68843,
  -68954, -69065, -69176, -69287, -69397, -69508, -69618, -69728, -69838, -69947, -70057, -70166, -70275, -70385, -70493, -70602, -70711, -70819, -70927, -71035, -71143, -71251, -71358, -71466,
  -71573, -71680, -71787, -71894, -72000, -72107, -72213, -72319, -72425, -72530, -72636, -72741, -72846, -72951, -73056, -73161, -73265, -73370, -73474, -73578, -73682, -73785, -73889, -73992,
  -74095, -74198, -74301, -74403, -74506, -74608, -74710, -74812, -74914, -75015, -75117, -75218, -75319, -75419, -75520, -75621, -75721, -75821, -75921, -76021, -76120, -76220, -76319, -76418,
  -76517, -76615, -76714, -76812, -76910, -77008, -77106, -77204, -77301, -77398, -77495, -77592, -77689, -77785, -77882, -77978, -78074, -78169, -78265, -78360, -78456, -78551, -78646, -78740,
  -78835, -78929, -79023, -79117, -79211, -79304, -79398, -79491, -79584, -79676, -79769, -79861, -79954, -80046, -80138, -80229, -80321, -80412, -80503, -80594, -80685, -80775, -80866, -80956,
  -81046, -81135, -81225, -81314, -81404, -81493, -81581, -81670, -81758, -81847, -81935, -82023, -82110, -82198, -82285, -82372, -82459, -82546, -82632, -82718, -82805, -82890, -82976, -83062,
  -83147, -83232, -83317, -83402, -83486, -83571, -83655, -83739, -83822, -83906, -83989, -84073, -84155, -84238, -84321, -84403, -84485, -84567, -84649, -84731, -84812, -84893, -84974, -85055,
  -85136, -85216, -85296, -85376, -85456, -85535, -85615, -85694, -85773, -85852, -85930, -86009, -86087, -86165, -86242, -86320, -86397, -86474, -86551, -86628, -86705, -86781, -86857, -86933,
  -87009, -87084, -87160, -87235, -87309, -87384, -87459, -87533, -87607, -87681, -87755, -87828, -87901, -87974, -88047, -88120, -88192, -88264, -88336, -88408, -88480, -88551, -88622, -88693,
  -88764, -88835, -88905, -88975, -89045, -89115, -89184, -89253, -89322, -89391, -89460, -89528, -89597, -89665, -89732, -89800, -89867, -89935, -90002, -90068, -90135, -90201, -90267, -90333,
  -90399, -90464, -90530, -90595, -90660, -90724, -90789, -90853, -90917, -90981, -91044, -91107, -91171, -91234, -91296, -91359, -91421, -91483, -91545, -91606, -91668, -91729, -91790, -91851,
  -91911, -91972, -92032, -92092, -92151, -92211, -92270, -92329, -92388, -92447, -92505, -92563, -92621, -92679, -92736, -92794, -92851, -92907, -92964, -93021, -93077, -93133, -93188, -93244,
  -93299, -93354, -93409, -93464, -93518, -93573, -93627, -93680, -93734, -93787, -93840, -93893, -93946, -93998, -94051, -94103, -94154, -94206, -94257, -94308, -94359, -94410, -94460, -94511,
  -94561, -94611, -94660, -94709, -94759, -94807, -94856, -94905, -94953, -95001, -95049, -95096, -95144, -95191, -95238, -95284, -95331, -95377, -95423, -95469, -95514, -95559, -95605, -95649,
  -95694, -95738, -95783, -95827, -95870, -95914, -95957, -96000, -96043, -96086, -96128, -96170, -96212, -96254, -96295, -96337, -96378, -96418, -96459, -96499, -96539, -96579, -96619, -96658,
  -96698, -96737, -96775, -96814, -96852, -96890, -96928, -96966, -97003, -97040, -97077, -97114, -97150, -97187, -97223, -97258, -97294, -97329, -97364, -97399, -97434, -97468, -97503, -97536,
  -97570, -97604, -97637, -97670, -97703, -97735, -97768, -97800, -97832, -97863, -97895, -97926, -97957, -97988, -98018, -98048, -98079, -98108, -98138, -98167, -98196, -98225, -98254, -98282,
  -98311, -98339, -98366, -98394, -98421, -98448, -98475, -98501, -98528, -98554, -98580, -98605, -98631, -98656, -98681, -98706, -98730, -98754, -98778, -98802, -98826, -98849, -98872, -98895,
  -98918, -98940, -98962, -98984, -99006, -99027, -99049, -99070, -99090, -99111, -99131, -99151, -99171, -99191, -99210, -99229, -99248, -99267, -99285, -99303, -99321, -99339, -99356, -99374,
  -99391, -99407, -99424, -99440, -99456, -99472, -99488, -99503, -99518, -99533, -99548, -99563, -99577, -99591, -99604, -99618, -99631, -99644, -99657, -99670, -99682, -99694, -99706, -99718,
  -99729, -99740, -99751, -99762, -99772, -99783, -99793, -99802, -99812, -99821, -99830, -99839, -99848, -99856, -99864, -99872, -99880, -99887, -99894, -99901, -99908, -99914, -99920, -99926,
  -99932, -99938, -99943, -99948, -99953, -99958, -99962, -99966, -99970, -99974, -99977, -99980, -99983, -99986, -99988, -99990, -99992, -99994, -99996, -99997, -99998, -99999, -100000, -100000,
  -100000, -100000, -100000, -99999, -99998, -99997, -99996, -99994, -99992, -99990, -99988, -99986, -99983, -99980, -99977, -99974, -99970, -99966, -99962, -99958, -99953, -99948, -99943, -99938,
  -99932, -99926, -99920, -99914, -99908, -99901, -99894, -99887, -99880, -99872, -99864, -99856, -99848, -99839, -99830, -99821, -99812, -99802, -99793, -99783, -99772, -99762, -99751, -99740,
  -99729, -99718, -99706, -99694, -99682, -99670, -99657, -99644, -99631, -99618, -99604, -99591, -99577, -99563, -99548, -99533, -99518, -99503, -99488, -99472, -99456, -99440, -99424, -99407,
  -99391, -99374, -99356, -99339, -99321, -99303, -99285, -99267, -99248, -99229, -99210, -99191, -99171, -99151, -99131, -99111, -99090, -99070, -99049, -99027, -99006, -98984, -98962, -98940,
  -98918, -98895, -98872, -98849, -98826, -98802, -98778, -98754, -98730, -98706, -98681, -98656, -98631, -98605, -98580, -98554, -98528, -98501, -98475, -98448, -98421, -98394, -98366, -98339,
  -98311, -98282, -98254, -98225, -98196, -98167, -98138, -98108, -98079, -98048, -98018, -97988, -97957, -97926, -97895, -97863, -97832, -97800, -97768, -97735, -97703, -97670, -97637, -97604,
  -97570, -97536, -97503, -97468, -97434, -97399, -97364, -97329, -97294, -97258, -97223, -97187, -97150, -97114, -97077, -97040, -97003, -96966, -96928, -96890, -96852, -96814, -96775, -96737,
  -96698, -96658, -96619, -96579, -96539, -96499, -96459, -96418, -96378, -96337, -96295, -96254, -96212, -96170, -96128, -96086, -96043, -96000, -95957, -95914, -95870, -95827, -95783, -95738,
  -95694, -95649, -95605, -95559, -95514, -95469, -95423, -95377, -95331, -95284, -95238, -95191, -95144, -95096, -95049, -95001, -94953, -94905, -94856, -94807, -94759, -94709, -94660, -94611,
  -94561, -94511, -94460, -94410, -94359, -94308, -94257, -94206, -94154, -94103, -94051, -93998, -93946, -93893, -93840, -93787, -93734, -93680, -93627, -93573, -93518, -93464, -93409, -93354,
  -93299, -93244, -93188, -93133, -93077, -93021, -92964, -92907, -92851, -92794, -92736, -92679, -92621, -92563, -92505, -92447, -92388, -92329, -92270, -92211, -92151, -92092, -92032, -91972,
  -91911, -91851, -91790, -91729, -91668, -91606, -91545, -91483, -91421, -91359, -91296, -91234, -91171, -91107, -91044, -90981, -90917, -90853, -90789, -90724, -90660, -90595, -90530, -90464,
  -90399, -90333, -90267, -90201, -90135, -90068, -90002, -89935, -89867, -89800, -89732, -89665, -89597, -89528, -89460, -89391, -89322, -89253, -89184, -89115, -89045, -88975, -88905, -88835,
  -88764, -88693, -88622, -88551, -88480, -88408, -88336, -88264, -88192, -88120, -88047, -87974, -87901, -87828, -87755, -87681, -87607, -87533, -87459, -87384, -87309, -87235, -87160, -87084,
  -87009, -86933, -86857, -86781, -86705, -86628, -86551, -86474, -86397, -86320, -86242, -86165, -86087, -86009, -85930, -85852, -85773, -85694, -85615, -85535, -85456, -85376, -85296, -85216,
  -85136, -85055, -84974, -84893, -84812, -84731, -84649, -84567, -84485, -84403, -84321, -84238, -84155, -84073, -83989, -83906, -83822, -83739, -83655, -83571, -83486, -83402, -83317, -83232,
  -83147, -83062, -82976, -82890, -82805, -82718, -82632, -82546, -82459, -82372, -82285, -82198, -82110, -82023, -81935, -81847, -81758, -81670, -81581, -81493, -81404, -81314, -81225, -81135,
  -81046, -80956, -80866, -80775, -80685, -80594, -80503, -80412, -80321, -80229, -80138, -80046, -79954, -79861, -79769, -79676, -79584, -79491, -79398, -79304, -79211, -79117, -79023, -78929,
  -78835, -78740, -78646, -78551, -78456, -78360, -78265, -78169, -78074, -77978, -77882, -77785, -77689, -77592, -77495, -77398, -77301, -77204, -77106, -77008, -76910, -76812, -76714, -76615,
  -76517, -76418, -76319, -76220, -76120, -76021, -75921, -75821, -75721, -75621, -75520, -75419, -75319, -75218, -75117, -75015, -74914, -74812, -74710, -74608, -74506, -74403, -74301, -74198,
  -74095, -73992, -73889, -73785, -73682, -73578, -73474, -73370, -73265, -73161, -73056, -72951, -72846, -72741, -72636, -72530, -72425, -72319, -72213, -72107, -72000, -71894, -71787, -71680,
  -71573, -71466, -71358, -71251, -71143, -71035, -70927, -70819, -70711, -70602, -70493, -70385, -70275, -70166, -70057, -69947, -69838, -69728, -69618, -69508, -69397, -69287, -69176, -69065,
  -68954, -68843, -68732, -68620, -68508, -68397, -68285, -68172, -68060, -67948, -67835, -67722, -67609, -67496, -67383, -67269, -67156, -67042, -66928, -66814, -66700, -66586, -66471, -66356,
  -66242, -66127, -66011, -65896, -65781, -65665, -65549, -65433, -65317, -65201, -65085, -64968, -64851, -64735, -64618, -64500, -64383, -64266, -64148, -64030, -63912, -63794, -63676, -63558,
  -63439, -63321, -63202, -63083, -62964, -62845, -62725, -62606, -62486, -62366, -62246, -62126, -62006, -61885, -61765, -61644, -61523, -61402, -61281, -61160, -61038, -60917, -60795, -60673,
  -60551, -60429, -60307, -60184, -60062, -59939, -59816, -59693, -59570, -59447, -59323, -59200, -59076, -58952, -58828, -58704, -58580, -58455, -58331, -58206, -58081, -57956, -57831, -57706,
  -57581, -57455, -57330, -57204, -57078, -56952, -56826, -56700, -56573, -56447, -56320, -56193, -56066, -55939, -55812, -55685, -55557, -55429, -55302, -55174, -55046, -54918, -54789, -54661,
  -54532, -54404, -54275, -54146, -54017, -53888, -53759, -53629, -53500, -53370, -53240, -53110, -52980, -52850, -52720, -52590, -52459, -52328, -52198, -52067, -51936, -51804, -51673, -51542,
  -51410, -51279, -51147, -51015, -50883, -50751, -50619, -50486, -50354, -50221, -50089, -49956, -49823, -49690, -49557, -49423, -49290, -49156, -49023, -48889, -48755, -48621, -48487, -48353,
  -48218, -48084, -47949, -47815, -47680, -47545, -47410, -47275, -47140, -47004, -46869, -46733, -46598, -46462, -46326, -46190, -46054, -45918, -45781, -45645, -45508, -45372, -45235, -45098,
  -44961, -44824, -44687, -44550, -44412, -44275, -44137, -43999, -43862, -43724, -43586, -43448, -43309, -43171, -43033, -42894, -42756, -42617, -42478, -42339, -42200, -42061, -41922, -41782,
  -41643, -41503, -41364, -41224, -41084, -40944, -40804, -40664, -40524, -40384, -40243, -40103, -39962, -39822, -39681, -39540, -39399, -39258, -39117, -38976, -38835, -38693, -38552, -38410,
  -38268, -38127, -37985, -37843, -37701, -37559, -37416, -37274, -37132, -36989, -36847, -36704, -36561, -36418, -36276, -36133, -35990, -35846, -35703, -35560, -35416, -35273, -35129, -34986,
  -34842, -34698, -34554, -34410, -34266, -34122, -33978, -33833, -33689, -33545, -33400, -33255, -33111, -32966, -32821, -32676, -32531, -32386, -32241, -32096, -31950, -31805, -31659, -31514,
  -31368, -31222, -31077, -30931, -30785, -30639, -30493, -30347, -30201, -30054, -29908, -29762, -29615, -29469, -29322, -29175, -29028, -28882, -28735, -28588, -28441, -28294, -28146, -27999,
  -27852, -27705, -27557, -27410, -27262, -27115, -26967, -26819, -26671, -26523, -26375, -26227, -26079, -25931, -25783, -25635, -25487, -25338, -25190, -25041, -24893, -24744, -24596, -24447,
  -24298, -24149, -24000, -23851, -23702, -23553, -23404, -23255, -23106, -22957, -22807, -22658, -22508, -22359, -22209, -22060, -21910, -21760, -21611, -21461, -21311, -21161, -21011, -20861,
  -20711, -20561, -20411, -20261, -20110, -19960, -19810, -19659, -19509, -19359, -19208, -19057, -18907, -18756, -18606, -18455, -18304, -18153, -18002, -17851, -17700, -17549, -17398, -17247,
  -17096, -16945, -16794, -16643, -16491, -16340, -16189, -16037, -15886, -15734, -15583, -15431, -15280, -15128, -14976, -14825, -14673, -14521, -14370, -14218, -14066, -13914, -13762, -13610,
  -13458, -13306, -13154, -13002, -12850, -12698, -12545, -12393, -12241, -12089, -11937, -11784, -11632, -11479, -11327, -11175, -11022, -10870, -10717, -10565, -10412, -10260, -10107, -9954,
  -9802, -9649, -9496, -9344, -9191, -9038, -8885, -8733, -8580, -8427, -8274, -8121, -7968, -7815, -7662, -7509, -7356, -7203, -7050, -6897, -6744, -6591, -6438, -6285,
  -6132, -5979, -5826, -5673, -5520, -5366, -5213, -5060, -4907, -4754, -4600, -4447, -4294, -4141, -3987, -3834, -3681, -3527, -3374, -3221, -3067, -2914, -2761, -2607,
  -2454, -2301, -2147, -1994, -1841, -1687, -1534, -1381, -1227, -1074, -920, -767, -614, -460, -307, -153, 0>>
====
