------------------------------ MODULE Cosines ------------------------------
(* cos(2 pi k / 15552) for k = 0..3888, in units of 2^-24. 15552 = 2^6 * 3^5. *)
(* SpectrumMC checks the table against the identities of the cosine.          *)
QuarterWave == <<
    16777216, 16777215, 16777211, 16777204, 16777194, 16777182, 16777167, 16777149, 16777128, 16777105, 16777079, 16777050, 16777019, 16776985,
    16776948, 16776908, 16776865, 16776820, 16776772, 16776722, 16776668, 16776612, 16776553, 16776492, 16776427, 16776360, 16776290, 16776218,
    16776143, 16776064, 16775984, 16775900, 16775814, 16775725, 16775633, 16775539, 16775442, 16775342, 16775239, 16775133, 16775025, 16774914,
    16774801, 16774684, 16774565, 16774443, 16774319, 16774191, 16774061, 16773929, 16773793, 16773655, 16773514, 16773370, 16773223, 16773074,
    16772922, 16772768, 16772610, 16772450, 16772287, 16772121, 16771953, 16771782, 16771608, 16771431, 16771252, 16771070, 16770885, 16770698,
    16770507, 16770314, 16770118, 16769920, 16769719, 16769515, 16769308, 16769098, 16768886, 16768671, 16768454, 16768233, 16768010, 16767784,
    16767556, 16767324, 16767090, 16766853, 16766614, 16766371, 16766126, 16765879, 16765628, 16765375, 16765119, 16764860, 16764599, 16764335,
    16764068, 16763798, 16763526, 16763250, 16762973, 16762692, 16762409, 16762122, 16761834, 16761542, 16761248, 16760951, 16760651, 16760349,
    16760043, 16759735, 16759425, 16759111, 16758795, 16758476, 16758154, 16757830, 16757503, 16757173, 16756840, 16756505, 16756167, 16755826,
    16755483, 16755136, 16754787, 16754436, 16754081, 16753724, 16753364, 16753001, 16752636, 16752268, 16751897, 16751523, 16751147, 16750768,
    16750386, 16750002, 16749614, 16749224, 16748832, 16748436, 16748038, 16747637, 16747233, 16746827, 16746418, 16746006, 16745591, 16745174,
    16744754, 16744331, 16743905, 16743477, 16743046, 16742612, 16742176, 16741737, 16741295, 16740850, 16740403, 16739952, 16739500, 16739044,
    16738586, 16738125, 16737661, 16737194, 16736725, 16736253, 16735778, 16735301, 16734821, 16734338, 16733852, 16733364, 16732872, 16732379,
    16731882, 16731383, 16730881, 16730376, 16729868, 16729358, 16728845, 16728329, 16727811, 16727290, 16726766, 16726239, 16725710, 16725178,
    16724643, 16724106, 16723565, 16723022, 16722476, 16721928, 16721377, 16720823, 16720266, 16719707, 16719145, 16718580, 16718012, 16717442,
    16716869, 16716293, 16715715, 16715134, 16714550, 16713963, 16713374, 16712782, 16712187, 16711589, 16710989, 16710386, 16709780, 16709171,
    16708560, 16707946, 16707330, 16706710, 16706088, 16705463, 16704836, 16704205, 16703572, 16702937, 16702298, 16701657, 16701013, 16700366,
    16699717, 16699065, 16698410, 16697752, 16697092, 16696429, 16695763, 16695095, 16694424, 16693750, 16693073, 16692394, 16691712, 16691027,
    16690339, 16689649, 16688956, 16688260, 16687562, 16686861, 16686157, 16685450, 16684741, 16684029, 16683314, 16682597, 16681876, 16681153,
    16680428, 16679699, 16678968, 16678234, 16677498, 16676759, 16676017, 16675272, 16674524, 16673774, 16673021, 16672266, 16671507, 16670746,
    16669983, 16669216, 16668447, 16667675, 16666900, 16666123, 16665343, 16664560, 16663774, 16662986, 16662195, 16661402, 16660605, 16659806,
    16659004, 16658200, 16657392, 16656582, 16655769, 16654954, 16654136, 16653315, 16652491, 16651665, 16650836, 16650004, 16649170, 16648333,
    16647493, 16646650, 16645805, 16644957, 16644106, 16643252, 16642396, 16641537, 16640676, 16639811, 16638944, 16638074, 16637202, 16636327,
    16635449, 16634568, 16633685, 16632799, 16631910, 16631018, 16630124, 16629227, 16628327, 16627425, 16626520, 16625612, 16624702, 16623788,
    16622872, 16621954, 16621032, 16620108, 16619181, 16618252, 16617320, 16616385, 16615447, 16614507, 16613564, 16612618, 16611669, 16610718,
    16609764, 16608808, 16607848, 16606886, 16605922, 16604954, 16603984, 16603011, 16602035, 16601057, 16600076, 16599092, 16598106, 16597117,
    16596125, 16595130, 16594133, 16593133, 16592130, 16591125, 16590117, 16589106, 16588093, 16587076, 16586057, 16585036, 16584011, 16582984,
    16581955, 16580922, 16579887, 16578849, 16577808, 16576765, 16575719, 16574670, 16573619, 16572565, 16571508, 16570449, 16569386, 16568321,
    16567254, 16566183, 16565110, 16564035, 16562956, 16561875, 16560791, 16559704, 16558615, 16557523, 16556429, 16555331, 16554231, 16553128,
    16552023, 16550915, 16549804, 16548690, 16547574, 16546455, 16545333, 16544209, 16543082, 16541952, 16540819, 16539684, 16538546, 16537406,
    16536262, 16535116, 16533968, 16532816, 16531662, 16530505, 16529346, 16528184, 16527019, 16525851, 16524681, 16523508, 16522332, 16521154,
    16519973, 16518789, 16517603, 16516414, 16515222, 16514027, 16512830, 16511630, 16510427, 16509222, 16508014, 16506803, 16505590, 16504374,
    16503155, 16501934, 16500709, 16499482, 16498253, 16497021, 16495786, 16494548, 16493308, 16492065, 16490819, 16489570, 16488319, 16487066,
    16485809, 16484550, 16483288, 16482023, 16480756, 16479486, 16478214, 16476938, 16475660, 16474380, 16473096, 16471810, 16470521, 16469230,
    16467936, 16466639, 16465339, 16464037, 16462732, 16461425, 16460114, 16458801, 16457486, 16456168, 16454846, 16453523, 16452196, 16450867,
    16449536, 16448201, 16446864, 16445524, 16444182, 16442837, 16441489, 16440138, 16438785, 16437429, 16436070, 16434709, 16433345, 16431978,
    16430609, 16429237, 16427862, 16426485, 16425105, 16423722, 16422337, 16420949, 16419558, 16418165, 16416768, 16415370, 16413968, 16412564,
    16411157, 16409748, 16408335, 16406920, 16405503, 16404083, 16402660, 16401234, 16399806, 16398375, 16396941, 16395505, 16394066, 16392624,
    16391180, 16389733, 16388283, 16386831, 16385376, 16383918, 16382458, 16380995, 16379529, 16378061, 16376590, 16375116, 16373639, 16372160,
    16370678, 16369194, 16367707, 16366217, 16364725, 16363230, 16361732, 16360231, 16358728, 16357222, 16355714, 16354203, 16352689, 16351172,
    16349653, 16348131, 16346607, 16345080, 16343550, 16342017, 16340482, 16338944, 16337404, 16335861, 16334315, 16332766, 16331215, 16329661,
    16328105, 16326546, 16324984, 16323419, 16321852, 16320283, 16318710, 16317135, 16315557, 16313977, 16312393, 16310808, 16309219, 16307628,
    16306034, 16304438, 16302839, 16301237, 16299633, 16298025, 16296416, 16294803, 16293188, 16291571, 16289950, 16288327, 16286701, 16285073,
    16283442, 16281808, 16280172, 16278533, 16276891, 16275247, 16273600, 16271950, 16270298, 16268643, 16266986, 16265325, 16263662, 16261997,
    16260329, 16258658, 16256984, 16255308, 16253629, 16251948, 16250264, 16248577, 16246888, 16245195, 16243501, 16241803, 16240103, 16238401,
    16236695, 16234987, 16233277, 16231563, 16229847, 16228129, 16226408, 16224684, 16222957, 16221228, 16219496, 16217762, 16216025, 16214285,
    16212542, 16210797, 16209050, 16207299, 16205546, 16203791, 16202032, 16200271, 16198508, 16196742, 16194973, 16193201, 16191427, 16189650,
    16187871, 16186089, 16184304, 16182517, 16180727, 16178934, 16177139, 16175341, 16173540, 16171737, 16169931, 16168123, 16166311, 16164498,
    16162681, 16160862, 16159041, 16157216, 16155389, 16153560, 16151727, 16149893, 16148055, 16146215, 16144372, 16142527, 16140679, 16138828,
    16136975, 16135119, 16133260, 16131399, 16129535, 16127669, 16125800, 16123928, 16122053, 16120176, 16118297, 16116415, 16114530, 16112642,
    16110752, 16108859, 16106964, 16105066, 16103165, 16101262, 16099356, 16097447, 16095536, 16093622, 16091706, 16089787, 16087865, 16085941,
    16084014, 16082084, 16080152, 16078217, 16076280, 16074340, 16072397, 16070452, 16068504, 16066553, 16064600, 16062644, 16060686, 16058725,
    16056761, 16054795, 16052826, 16050854, 16048880, 16046903, 16044924, 16042942, 16040957, 16038970, 16036980, 16034988, 16032993, 16030995,
    16028995, 16026992, 16024986, 16022978, 16020967, 16018954, 16016938, 16014919, 16012898, 16010874, 16008847, 16006818, 16004787, 16002752,
    16000715, 15998676, 15996634, 15994589, 15992541, 15990491, 15988439, 15986384, 15984326, 15982265, 15980202, 15978137, 15976068, 15973998,
    15971924, 15969848, 15967769, 15965688, 15963604, 15961518, 15959429, 15957337, 15955243, 15953146, 15951046, 15948944, 15946839, 15944732,
    15942622, 15940509, 15938394, 15936277, 15934156, 15932033, 15929908, 15927780, 15925649, 15923516, 15921380, 15919241, 15917100, 15914956,
    15912810, 15910661, 15908509, 15906355, 15904199, 15902039, 15899877, 15897713, 15895546, 15893376, 15891204, 15889029, 15886851, 15884671,
    15882489, 15880303, 15878115, 15875925, 15873732, 15871536, 15869338, 15867137, 15864934, 15862728, 15860519, 15858308, 15856094, 15853878,
    15851659, 15849438, 15847214, 15844987, 15842758, 15840526, 15838291, 15836054, 15833815, 15831572, 15829328, 15827080, 15824830, 15822578,
    15820323, 15818065, 15815805, 15813542, 15811276, 15809008, 15806738, 15804465, 15802189, 15799911, 15797630, 15795346, 15793060, 15790771,
    15788480, 15786186, 15783890, 15781591, 15779289, 15776985, 15774679, 15772369, 15770057, 15767743, 15765426, 15763107, 15760784, 15758460,
    15756132, 15753803, 15751470, 15749135, 15746798, 15744457, 15742115, 15739769, 15737422, 15735071, 15732718, 15730363, 15728005, 15725644,
    15723281, 15720915, 15718546, 15716175, 15713802, 15711426, 15709047, 15706666, 15704282, 15701896, 15699507, 15697116, 15694722, 15692325,
    15689926, 15687524, 15685120, 15682713, 15680304, 15677892, 15675477, 15673060, 15670640, 15668218, 15665794, 15663366, 15660936, 15658504,
    15656069, 15653631, 15651191, 15648749, 15646304, 15643856, 15641406, 15638953, 15636497, 15634039, 15631579, 15629116, 15626650, 15624182,
    15621711, 15619238, 15616762, 15614284, 15611803, 15609320, 15606834, 15604345, 15601854, 15599360, 15596864, 15594365, 15591864, 15589360,
    15586854, 15584345, 15581834, 15579320, 15576803, 15574284, 15571762, 15569238, 15566711, 15564182, 15561650, 15559116, 15556579, 15554040,
    15551498, 15548953, 15546406, 15543857, 15541305, 15538750, 15536193, 15533633, 15531071, 15528506, 15525939, 15523369, 15520797, 15518222,
    15515644, 15513064, 15510482, 15507897, 15505309, 15502719, 15500126, 15497531, 15494934, 15492333, 15489731, 15487125, 15484518, 15481907,
    15479294, 15476679, 15474061, 15471441, 15468818, 15466192, 15463564, 15460934, 15458301, 15455665, 15453027, 15450386, 15447743, 15445097,
    15442449, 15439798, 15437145, 15434489, 15431831, 15429170, 15426507, 15423841, 15421173, 15418502, 15415829, 15413153, 15410474, 15407793,
    15405110, 15402424, 15399736, 15397045, 15394351, 15391655, 15388956, 15386255, 15383552, 15380846, 15378137, 15375426, 15372713, 15369997,
    15367278, 15364557, 15361833, 15359107, 15356378, 15353647, 15350914, 15348177, 15345439, 15342698, 15339954, 15337208, 15334459, 15331708,
    15328954, 15326198, 15323439, 15320678, 15317914, 15315148, 15312380, 15309608, 15306835, 15304059, 15301280, 15298499, 15295715, 15292929,
    15290140, 15287349, 15284555, 15281759, 15278960, 15276159, 15273356, 15270550, 15267741, 15264930, 15262116, 15259300, 15256482, 15253660,
    15250837, 15248011, 15245182, 15242351, 15239518, 15236682, 15233843, 15231002, 15228159, 15225313, 15222464, 15219613, 15216760, 15213904,
    15211046, 15208185, 15205322, 15202456, 15199587, 15196717, 15193843, 15190968, 15188089, 15185209, 15182325, 15179440, 15176552, 15173661,
    15170768, 15167872, 15164974, 15162074, 15159171, 15156265, 15153357, 15150447, 15147534, 15144619, 15141701, 15138781, 15135858, 15132933,
    15130005, 15127075, 15124142, 15121207, 15118269, 15115329, 15112387, 15109442, 15106494, 15103544, 15100592, 15097637, 15094680, 15091720,
    15088758, 15085793, 15082826, 15079856, 15076884, 15073909, 15070932, 15067953, 15064971, 15061987, 15059000, 15056010, 15053019, 15050024,
    15047028, 15044029, 15041027, 15038023, 15035016, 15032007, 15028996, 15025982, 15022966, 15019947, 15016926, 15013902, 15010876, 15007847,
    15004816, 15001783, 14998747, 14995709, 14992668, 14989625, 14986579, 14983531, 14980480, 14977427, 14974372, 14971314, 14968253, 14965190,
    14962125, 14959057, 14955987, 14952915, 14949840, 14946762, 14943682, 14940600, 14937515, 14934428, 14931338, 14928246, 14925152, 14922055,
    14918955, 14915853, 14912749, 14909642, 14906533, 14903422, 14900308, 14897191, 14894072, 14890951, 14887827, 14884701, 14881572, 14878441,
    14875308, 14872172, 14869034, 14865893, 14862750, 14859604, 14856456, 14853306, 14850153, 14846997, 14843840, 14840680, 14837517, 14834352,
    14831185, 14828015, 14824843, 14821668, 14818491, 14815311, 14812129, 14808945, 14805758, 14802569, 14799378, 14796184, 14792987, 14789788,
    14786587, 14783383, 14780177, 14776969, 14773758, 14770545, 14767329, 14764111, 14760890, 14757667, 14754442, 14751214, 14747984, 14744751,
    14741516, 14738279, 14735039, 14731797, 14728552, 14725305, 14722056, 14718804, 14715550, 14712293, 14709034, 14705773, 14702509, 14699243,
    14695974, 14692703, 14689430, 14686154, 14682876, 14679595, 14676312, 14673026, 14669739, 14666448, 14663156, 14659861, 14656563, 14653264,
    14649962, 14646657, 14643350, 14640041, 14636729, 14633415, 14630098, 14626779, 14623458, 14620135, 14616808, 14613480, 14610149, 14606816,
    14603480, 14600142, 14596802, 14593459, 14590114, 14586767, 14583417, 14580065, 14576710, 14573353, 14569993, 14566632, 14563268, 14559901,
    14556532, 14553161, 14549787, 14546411, 14543033, 14539652, 14536269, 14532883, 14529495, 14526105, 14522712, 14519317, 14515920, 14512520,
    14509118, 14505714, 14502307, 14498897, 14495486, 14492072, 14488656, 14485237, 14481816, 14478392, 14474967, 14471538, 14468108, 14464675,
    14461240, 14457802, 14454362, 14450920, 14447475, 14444028, 14440579, 14437127, 14433673, 14430217, 14426758, 14423297, 14419833, 14416367,
    14412899, 14409428, 14405955, 14402480, 14399003, 14395523, 14392040, 14388556, 14385068, 14381579, 14378087, 14374593, 14371097, 14367598,
    14364097, 14360594, 14357088, 14353580, 14350069, 14346556, 14343041, 14339524, 14336004, 14332482, 14328957, 14325430, 14321901, 14318369,
    14314836, 14311299, 14307761, 14304220, 14300677, 14297131, 14293583, 14290033, 14286480, 14282925, 14279368, 14275809, 14272247, 14268683,
    14265116, 14261547, 14257976, 14254402, 14250827, 14247248, 14243668, 14240085, 14236500, 14232912, 14229323, 14225731, 14222136, 14218539,
    14214940, 14211339, 14207735, 14204129, 14200521, 14196910, 14193297, 14189682, 14186064, 14182444, 14178822, 14175197, 14171570, 14167941,
    14164310, 14160676, 14157040, 14153401, 14149760, 14146117, 14142472, 14138824, 14135174, 14131522, 14127867, 14124210, 14120551, 14116890,
    14113226, 14109560, 14105891, 14102221, 14098548, 14094872, 14091195, 14087515, 14083832, 14080148, 14076461, 14072772, 14069080, 14065387,
    14061691, 14057992, 14054292, 14050589, 14046884, 14043176, 14039466, 14035754, 14032040, 14028323, 14024604, 14020883, 14017159, 14013434,
    14009706, 14005975, 14002242, 13998508, 13994770, 13991031, 13987289, 13983545, 13979798, 13976050, 13972299, 13968546, 13964790, 13961032,
    13957272, 13953510, 13949745, 13945978, 13942209, 13938438, 13934664, 13930888, 13927110, 13923329, 13919546, 13915761, 13911974, 13908184,
    13904392, 13900598, 13896802, 13893003, 13889202, 13885399, 13881593, 13877786, 13873976, 13870163, 13866349, 13862532, 13858713, 13854891,
    13851068, 13847242, 13843414, 13839583, 13835751, 13831916, 13828079, 13824239, 13820397, 13816554, 13812707, 13808859, 13805008, 13801155,
    13797300, 13793443, 13789583, 13785721, 13781857, 13777990, 13774121, 13770250, 13766377, 13762502, 13758624, 13754744, 13750862, 13746977,
    13743091, 13739202, 13735311, 13731417, 13727522, 13723624, 13719724, 13715821, 13711917, 13708010, 13704101, 13700189, 13696276, 13692360,
    13688442, 13684522, 13680599, 13676674, 13672747, 13668818, 13664887, 13660953, 13657017, 13653079, 13649139, 13645196, 13641251, 13637304,
    13633355, 13629404, 13625450, 13621494, 13617536, 13613576, 13609613, 13605648, 13601681, 13597712, 13593740, 13589767, 13585791, 13581813,
    13577832, 13573850, 13569865, 13565878, 13561889, 13557897, 13553904, 13549908, 13545910, 13541909, 13537907, 13533902, 13529895, 13525886,
    13521875, 13517861, 13513846, 13509828, 13505808, 13501785, 13497761, 13493734, 13489705, 13485674, 13481640, 13477605, 13473567, 13469527,
    13465485, 13461441, 13457394, 13453345, 13449294, 13445241, 13441186, 13437128, 13433069, 13429007, 13424943, 13420876, 13416808, 13412737,
    13408664, 13404589, 13400512, 13396433, 13392351, 13388267, 13384181, 13380093, 13376003, 13371910, 13367815, 13363718, 13359619, 13355518,
    13351415, 13347309, 13343201, 13339091, 13334979, 13330865, 13326748, 13322629, 13318509, 13314386, 13310260, 13306133, 13302003, 13297872,
    13293738, 13289602, 13285463, 13281323, 13277181, 13273036, 13268889, 13264740, 13260589, 13256435, 13252280, 13248122, 13243962, 13239800,
    13235636, 13231469, 13227301, 13223130, 13218957, 13214782, 13210605, 13206426, 13202244, 13198061, 13193875, 13189687, 13185497, 13181305,
    13177110, 13172914, 13168715, 13164514, 13160311, 13156106, 13151899, 13147689, 13143478, 13139264, 13135048, 13130830, 13126610, 13122387,
    13118163, 13113936, 13109708, 13105477, 13101244, 13097009, 13092771, 13088532, 13084290, 13080047, 13075801, 13071553, 13067303, 13063051,
    13058796, 13054540, 13050281, 13046020, 13041757, 13037492, 13033225, 13028956, 13024685, 13020411, 13016136, 13011858, 13007578, 13003296,
    12999012, 12994725, 12990437, 12986147, 12981854, 12977559, 12973262, 12968963, 12964662, 12960359, 12956054, 12951746, 12947437, 12943125,
    12938811, 12934495, 12930177, 12925857, 12921535, 12917211, 12912884, 12908556, 12904225, 12899892, 12895557, 12891220, 12886881, 12882540,
    12878197, 12873852, 12869504, 12865154, 12860803, 12856449, 12852093, 12847735, 12843375, 12839013, 12834649, 12830282, 12825914, 12821543,
    12817171, 12812796, 12808419, 12804040, 12799659, 12795276, 12790891, 12786503, 12782114, 12777723, 12773329, 12768934, 12764536, 12760136,
    12755734, 12751330, 12746924, 12742516, 12738106, 12733694, 12729279, 12724863, 12720444, 12716024, 12711601, 12707176, 12702749, 12698321,
    12693890, 12689457, 12685022, 12680584, 12676145, 12671704, 12667260, 12662815, 12658367, 12653918, 12649466, 12645013, 12640557, 12636099,
    12631639, 12627177, 12622713, 12618247, 12613779, 12609309, 12604836, 12600362, 12595886, 12591407, 12586927, 12582444, 12577960, 12573473,
    12568984, 12564494, 12560001, 12555506, 12551009, 12546510, 12542009, 12537506, 12533001, 12528494, 12523985, 12519473, 12514960, 12510445,
    12505928, 12501408, 12496887, 12492363, 12487838, 12483310, 12478781, 12474249, 12469715, 12465180, 12460642, 12456102, 12451560, 12447016,
    12442471, 12437923, 12433373, 12428821, 12424267, 12419711, 12415153, 12410593, 12406031, 12401467, 12396900, 12392332, 12387762, 12383190,
    12378616, 12374039, 12369461, 12364881, 12360299, 12355714, 12351128, 12346540, 12341949, 12337357, 12332762, 12328166, 12323568, 12318967,
    12314365, 12309760, 12305154, 12300545, 12295935, 12291322, 12286708, 12282091, 12277473, 12272852, 12268230, 12263605, 12258979, 12254350,
    12249720, 12245087, 12240453, 12235816, 12231178, 12226537, 12221895, 12217250, 12212604, 12207955, 12203305, 12198652, 12193998, 12189341,
    12184683, 12180022, 12175360, 12170696, 12166029, 12161361, 12156690, 12152018, 12147344, 12142668, 12137989, 12133309, 12128627, 12123942,
    12119256, 12114568, 12109878, 12105186, 12100492, 12095795, 12091097, 12086397, 12081695, 12076991, 12072285, 12067577, 12062868, 12058156,
    12053442, 12048726, 12044008, 12039289, 12034567, 12029843, 12025118, 12020390, 12015660, 12010929, 12006195, 12001460, 11996723, 11991983,
    11987242, 11982499, 11977753, 11973006, 11968257, 11963506, 11958753, 11953998, 11949241, 11944482, 11939721, 11934958, 11930194, 11925427,
    11920658, 11915888, 11911115, 11906341, 11901564, 11896786, 11892006, 11887223, 11882439, 11877653, 11872865, 11868075, 11863283, 11858489,
    11853694, 11848896, 11844096, 11839295, 11834491, 11829685, 11824878, 11820069, 11815257, 11810444, 11805629, 11800812, 11795993, 11791172,
    11786349, 11781525, 11776698, 11771869, 11767039, 11762207, 11757372, 11752536, 11747698, 11742858, 11738016, 11733172, 11728326, 11723478,
    11718628, 11713777, 11708923, 11704068, 11699210, 11694351, 11689490, 11684627, 11679762, 11674895, 11670026, 11665156, 11660283, 11655409,
    11650532, 11645654, 11640774, 11635892, 11631008, 11626122, 11621234, 11616344, 11611453, 11606559, 11601664, 11596767, 11591867, 11586966,
    11582063, 11577159, 11572252, 11567343, 11562433, 11557520, 11552606, 11547690, 11542772, 11537852, 11532930, 11528007, 11523081, 11518154,
    11513224, 11508293, 11503360, 11498425, 11493488, 11488549, 11483609, 11478666, 11473722, 11468776, 11463828, 11458878, 11453926, 11448972,
    11444017, 11439059, 11434100, 11429139, 11424176, 11419211, 11414244, 11409275, 11404305, 11399332, 11394358, 11389382, 11384404, 11379424,
    11374443, 11369459, 11364474, 11359487, 11354498, 11349507, 11344514, 11339519, 11334523, 11329525, 11324524, 11319522, 11314518, 11309513,
    11304505, 11299496, 11294484, 11289471, 11284456, 11279440, 11274421, 11269401, 11264378, 11259354, 11254328, 11249300, 11244271, 11239239,
    11234206, 11229171, 11224134, 11219095, 11214054, 11209012, 11203967, 11198921, 11193873, 11188824, 11183772, 11178718, 11173663, 11168606,
    11163547, 11158486, 11153424, 11148359, 11143293, 11138225, 11133155, 11128084, 11123010, 11117935, 11112858, 11107779, 11102698, 11097616,
    11092531, 11087445, 11082357, 11077267, 11072176, 11067082, 11061987, 11056890, 11051791, 11046691, 11041588, 11036484, 11031378, 11026270,
    11021161, 11016049, 11010936, 11005821, 11000704, 10995585, 10990465, 10985343, 10980219, 10975093, 10969965, 10964836, 10959705, 10954572,
    10949437, 10944301, 10939162, 10934022, 10928880, 10923737, 10918591, 10913444, 10908295, 10903144, 10897992, 10892837, 10887681, 10882523,
    10877364, 10872202, 10867039, 10861874, 10856707, 10851539, 10846368, 10841196, 10836022, 10830847, 10825669, 10820490, 10815309, 10810127,
    10804942, 10799756, 10794568, 10789378, 10784187, 10778993, 10773798, 10768601, 10763403, 10758203, 10753001, 10747797, 10742591, 10737384,
    10732175, 10726964, 10721751, 10716537, 10711321, 10706103, 10700884, 10695662, 10690439, 10685214, 10679988, 10674760, 10669529, 10664298,
    10659064, 10653829, 10648592, 10643353, 10638113, 10632870, 10627627, 10622381, 10617133, 10611884, 10606633, 10601381, 10596126, 10590870,
    10585613, 10580353, 10575092, 10569829, 10564564, 10559298, 10554029, 10548760, 10543488, 10538215, 10532940, 10527663, 10522384, 10517104,
    10511822, 10506539, 10501253, 10495966, 10490677, 10485387, 10480095, 10474801, 10469505, 10464208, 10458909, 10453608, 10448306, 10443002,
    10437696, 10432388, 10427079, 10421768, 10416455, 10411141, 10405825, 10400507, 10395188, 10389866, 10384544, 10379219, 10373893, 10368565,
    10363235, 10357904, 10352571, 10347236, 10341900, 10336562, 10331222, 10325880, 10320537, 10315193, 10309846, 10304498, 10299148, 10293796,
    10288443, 10283088, 10277732, 10272373, 10267013, 10261652, 10256289, 10250924, 10245557, 10240189, 10234819, 10229447, 10224074, 10218699,
    10213322, 10207944, 10202564, 10197182, 10191799, 10186414, 10181027, 10175639, 10170249, 10164857, 10159464, 10154069, 10148672, 10143274,
    10137874, 10132472, 10127069, 10121664, 10116258, 10110850, 10105440, 10100028, 10094615, 10089200, 10083784, 10078366, 10072946, 10067525,
    10062102, 10056677, 10051251, 10045823, 10040393, 10034962, 10029529, 10024095, 10018659, 10013221, 10007782, 10002341, 9996898, 9991454, 9986008,
    9980560, 9975111, 9969660, 9964208, 9958754, 9953298, 9947841, 9942382, 9936921, 9931459, 9925995, 9920530, 9915063, 9909594, 9904124, 9898652,
    9893178, 9887703, 9882226, 9876748, 9871268, 9865787, 9860303, 9854819, 9849332, 9843844, 9838355, 9832863, 9827370, 9821876, 9816380, 9810882,
    9805383, 9799882, 9794380, 9788876, 9783370, 9777863, 9772354, 9766844, 9761332, 9755818, 9750303, 9744786, 9739268, 9733748, 9728226, 9722703,
    9717178, 9711652, 9706124, 9700595, 9695063, 9689531, 9683997, 9678461, 9672923, 9667384, 9661844, 9656302, 9650758, 9645213, 9639666, 9634117,
    9628567, 9623016, 9617463, 9611908, 9606352, 9600794, 9595234, 9589673, 9584111, 9578547, 9572981, 9567414, 9561845, 9556275, 9550703, 9545129,
    9539554, 9533977, 9528399, 9522820, 9517238, 9511656, 9506071, 9500485, 9494898, 9489309, 9483718, 9478126, 9472532, 9466937, 9461340, 9455742,
    9450142, 9444541, 9438938, 9433333, 9427727, 9422120, 9416511, 9410900, 9405288, 9399674, 9394059, 9388442, 9382824, 9377204, 9371583, 9365960,
    9360335, 9354710, 9349082, 9343453, 9337823, 9332190, 9326557, 9320922, 9315285, 9309647, 9304007, 9298366, 9292724, 9287079, 9281434, 9275786,
    9270138, 9264487, 9258836, 9253182, 9247527, 9241871, 9236213, 9230554, 9224893, 9219231, 9213567, 9207902, 9202235, 9196566, 9190897, 9185225,
    9179552, 9173878, 9168202, 9162525, 9156846, 9151166, 9145484, 9139800, 9134116, 9128429, 9122742, 9117052, 9111362, 9105669, 9099975, 9094280,
    9088584, 9082885, 9077186, 9071485, 9065782, 9060078, 9054372, 9048665, 9042956, 9037246, 9031535, 9025822, 9020108, 9014392, 9008674, 9002955,
    8997235, 8991513, 8985790, 8980065, 8974339, 8968611, 8962882, 8957152, 8951419, 8945686, 8939951, 8934215, 8928477, 8922737, 8916996, 8911254,
    8905510, 8899765, 8894019, 8888271, 8882521, 8876770, 8871018, 8865264, 8859508, 8853752, 8847993, 8842234, 8836473, 8830710, 8824946, 8819181,
    8813414, 8807645, 8801876, 8796105, 8790332, 8784558, 8778782, 8773005, 8767227, 8761447, 8755666, 8749883, 8744099, 8738314, 8732527, 8726739,
    8720949, 8715158, 8709365, 8703571, 8697776, 8691979, 8686180, 8680381, 8674580, 8668777, 8662973, 8657168, 8651361, 8645553, 8639743, 8633932,
    8628120, 8622306, 8616490, 8610674, 8604856, 8599036, 8593215, 8587393, 8581569, 8575744, 8569918, 8564090, 8558261, 8552430, 8546598, 8540765,
    8534930, 8529093, 8523256, 8517417, 8511576, 8505735, 8499891, 8494047, 8488201, 8482353, 8476505, 8470655, 8464803, 8458950, 8453096, 8447240,
    8441383, 8435525, 8429665, 8423804, 8417941, 8412077, 8406212, 8400345, 8394477, 8388608, 8382737, 8376865, 8370992, 8365117, 8359240, 8353363,
    8347484, 8341604, 8335722, 8329839, 8323954, 8318069, 8312182, 8306293, 8300403, 8294512, 8288620, 8282726, 8276830, 8270934, 8265036, 8259137,
    8253236, 8247334, 8241431, 8235526, 8229620, 8223712, 8217804, 8211894, 8205982, 8200070, 8194156, 8188240, 8182323, 8176405, 8170486, 8164565,
    8158643, 8152720, 8146795, 8140869, 8134941, 8129013, 8123083, 8117151, 8111218, 8105284, 8099349, 8093412, 8087474, 8081535, 8075594, 8069652,
    8063709, 8057765, 8051819, 8045871, 8039923, 8033973, 8028022, 8022069, 8016116, 8010161, 8004204, 7998247, 7992287, 7986327, 7980366, 7974403,
    7968438, 7962473, 7956506, 7950538, 7944569, 7938598, 7932626, 7926653, 7920678, 7914702, 7908725, 7902746, 7896767, 7890786, 7884803, 7878820,
    7872835, 7866849, 7860861, 7854872, 7848882, 7842891, 7836898, 7830904, 7824909, 7818913, 7812915, 7806916, 7800916, 7794914, 7788911, 7782907,
    7776902, 7770895, 7764888, 7758878, 7752868, 7746856, 7740843, 7734829, 7728814, 7722797, 7716779, 7710760, 7704739, 7698717, 7692694, 7686670,
    7680644, 7674618, 7668590, 7662560, 7656530, 7650498, 7644465, 7638430, 7632395, 7626358, 7620320, 7614281, 7608240, 7602199, 7596156, 7590111,
    7584066, 7578019, 7571971, 7565922, 7559871, 7553820, 7547767, 7541713, 7535657, 7529601, 7523543, 7517484, 7511424, 7505362, 7499299, 7493235,
    7487170, 7481104, 7475036, 7468967, 7462897, 7456826, 7450754, 7444680, 7438605, 7432529, 7426451, 7420373, 7414293, 7408212, 7402130, 7396047,
    7389962, 7383876, 7377789, 7371701, 7365611, 7359521, 7353429, 7347336, 7341242, 7335146, 7329050, 7322952, 7316853, 7310753, 7304651, 7298549,
    7292445, 7286340, 7280234, 7274126, 7268018, 7261908, 7255797, 7249685, 7243572, 7237457, 7231342, 7225225, 7219107, 7212988, 7206867, 7200746,
    7194623, 7188499, 7182374, 7176248, 7170120, 7163992, 7157862, 7151731, 7145599, 7139466, 7133331, 7127196, 7121059, 7114921, 7108782, 7102642,
    7096500, 7090358, 7084214, 7078069, 7071923, 7065776, 7059628, 7053478, 7047328, 7041176, 7035023, 7028869, 7022714, 7016557, 7010400, 7004241,
    6998081, 6991920, 6985758, 6979595, 6973431, 6967265, 6961099, 6954931, 6948762, 6942592, 6936421, 6930248, 6924075, 6917900, 6911725, 6905548,
    6899370, 6893191, 6887011, 6880829, 6874647, 6868463, 6862279, 6856093, 6849906, 6843718, 6837529, 6831338, 6825147, 6818954, 6812761, 6806566,
    6800370, 6794173, 6787975, 6781776, 6775576, 6769374, 6763172, 6756968, 6750764, 6744558, 6738351, 6732143, 6725934, 6719723, 6713512, 6707300,
    6701086, 6694872, 6688656, 6682439, 6676221, 6670002, 6663782, 6657561, 6651339, 6645116, 6638891, 6632666, 6626439, 6620212, 6613983, 6607753,
    6601522, 6595290, 6589057, 6582823, 6576588, 6570352, 6564115, 6557876, 6551637, 6545396, 6539155, 6532912, 6526668, 6520423, 6514178, 6507931,
    6501683, 6495434, 6489183, 6482932, 6476680, 6470427, 6464172, 6457917, 6451661, 6445403, 6439145, 6432885, 6426624, 6420363, 6414100, 6407836,
    6401571, 6395305, 6389038, 6382770, 6376501, 6370231, 6363960, 6357688, 6351415, 6345141, 6338865, 6332589, 6326312, 6320034, 6313754, 6307474,
    6301192, 6294910, 6288626, 6282342, 6276056, 6269770, 6263482, 6257193, 6250904, 6244613, 6238321, 6232029, 6225735, 6219440, 6213145, 6206848,
    6200550, 6194251, 6187951, 6181651, 6175349, 6169046, 6162742, 6156437, 6150132, 6143825, 6137517, 6131208, 6124898, 6118587, 6112275, 6105963,
    6099649, 6093334, 6087018, 6080701, 6074383, 6068065, 6061745, 6055424, 6049102, 6042779, 6036456, 6030131, 6023805, 6017479, 6011151, 6004822,
    5998493, 5992162, 5985830, 5979498, 5973164, 5966830, 5960494, 5954158, 5947820, 5941482, 5935142, 5928802, 5922461, 5916118, 5909775, 5903431,
    5897086, 5890740, 5884392, 5878044, 5871695, 5865345, 5858994, 5852642, 5846290, 5839936, 5833581, 5827225, 5820869, 5814511, 5808152, 5801793,
    5795432, 5789071, 5782709, 5776345, 5769981, 5763616, 5757250, 5750883, 5744515, 5738146, 5731776, 5725405, 5719033, 5712661, 5706287, 5699913,
    5693537, 5687161, 5680783, 5674405, 5668026, 5661646, 5655265, 5648883, 5642500, 5636116, 5629731, 5623346, 5616959, 5610572, 5604183, 5597794,
    5591404, 5585013, 5578621, 5572228, 5565834, 5559439, 5553043, 5546647, 5540249, 5533851, 5527451, 5521051, 5514650, 5508248, 5501845, 5495441,
    5489037, 5482631, 5476225, 5469817, 5463409, 5457000, 5450590, 5444179, 5437767, 5431354, 5424941, 5418526, 5412111, 5405695, 5399277, 5392859,
    5386440, 5380021, 5373600, 5367178, 5360756, 5354333, 5347909, 5341484, 5335058, 5328631, 5322203, 5315775, 5309345, 5302915, 5296484, 5290052,
    5283619, 5277185, 5270751, 5264315, 5257879, 5251442, 5245004, 5238565, 5232125, 5225685, 5219243, 5212801, 5206358, 5199914, 5193469, 5187023,
    5180577, 5174129, 5167681, 5161232, 5154782, 5148332, 5141880, 5135428, 5128974, 5122520, 5116065, 5109610, 5103153, 5096695, 5090237, 5083778,
    5077318, 5070857, 5064396, 5057933, 5051470, 5045006, 5038541, 5032076, 5025609, 5019142, 5012674, 5006205, 4999735, 4993264, 4986793, 4980320,
    4973847, 4967374, 4960899, 4954423, 4947947, 4941470, 4934992, 4928513, 4922034, 4915553, 4909072, 4902590, 4896108, 4889624, 4883140, 4876655,
    4870169, 4863682, 4857195, 4850706, 4844217, 4837727, 4831237, 4824745, 4818253, 4811760, 4805266, 4798771, 4792276, 4785780, 4779283, 4772785,
    4766287, 4759787, 4753287, 4746786, 4740285, 4733782, 4727279, 4720775, 4714271, 4707765, 4701259, 4694752, 4688244, 4681735, 4675226, 4668716,
    4662205, 4655694, 4649181, 4642668, 4636154, 4629640, 4623124, 4616608, 4610091, 4603574, 4597055, 4590536, 4584016, 4577496, 4570974, 4564452,
    4557929, 4551406, 4544881, 4538356, 4531830, 4525304, 4518776, 4512248, 4505719, 4499190, 4492660, 4486129, 4479597, 4473064, 4466531, 4459997,
    4453463, 4446927, 4440391, 4433854, 4427317, 4420778, 4414239, 4407700, 4401159, 4394618, 4388076, 4381534, 4374990, 4368446, 4361902, 4355356,
    4348810, 4342263, 4335715, 4329167, 4322618, 4316068, 4309518, 4302967, 4296415, 4289863, 4283309, 4276756, 4270201, 4263646, 4257090, 4250533,
    4243976, 4237417, 4230859, 4224299, 4217739, 4211178, 4204617, 4198054, 4191492, 4184928, 4178364, 4171799, 4165233, 4158667, 4152100, 4145532,
    4138964, 4132395, 4125825, 4119255, 4112684, 4106112, 4099540, 4092967, 4086393, 4079818, 4073243, 4066668, 4060091, 4053514, 4046937, 4040358,
    4033779, 4027199, 4020619, 4014038, 4007456, 4000874, 3994291, 3987708, 3981123, 3974538, 3967953, 3961367, 3954780, 3948192, 3941604, 3935015,
    3928426, 3921836, 3915245, 3908654, 3902062, 3895469, 3888876, 3882282, 3875687, 3869092, 3862496, 3855900, 3849303, 3842705, 3836107, 3829508,
    3822909, 3816308, 3809708, 3803106, 3796504, 3789901, 3783298, 3776694, 3770090, 3763485, 3756879, 3750272, 3743665, 3737058, 3730450, 3723841,
    3717231, 3710621, 3704011, 3697400, 3690788, 3684175, 3677562, 3670949, 3664334, 3657719, 3651104, 3644488, 3637871, 3631254, 3624636, 3618018,
    3611399, 3604779, 3598159, 3591538, 3584917, 3578295, 3571673, 3565050, 3558426, 3551802, 3545177, 3538551, 3531925, 3525299, 3518672, 3512044,
    3505416, 3498787, 3492157, 3485527, 3478897, 3472266, 3465634, 3459002, 3452369, 3445735, 3439101, 3432467, 3425832, 3419196, 3412560, 3405923,
    3399286, 3392648, 3386009, 3379370, 3372731, 3366091, 3359450, 3352809, 3346167, 3339525, 3332882, 3326239, 3319595, 3312950, 3306305, 3299660,
    3293014, 3286367, 3279720, 3273072, 3266424, 3259776, 3253126, 3246476, 3239826, 3233175, 3226524, 3219872, 3213219, 3206566, 3199913, 3193259,
    3186604, 3179949, 3173294, 3166638, 3159981, 3153324, 3146666, 3140008, 3133349, 3126690, 3120031, 3113370, 3106710, 3100048, 3093387, 3086725,
    3080062, 3073399, 3066735, 3060071, 3053406, 3046741, 3040075, 3033409, 3026742, 3020075, 3013407, 3006739, 3000070, 2993401, 2986731, 2980061,
    2973390, 2966719, 2960048, 2953376, 2946703, 2940030, 2933356, 2926682, 2920008, 2913333, 2906658, 2899982, 2893305, 2886628, 2879951, 2873273,
    2866595, 2859916, 2853237, 2846557, 2839877, 2833197, 2826515, 2819834, 2813152, 2806469, 2799787, 2793103, 2786419, 2779735, 2773050, 2766365,
    2759680, 2752993, 2746307, 2739620, 2732933, 2726245, 2719556, 2712868, 2706178, 2699489, 2692799, 2686108, 2679417, 2672726, 2666034, 2659342,
    2652649, 2645956, 2639262, 2632568, 2625874, 2619179, 2612484, 2605788, 2599092, 2592395, 2585698, 2579001, 2572303, 2565605, 2558906, 2552207,
    2545507, 2538807, 2532107, 2525406, 2518705, 2512004, 2505302, 2498599, 2491896, 2485193, 2478490, 2471786, 2465081, 2458376, 2451671, 2444966,
    2438260, 2431553, 2424846, 2418139, 2411431, 2404723, 2398015, 2391306, 2384597, 2377888, 2371178, 2364467, 2357757, 2351045, 2344334, 2337622,
    2330910, 2324197, 2317484, 2310771, 2304057, 2297343, 2290628, 2283913, 2277198, 2270482, 2263766, 2257050, 2250333, 2243616, 2236899, 2230181,
    2223463, 2216744, 2210025, 2203306, 2196586, 2189866, 2183146, 2176425, 2169704, 2162982, 2156261, 2149539, 2142816, 2136093, 2129370, 2122646,
    2115923, 2109198, 2102474, 2095749, 2089024, 2082298, 2075572, 2068846, 2062119, 2055392, 2048665, 2041937, 2035209, 2028481, 2021752, 2015023,
    2008294, 2001564, 1994835, 1988104, 1981374, 1974643, 1967912, 1961180, 1954448, 1947716, 1940983, 1934251, 1927517, 1920784, 1914050, 1907316,
    1900582, 1893847, 1887112, 1880377, 1873641, 1866905, 1860169, 1853432, 1846695, 1839958, 1833221, 1826483, 1819745, 1813007, 1806268, 1799529,
    1792790, 1786050, 1779311, 1772570, 1765830, 1759089, 1752348, 1745607, 1738866, 1732124, 1725382, 1718639, 1711897, 1705154, 1698410, 1691667,
    1684923, 1678179, 1671435, 1664690, 1657945, 1651200, 1644455, 1637709, 1630963, 1624217, 1617470, 1610724, 1603977, 1597229, 1590482, 1583734,
    1576986, 1570238, 1563489, 1556740, 1549991, 1543242, 1536492, 1529743, 1522992, 1516242, 1509492, 1502741, 1495990, 1489238, 1482487, 1475735,
    1468983, 1462231, 1455478, 1448725, 1441972, 1435219, 1428466, 1421712, 1414958, 1408204, 1401450, 1394695, 1387940, 1381185, 1374430, 1367674,
    1360919, 1354163, 1347406, 1340650, 1333893, 1327137, 1320380, 1313622, 1306865, 1300107, 1293349, 1286591, 1279833, 1273074, 1266315, 1259556,
    1252797, 1246038, 1239278, 1232519, 1225759, 1218998, 1212238, 1205478, 1198717, 1191956, 1185195, 1178433, 1171672, 1164910, 1158148, 1151386,
    1144624, 1137861, 1131099, 1124336, 1117573, 1110809, 1104046, 1097282, 1090519, 1083755, 1076991, 1070226, 1063462, 1056697, 1049932, 1043167,
    1036402, 1029637, 1022871, 1016106, 1009340, 1002574, 995808, 989041, 982275, 975508, 968742, 961975, 955207, 948440, 941673, 934905, 928137,
    921370, 914602, 907833, 901065, 894297, 887528, 880759, 873990, 867221, 860452, 853683, 846913, 840144, 833374, 826604, 819834, 813064, 806293,
    799523, 792753, 785982, 779211, 772440, 765669, 758898, 752127, 745355, 738584, 731812, 725040, 718268, 711496, 704724, 697952, 691179, 684407,
    677634, 670862, 664089, 657316, 650543, 643770, 636996, 630223, 623450, 616676, 609902, 603129, 596355, 589581, 582807, 576033, 569258, 562484,
    555710, 548935, 542161, 535386, 528611, 521836, 515061, 508286, 501511, 494736, 487961, 481185, 474410, 467634, 460859, 454083, 447307, 440531,
    433756, 426980, 420204, 413428, 406651, 399875, 393099, 386322, 379546, 372770, 365993, 359216, 352440, 345663, 338886, 332109, 325333, 318556,
    311779, 305002, 298225, 291447, 284670, 277893, 271116, 264338, 257561, 250784, 244006, 237229, 230451, 223674, 216896, 210118, 203341, 196563,
    189785, 183007, 176230, 169452, 162674, 155896, 149118, 142340, 135562, 128784, 122006, 115228, 108450, 101672, 94894, 88116, 81338, 74560, 67782,
    61004, 54225, 47447, 40669, 33891, 27113, 20335, 13556, 6778, 0>>
=============================================================================
