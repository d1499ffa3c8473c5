"""Orders whose CM discriminant search is quick (tools/gen_cm.py); reach only."""
PRIME = [463, 463, 389, 463, 307, 293, 463, 269, 467, 509, 419, 499, 487, 487, 683, 571, 853, 587, 587, 607, 853, 659, 599, 821, 557, 673, 947, 2011, 2017, 1109, 1447, 1231, 1931, 1307, 1151, 1831, 1031, 2029, 1447, 1277, 3833, 2749, 2531, 3691, 3271, 2939, 2953, 3391, 3581, 3299, 3559, 2897, 3833, 7669, 4597, 7883, 4861, 6949, 6709, 6521, 6091, 5431, 4099, 5113, 4523, 7451, 9901, 13729, 10789, 9337, 8563, 13763, 14747, 10211, 12889, 10337, 13627, 12149, 23767, 20269, 30269, 30509, 17159, 24809, 21013, 18301, 23167, 17957, 31307, 20201, 16747, 22669, 34019, 54629, 49123, 57947, 53857, 38237, 48907, 44963, 43801, 57089, 45433, 63421, 76289, 102677, 103573, 113567, 130259, 75389, 84089, 114031, 101533, 80783, 129347, 98227, 130099, 119551, 140863, 152777, 216211, 229171, 205397, 256189, 133121, 224993, 250037, 260651, 247553, 214147, 134359, 516233, 274661, 425101, 458599, 378929, 492487, 268993, 264997, 523571, 413719, 481571, 937007, 577177, 759569, 644869, 851659, 603257, 687331, 970903, 782443, 855431, 1012261, 740191, 739397, 776879, 1846379, 1347611, 1130023, 1270879, 1077721, 1815637, 1268899, 1583909, 2048569, 1811851, 1326001, 2404931, 4152377, 3980621, 2592419, 3519601, 3165439, 2724121, 2879411, 2554801, 3696911, 3607921, 2652233, 2915599, 2681893, 5614057, 6899429, 8091059, 4254311, 7792723, 6971659, 7623101, 5569087, 4397737, 8096653, 6682301, 7288763, 7280093, 14651557, 12983533, 10150831, 8854759, 8961791, 13583573, 12671339, 9237331, 8474927, 14317993, 10746809, 16362187, 8871019, 32598121, 18158681, 25199299, 22810561, 16892431, 27661267, 18848131, 18262081, 17767877, 28426441, 31887931, 19055677, 59035393, 53337787, 62839603, 37093079, 37240739, 56548361, 34851749, 82018747, 98338439, 96824113, 116894879, 91569631, 124615429, 127125101, 94884661, 91785797, 153407911, 232921639, 144354283, 166353937, 210360781, 163693631, 153206509, 265408313, 245579827, 153760283, 422847013, 454981259, 473980457, 418707967, 395076013, 520049203, 508166459, 452190617, 518643527, 414872693, 531667109, 463860577, 1028245937, 1067460241, 784409981, 548470369, 1067608141, 971232607, 808462621, 868423373, 605404333, 766996163, 1939635823, 2094611621, 1673066677, 2002188941, 1740529613, 1532850877, 2072288747, 1735923529, 1459647019, 1135680473, 1795962541, 3797284277, 3043575233, 3681743711, 2510511599, 3501217127, 3383622653, 2705332529, 3034927283, 3902649593, 3770654539, 6082018051, 8463321583, 8050041383, 6152363671, 8105876717, 5973882763, 7591454051, 8040294947, 4354997063, 5294558593, 5075191291, 14761227841, 9286690331, 10839556769, 14622235457, 13443703387, 13090220543, 10531007143, 10997603737, 10598695391, 13851259957, 16484173757, 12738268429, 13888795603, 16461960919, 33215835469, 18143772853, 31748168701, 23414645591, 21354664999, 19155641227, 30305942621, 28824643531, 23269142681, 24331248869, 41752316609, 43760315497, 37353994987, 62985607081, 37582760233, 50127504499, 57560865821, 61502515507, 61858057033, 45669415159, 45259396121, 56795128393, 35626459909, 42765241627, 95429729503, 106644102421, 94688636921, 103919573729, 92214683609, 89116952297, 90026698759, 119032159261, 75894113507, 72612577423, 113543552389, 76702801589, 263085749741, 271044867209, 187665020581, 171944331593, 216799311877, 219930780743, 244640133277, 152731775039, 341995045627, 392397865369, 441171067643, 390256624267, 333514216019, 438608909119, 473404153477, 446971001363, 307987647073, 467197038557, 574146335617, 740710942211, 1055972328251, 835867698643, 666649264291, 680573543203, 910583899129, 623536923991, 612722230313, 619525349389, 847097210341, 648206139109, 1133161803659, 2188846799701, 1166987887073, 1770031436647, 1160467236937, 1960521963331, 1769328063031, 1948336546603, 1261986636523, 2040995658307, 3307340106601, 3113532545141, 3369661258147, 4063005417761, 2303347352177, 3548758480411, 3113896197631, 2225574292351, 3507910647557, 2248096231081, 2550740873431, 2954781092111, 6325077951389, 5097266971669, 8194826172329, 6511901448083, 5676007833533, 7672589177119, 5540655520963, 5454423686477, 8258340281363, 5895019725109, 7535635246067, 9028456345553, 15381343132579, 14958122927477, 14158512500981, 10285689751159, 12837585165703, 11310060644383, 12109822631447, 24487170656407, 33802155867661, 28949087042969, 29458803430171, 25227291860759, 31861526645693, 21734983139383, 26732566148999, 32945305822087, 48646767006401, 64940172976787, 50368160912917, 53255693040677, 65781205135003, 47773282899941, 50687327687999, 40516337153713, 36241977758263, 62135210732087, 56121153942143, 102687554803609, 86938621249939, 96438931832779, 107825075580889, 88708813660069, 138022715803943, 132020181185077, 101494400322547, 95563695405947, 81175369104961, 168592693979989, 236197213147549, 148871444141423, 158427254003539, 196035283247369, 221654409346151, 229138285911527, 213248544513769, 254079879401189, 164028388257661, 153580172216557, 171677077447121, 202144563572309, 179863429275451, 463588791058247, 373744720909913, 446674235946811, 494337635056399, 546717580887133, 491317504756159, 317498643552799, 511624105022099, 472209510551809, 400421369909117, 889994831096351, 644570164768667, 833934458728667, 1038485594924149, 880988742898223, 800564529339593, 842206564045493, 851676032012251, 777863551520089, 1730843179459721, 2170000184288213, 1346822678118301, 1751402517822079, 2243708769734959, 1844097163788917, 1215198661393289, 1315286361430583, 1999050441936049, 1543633530109289, 3674495568608569, 2717662912856303, 3989649665486083, 2751978610087279, 3240768118788667, 2944991870480587, 4074031259042873, 2879386603925371, 2631938173173053, 3355022645987587, 5399945561265631, 4607292043356281, 8791749951240071, 5933397990719389, 7906632838018879, 8106583015161887, 5360021906549579, 6754807140035597, 8169281856963109, 4559687063169247, 5226535019344201, 7642151434416271, 16428449491069073, 13519162287453659, 15252537158028217, 9359827526879729, 11566546119549313, 11719544000134549, 11563934034783941, 13537440291221929, 11865008470182187, 11397689785813801, 15264717293463103, 23950340835268327, 35508857403041557, 28807398397998793, 22277665314830251, 21212326583164051, 31055797548872309, 38328881766026549, 60452781101565329, 67794820526323043, 64074192251590673, 43855032818986751, 37501116681450223, 57403272779355079, 49368644614634867, 111424985074545641, 109148240809615309, 135813285844133899, 106208470534448309, 107006757623443459, 92601227040424229, 137034595922462687, 135461273111540381, 94538062087322653, 252020841462717329, 261554102706335503, 272703186012170587, 285664562838612877, 234062245034467873, 223264835528318761, 278250639781422079, 501649760093728067, 354768332036668619, 363114804691251937, 539407850715669883, 337442466820941973, 304238051130150689, 565179046868010461, 340213420226762813, 292987075205745779, 434593414113517363, 662903184063189403, 872024863077570457, 813660920517651341, 741173437981348621, 779130561259938143, 865750497332361233, 826882986820724149, 1534744226719230419, 1703409004837483159, 1426148941279207813, 1605114124616897269, 1845851245202620891, 1197885898696106339, 2058357686207787319, 4541417503594628317, 3529443415485125959, 4251333244179312661, 2617235461782390019, 4451823843019877713, 4321979127273145909, 3405845057739350959, 2529234448510623407, 3541934286450865913, 2778632447871787993, 2706271003368187601, 3301263159489378737, 7046459905578880999, 6424912098622001051, 5077302005222512297, 6400128973292208949, 7037806123804036099, 5527107232630031039, 6648331662220165627, 7849419170627515121, 5264563446291792953, 6289044451456106701, 8294570790173662391, 7976927395185693389, 13674664213963505009, 18436852983815383837, 17057287103430465901, 11325463266047584813, 12728281090037458333, 13464386870099193319, 16155426494959804763, 17991416224217208847, 15984727528303375181, 11334628397985486731, 16695140636617881001, 33950408277671748589, 23339115236406132253, 31387005979692464821, 18597841570414210873, 23251485647459945881, 27833685389362481267, 22076043072768838429, 19039731232515981817, 24630444280313621767, 24461755090849085059, 2780815051615372646681, 3838589900924171189297, 3103389374463399302353, 3357218839824316067119, 3290300197198854283397, 2914642364629244931469, 783748524665215979463439, 729501646631593748538673, 1208155260193120900083461, 796456981844210856215729, 1128447850583492033953277, 694901051775797166575213, 61824948032306309296244945759, 73329240164834577400913496623, 55457502696678574872074018867, 49158487719337592306617092929, 54809079579532192731717589529, 54391782668344441106833546459, 74217623029381785496082733079, 3356122829563435512174876630634147, 3378812932356402032452951817753501, 5097533873350237926874602934631209, 5045340637294408261057395605930533, 4955650971821097462423509743633411, 5105005320228171614995448443685179, 231661144747420684555738893422720178343, 190331910457097486730384971090183137537, 196527634327256041539331243859776219201, 264783345092075985272142519212581273979]
COMPOSITE = [[181], [19, 12], [149, 2], [149, 5], [43, 2, 2, 2], [5, 6], [41, 11], [71, 9], [11, 11, 2], [233, 2], [29, 7], [7, 8], [641], [113, 3], [23, 5, 3], [347, 5], [61, 11], [23, 3], [3, 223], [53, 12], [5, 5, 5, 5], [11, 3], [797], [31, 3], [3, 5, 2, 2, 5], [349, 8], [67, 2, 2, 5], [89, 6], [733], [211, 4], [787], [347, 4], [13, 43, 3], [419, 3], [13, 2, 3, 3, 3, 2], [17, 9], [443, 2, 2, 2], [101, 4], [3, 3, 13, 5, 2, 3], [1093, 5], [1973, 2], [89, 12], [139, 3], [439, 6], [41, 71], [43, 4], [19, 19, 7], [1471, 9], [1723, 3], [2909, 8], [11, 5, 5, 5], [1747, 6], [107, 11, 5], [719, 12], [401, 2, 2, 2, 2], [983, 6], [7, 7], [3119, 2], [47, 151], [127, 9], [7349], [941, 6], [1429, 2, 3], [397, 2], [3167, 3], [1597, 8], [47], [3631, 5], [5347, 3], [773, 4], [367], [8053, 6], [499, 11, 2, 2], [16189, 5], [11, 11, 7], [3863, 9], [163, 181], [3769, 5], [2, 13, 13, 11, 7], [317, 6], [7, 19, 19, 11], [10739, 5], [181], [1877, 5], [419, 13, 2, 2, 2], [3347, 9], [1409, 11, 3], [619, 6], [26681], [31973, 2], [3, 3, 3], [1373, 5], [149], [2711, 3], [151, 7, 7, 7], [1777, 4], [37907, 2], [23567, 6], [115309], [41579, 2], [47], [4561, 4], [5, 41, 7, 7, 7], [2963, 3], [11, 181, 2, 2, 11], [3299, 12], [54779, 2], [1213, 5], [11, 11, 11, 13, 2, 5], [3779, 9], [263, 3, 3, 47, 2], [12323, 6], [2663, 37], [111829, 2], [491, 491], [8693, 3], [1831, 3, 11, 3], [31321, 8], [7, 5, 5, 157, 5], [31573, 9], [1213, 2, 2, 2, 3, 3, 5], [102409, 9], [79, 13, 5], [67427, 9], [96263, 5], [4789, 4], [461], [47513, 3], [1109, 3, 3, 3], [25357, 3], [571, 59, 3, 2], [108643, 9], [281, 281, 2, 2, 2], [54581, 5], [1733, 13, 3, 13], [22697, 9], [613, 613, 2], [12583, 4], [18679, 43], [223103, 8], [6113, 2, 23, 3], [17977, 4], [7541, 59, 2], [12163, 9], [223, 9001], [991979, 4], [3, 6823, 47], [18413, 8], [71, 5, 5, 5, 3, 3, 3, 3], [97547, 4], [85091, 2, 2, 2, 3], [258197, 4], [503], [17041, 5], [97, 269, 19], [38767, 4], [991, 31, 13], [368293, 8], [23, 30307, 5], [40853, 9], [5, 5, 59, 59, 43], [520549, 6], [17, 17, 43, 43, 5], [34259, 3], [2, 2, 2, 28081, 3, 3], [917381, 8], [20899, 5, 5, 5], [131731, 6], [122387, 6], [229, 19, 19, 3, 3, 3, 2], [72077, 3], [29, 167197], [575479, 6], [233, 1567, 19], [110917, 8], [293, 467, 11, 2, 2], [1860877, 3], [109, 109, 13, 13, 3], [88301, 6], [7, 11, 11, 11], [697729, 9], [197, 3, 3, 3, 113, 5, 5], [456821, 6], [587, 107, 11, 3], [536441, 12], [293, 293, 2, 2, 29], [967333, 12], [3, 3, 5477, 19, 5, 2], [213989, 2], [4723], [272621, 4], [7, 206027, 7, 2], [4125083, 9], [647, 647, 29], [513977, 12], [1836437, 13], [715571, 9], [759833, 23], [5427413, 3], [2005189], [648317, 5], [11887, 73], [510089, 5], [13, 13, 11, 11, 11, 251], [3401663, 6], [653, 653, 97], [20624363, 9], [269, 269, 13, 2, 2, 2, 5], [4751611, 3], [229, 229, 131, 7], [15437341, 4], [36209], [1497281, 4], [5, 7, 9293, 59, 2], [1023329, 5], [797, 331, 331], [3613, 2039, 2, 2], [61041649, 3], [83, 83], [7248977, 2], [1097, 1097, 29, 3], [10600319, 9], [6949, 12433], [25173899, 2], [8422457, 3, 3], [31068761, 8], [615739, 199, 2], [13499729, 5], [1373819, 127], [8697113, 4], [1118189, 79, 3], [78301997, 8], [239, 2957, 71, 2], [2133167, 5], [3, 2, 2, 2, 673, 103, 61, 2], [55775779, 3], [2879, 2879, 19], [42946487, 5], [14385017, 19], [4548199, 2], [4208053, 89], [6322009, 9], [6761, 31, 11, 83], [6286097, 8], [45795389, 4], [157364297, 6], [814927, 2, 17, 2], [24529871, 9], [1303, 13, 13, 13, 5, 2, 19], [11690533, 8], [53, 11, 2, 2543, 61, 2, 2], [29, 2857, 11, 11, 11, 7], [72850571, 9], [39451, 269, 3], [16257191, 5], [5197, 5197], [515757161, 5], [13, 563, 43, 163], [64902361, 9], [1736131, 37, 7, 3], [625979023, 8], [1051781, 1319], [2342819, 2, 109, 2], [850715119, 5], [2383, 2383, 7, 13, 2, 2], [73, 73, 73, 5, 401, 2], [157639961, 3], [13, 1266271, 31, 3], [16807897, 8], [23, 23, 23, 2699, 29], [41911427, 9], [13, 13, 13, 1376213], [932465671, 6], [575579, 11, 157], [151582619, 8], [4505491, 47, 3, 5], [1704252323, 12], [496963, 3, 3, 3, 53], [99302461, 12], [373361, 773, 5], [35380853, 3], [30119, 113, 5, 3], [872856961, 5], [67, 8249711, 7], [1165274261, 4], [898430839, 6], [1163543, 2, 409, 3, 3], [681151243, 6], [103, 103, 29881, 3, 3, 3], [769769699, 4], [203431, 557, 13, 2, 2], [247170881, 5], [804577, 11251], [146752607, 2], [97, 3557, 7, 31, 37, 2, 2], [351810617, 9], [12161, 1459, 181, 2, 2], [730710971, 2], [23, 29023, 3, 757, 11], [3086709833, 6], [1933957, 5927], [196593829, 9], [547, 547, 547, 13, 5], [8107704013, 4], [1373, 1373, 1373, 11], [1609, 2, 2, 86027, 19, 2], [8342737433, 4], [52951, 28069, 11], [2884068631, 6], [3769, 152389, 17, 3], [1662694471, 8], [5237, 2759431, 2], [588798557, 4], [168631, 5, 7, 7, 7, 5, 5, 2, 2], [17150456353, 12], [4454963, 71, 41, 5], [9323978981, 9], [11, 11, 11, 5, 213023, 5, 5], [1833254743, 4], [251, 1493729, 7], [6707164993, 12], [11, 1985989, 1213, 2], [11316626969, 5], [181, 181, 67, 12107, 2], [1877258651, 4], [3191, 7, 1693, 2, 2, 2, 17, 11], [1065647993, 8], [101, 101, 101, 11, 11, 439], [7648858561, 4], [8972998861, 12], [13, 2, 2, 2, 55949, 11, 809, 2], [5595084239, 8], [5, 13771837, 113, 13], [56459622589, 12], [142757, 887, 7, 59, 2], [1240212683, 12], [739, 739, 739, 89, 2], [1259591293, 4], [75037, 13, 839, 227], [28927, 6883, 103, 7], [9528825773, 2], [17, 186709, 11, 11, 7, 7, 7], [27081073183, 2], [628487, 55243, 7], [8212031029, 12], [21757, 21757, 3, 3, 53], [33480912371, 6], [2684971, 63949], [29527591427, 4], [503, 941, 7, 11, 11, 19, 41], [97935684151, 5], [15461, 15461, 2, 2, 127], [12120139063, 9], [47, 47, 610879, 5, 5, 5, 3], [114306734099, 5], [8887, 8887, 2287, 3], [44885540209, 4], [147410026177, 6], [17, 17, 17, 79, 79, 79, 131], [23559151379, 6], [5617349, 13, 503, 11], [77960864819, 12], [46171, 271, 271, 7, 7, 5], [492922789781, 2], [19463, 24571, 2281], [138311930843, 6], [88643, 88643], [22465042073, 3], [7087867, 977, 19, 2, 3], [31491143737, 4], [4813, 4813, 1637, 3, 3, 3], [447480358439, 9], [11, 16429037, 7, 3, 3, 13, 2, 7], [124358494193, 3], [7956983, 5167, 3, 5, 3], [43328160059, 6], [113, 15361799, 79, 13], [193177484873, 4], [5435701, 2, 12301], [23256094583, 6], [21739, 21739, 463, 2, 3], [447307338419, 12], [5125723, 5, 89, 113, 2, 2, 2], [154934088149, 4], [5, 5, 63863, 63863, 11, 3], [504660417397, 6], [895361, 3, 27481, 5, 5, 2], [472077189569, 2], [1901258513117, 4], [907, 2361991], [74185754743, 9], [124181, 7, 239, 4447, 3], [60187964591, 4], [5, 10427897], [180087016411, 12], [6871, 6871, 6871, 13], [938902173101, 6], [2963, 2963, 2963, 5, 7, 3, 3], [1586111677721, 12], [11, 11, 11, 526759, 2, 439, 11], [1238798269439, 3], [1069, 1069, 1069, 7, 7, 7, 7, 2], [2145719340113, 5], [2833512681887, 6], [5619857, 2062891], [4320935580431, 3], [449855473297, 6], [67601, 571, 37, 53, 43, 2, 2], [838196683463, 2], [13, 13, 6337, 1087, 41, 73, 3], [227268046493, 3], [1889, 1889, 3929581], [480984127411, 9], [67339, 97613, 11, 11, 11, 2], [1977059250497, 8], [359, 1439, 2281, 2281, 2, 3], [634684821697, 9], [3347, 709, 709, 20681], [584267953769, 6], [13103803, 683, 17, 151], [551385204511, 5], [7878641, 2879, 107, 11], [1956768452747, 6], [907, 907, 86477, 173], [853237689923, 9], [1049677, 2, 2, 2, 23, 59, 13, 227], [3098342440367, 8], [13316573, 3, 13, 46507, 2], [5174376827317, 3], [20183, 20183, 3, 853], [15861144885709, 3], [43, 277, 19, 1231, 125339], [23344346763847, 9], [1013, 799657, 5, 5], [3054438683507, 5], [110527, 41, 373, 457, 3, 11, 2], [1989257593153, 9], [10007, 47, 127, 14543, 37, 2], [17447543871869, 3], [3889, 599, 89, 89, 2053, 2], [5098296366973, 6], [1184663, 14735333, 7], [16432263909329, 3], [22511, 22511, 41, 41, 29, 3], [1143059143267, 4], [17, 17, 17, 110923, 25693, 5, 2], [2158735950599, 4], [163027, 135601], [9895156808171, 12], [3083, 649361, 7, 4229, 2], [68263781496397, 4], [80909, 803171, 569, 2, 2], [2692059150461, 6], [5, 5, 61, 61, 61, 799481, 37], [54089365789721, 8], [31, 591659, 11, 11, 53, 23, 73], [28704363315853, 2], [17, 12239, 12239, 12239, 7], [25226361602677, 3], [136280521813369, 2], [16931, 16603, 16603, 11, 7], [27701103350773, 9], [1496489, 1496489, 43, 5], [223261101076381, 5], [14399263, 401, 13297, 2, 2], [291107, 29, 1901131, 3, 3, 3], [35955825570019, 3], [3591193, 3, 31219, 229, 2, 2], [200182644412633, 5], [2, 2, 3959209, 75541, 37, 3, 3], [325386170783533, 8], [9533, 169769], [30694468516667, 6], [2543, 1535119, 149, 23, 23, 3], [200991183061793, 8], [117529, 4083731, 17, 31], [95402634924151, 9], [101, 9815941, 31], [130490642272729, 6], [146423, 1933, 2, 2, 2, 1733, 163], [11555754942373, 8], [746069, 7, 1001017, 13, 13], [623725425495437, 4], [137, 137, 137, 8509661, 13, 2, 2], [133783412637461, 8], [1699, 63347, 8527, 5, 5, 5], [733, 86263, 467, 467, 3, 5, 2], [505374932592983, 9], [2861, 143999, 143999, 19], [210315191029337, 2], [5153, 983, 983, 983, 13, 17, 2], [253064430957557, 9], [82464319870813, 4], [6685751, 5437, 199, 607], [516062531133593, 2], [13, 12941, 73, 10357433, 23], [229770401450789, 6], [1828759, 178681, 557, 3], [189158535046381, 6], [500809, 113, 17747, 769, 3], [154415977270063, 6], [69497, 69497, 69497, 11], [218172956067281, 12], [438769, 3389, 3389, 2, 2, 5, 43], [1686287898857719, 12], [751997, 8161, 8161, 23, 3, 2], [234090547514861, 5], [907, 719, 412397, 2, 503, 7, 2, 2], [967681482492763, 3], [1361741, 31, 263, 53551, 11], [1377225188132839, 5], [50893, 50893, 11, 5, 2711, 11], [332152270427377, 2], [452539, 521267, 1997, 7, 2], [553465586159873, 9], [2351, 2351, 2351, 1097], [4332783675956933, 2], [43319, 4463, 4463, 2, 2, 2, 787, 2], [211728050794207, 8], [281, 11, 19, 583981, 9091], [551537142436129, 3], [354041, 199, 199, 199], [303540971638571, 3], [6353947149251381, 3], [9311, 671933, 10457, 479], [739, 739, 5159677, 23, 23, 23], [473911, 1919387, 1471, 23], [10337, 165161, 120661, 53, 3], [543045717208403, 8], [114781, 76031, 38671, 3, 23], [13496169116725517, 4], [149791, 149791, 149791, 7], [4904953746551737, 12], [1901, 1901, 5, 1416757, 7, 191, 2], [7197994346264549, 9], [503, 107, 877, 877, 877, 37, 3, 3, 3], [23027739977124731, 8], [44293, 47057, 7, 79, 997, 3, 3, 3, 2], [9257654559321647, 4], [1921889, 23, 23, 5, 745753, 13], [9564735152157811, 8], [911, 911, 911, 1725991, 3, 7], [1099491812472029, 6], [3593, 3593, 559633, 6961], [6550899649791001, 2], [597679, 317, 317, 317, 1321], [12409, 3191921, 32479, 37, 3], [29943254488143697, 9], [3103277, 14327, 14327, 61, 3], [7934730523204063, 2], [8287, 8287, 8287, 223, 3, 151], [1951009114780897, 4], [3, 17, 1327, 477571, 269, 2447, 2, 2], [10744688081690359, 6], [13829, 2210521, 924283], [29715807189458473, 4], [474049, 7, 631, 631, 631, 19, 11], [135102381513782609, 5], [1726259, 12492811, 571, 5, 3], [90947, 577, 58313, 5, 5, 5, 197, 3], [7902163936375591, 8], [1707331, 353, 857, 857, 73, 2], [70347374794677829, 6], [16729, 19, 19, 19, 5179, 3511, 19, 7], [8703808893752209, 12], [3, 3, 3, 491, 491, 491, 13, 264553], [8518131394465457, 2], [911957, 911957, 2, 41, 23, 181, 2], [6056148731956409, 6], [15508490507574343, 6], [181, 181, 30707, 30707, 14107], [279163805891269069, 4], [7083157, 2, 2, 2193707, 149, 13, 2], [17050768949237291, 6], [67, 67, 1931, 36587, 36587, 3, 3], [6866966938548653, 4], [1434637, 1434637, 109, 107, 17], [2777, 691, 3041, 3041, 3041, 17], [261580360360160951, 9], [552583, 37547, 97613, 53, 2, 5], [12783581897512717, 6], [438637, 438637, 22051, 13, 3, 5], [84114732087234161, 8], [911419, 911, 8263, 8263, 7], [202045963839200869, 9], [13, 14669, 14669, 14669, 241, 5, 5], [170682660721135051, 2], [3311299, 6402167, 13, 17, 17, 5], [29417334451539301, 12], [5, 151, 151, 1566107, 13, 2753], [99215219431562369, 6], [115429, 415523, 2297, 401, 2], [107300685699816233, 9], [23801, 31, 31, 11, 39229, 661, 61, 3], [568938934410284323, 4], [11, 11, 2529803, 429943, 227, 31, 2], [133519468699614533, 12], [7001047, 2, 31, 109589, 2141, 5, 3], [335355265758352549, 6], [2269266377141667037, 8], [219757, 571, 57179, 41281, 13], [10685513, 18043, 107, 107, 107, 11], [2260564136024428807, 6], [564401, 23, 1723, 1723, 19, 1171, 2, 2], [2053309707740936903, 3], [4523, 4523, 4523, 283, 283, 283, 2], [800642186410655993, 12], [100811, 100811, 10787083, 5, 3], [1062564844690585583, 2], [313, 313, 313, 1109789, 677, 2, 2, 89], [1084401541575856723, 12], [17, 2099, 2099, 2099, 20071, 31, 13, 7], [140221941237793711, 6], [4350503, 23, 23, 110083, 83, 239], [1381907, 1381907, 1381907, 2], [4107346147987802449, 9], [4651, 1361587, 507079, 1907], [321026383141409203, 9], [13, 17, 17, 276779, 5, 3, 3, 566213, 3, 7, 11], [3985514136192733399, 2], [1613, 28211, 6373, 6373, 229], [5684118242439904303, 8], [2, 739, 739, 287233, 2309, 17, 409, 2], [1147755035206577657, 3], [7, 223, 6521, 6521, 6521, 7, 7, 7, 5, 5, 2, 2], [575359636345245019, 6], [6829, 3373, 13, 37, 37, 37, 181, 587, 3, 2], [2266285194895938539, 3], [483984347573325587, 9], [127973, 127, 127, 899189, 29, 37], [4257692834920376933, 12], [7, 7, 7, 3551027, 133271, 133271], [2012051504655058639, 5], [14867, 2423, 1973, 23, 23, 36821, 2, 5, 2], [2825916534472048057, 12], [43, 43, 43, 3167, 3167, 5, 2, 744371, 2, 2], [15967258332804991561, 12], [7, 70459, 727, 15601, 15601, 179], [3895553945464761577, 12], [5, 5, 2278121, 131, 505669, 3623], [965168926726290031, 4], [3621031, 3, 47389, 61, 3961597], [1154782591228627829731, 9], [110989, 110989, 8093, 673, 673, 5, 3, 2, 2], [598792015320538192541, 9], [7537259, 2699777, 1151, 1151, 3, 3], [27893, 29023, 3641401, 941, 229, 2, 3], [865150999533473600767, 2], [9293, 9293, 9293, 719, 11719, 11, 2, 3, 3, 2], [822545144967854068529, 12], [490417, 490417, 2939, 11, 11, 523, 47, 2], [125327801443298850551, 4], [1487, 1487, 1487, 5, 40009, 40009, 19, 13, 11, 11], [515612016784454484699031, 12], [45523, 3, 29, 29, 29, 3, 67, 67, 124433, 124433], [241032412757566582100119, 2], [7105831, 1511, 23497, 13, 13, 10044277, 2], [31, 11806339, 41281, 41281, 41281, 37], [82350253314597713588839, 4], [389, 430007, 430007, 130439, 191, 53], [56292366369167128734301, 4], [5, 5, 5, 10457, 44887, 44887, 7, 7, 675751, 1249, 587], [2028636695723641188391619983, 12], [7, 479, 639547, 639547, 56633, 5351, 23609], [1920123057768597075147092489, 3], [229, 233, 3593, 3593, 3593, 179743, 179743, 557], [7006193198114349523636347871, 8], [4999, 4999, 11, 1217443, 1217443, 1217443, 11, 7], [680064611282958303424081177, 2], [3081555076253978344693213679, 2], [802951, 802951, 802951, 19, 41, 13, 13, 3617683, 14969], [139438904615732961253109907868349, 8], [138739, 59, 59, 27337, 27337, 173, 173, 173, 24989, 4583, 11], [349438723218772715369649154478839, 6], [24239, 24239, 10457, 10457, 13660529, 13660529], [617998746920496829907214237938587, 12], [401, 7417, 6605563, 2981039, 2981039, 2981039], [1724659726241823370705275330755563, 9], [3527, 47, 47, 47, 47, 773, 773, 2381, 506731, 13, 13, 1083871, 2], [14081, 953, 13, 194413, 194413, 194413, 474709, 373, 2, 11], [240351442941307274105722979201399, 2], [7523, 11, 11, 1277, 6998171, 93133, 93133, 93133, 5417, 7247], [2714281344775548990058880885554225871, 8], [12899, 12899, 1553, 3181, 3181, 97, 479, 5, 3504173, 181, 181, 181, 19], [10309044346239869174900350993920103487, 12], [1604419, 1604419, 227, 157, 157, 157, 2875757, 11612119, 7, 641], [919, 4529407, 650953, 775823, 775823, 775823, 449, 2, 89, 2], [20027737821166799265128219715096422279, 8], [23, 233, 233, 233, 977, 1049, 119653, 257, 257, 6953963, 6953963, 2], [103139424710102871488347842565509617057, 8], [19, 19, 19, 149, 149, 149, 13904939, 1093, 1093, 12163, 12163, 12163, 43, 11], [29588144353374171493507785530979521401, 8]]
