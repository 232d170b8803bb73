---- MODULE LnTab ----
\* Round(10^7 * ln(m)) for m in 1024..2048 (natural logarithm); generated by tools/mkln.py, sanity-checked by MC_Num.
LnTab == <<
  69314718, 69324479, 69334230, 69343972, 69353704, 69363427, 69373141, 69382845, 69392539, 69402225, 69411901, 69421567,
  69431224, 69440872, 69450511, 69460140, 69469760, 69479371, 69488972, 69498565, 69508148, 69517722, 69527286, 69536842,
  69546389, 69555926, 69565454, 69574974, 69584484, 69593985, 69603477, 69612960, 69622435, 69631900, 69641356, 69650803,
  69660242, 69669671, 69679092, 69688504, 69697907, 69707301, 69716686, 69726063, 69735430, 69744789, 69754139, 69763481,
  69772813, 69782137, 69791453, 69800759, 69810057, 69819347, 69828628, 69837900, 69847163, 69856418, 69865665, 69874902,
  69884132, 69893353, 69902565, 69911769, 69920964, 69930151, 69939330, 69948500, 69957662, 69966815, 69975960, 69985096,
  69994225, 70003345, 70012456, 70021560, 70030655, 70039741, 70048820, 70057890, 70066952, 70076006, 70085052, 70094089,
  70103119, 70112140, 70121153, 70130158, 70139155, 70148144, 70157124, 70166097, 70175061, 70184018, 70192967, 70201907,
  70210840, 70219764, 70228681, 70237590, 70246490, 70255383, 70264268, 70273145, 70282014, 70290876, 70299729, 70308575,
  70317413, 70326243, 70335065, 70343879, 70352686, 70361485, 70370276, 70379060, 70387835, 70396603, 70405364, 70414117,
  70422862, 70431599, 70440329, 70449051, 70457766, 70466473, 70475172, 70483864, 70492548, 70501225, 70509894, 70518556,
  70527210, 70535857, 70544497, 70553128, 70561753, 70570370, 70578979, 70587582, 70596176, 70604764, 70613344, 70621916,
  70630482, 70639040, 70647590, 70656134, 70664670, 70673198, 70681720, 70690234, 70698741, 70707241, 70715734, 70724219,
  70732697, 70741168, 70749632, 70758089, 70766538, 70774981, 70783416, 70791844, 70800265, 70808679, 70817086, 70825486,
  70833878, 70842264, 70850643, 70859015, 70867379, 70875737, 70884088, 70892432, 70900768, 70909098, 70917421, 70925737,
  70934046, 70942348, 70950644, 70958932, 70967214, 70975489, 70983756, 70992017, 71000272, 71008519, 71016760, 71024994,
  71033221, 71041441, 71049654, 71057861, 71066061, 71074255, 71082441, 71090621, 71098795, 71106961, 71115121, 71123274,
  71131421, 71139561, 71147694, 71155821, 71163941, 71172055, 71180162, 71188262, 71196356, 71204444, 71212525, 71220599,
  71228667, 71236728, 71244783, 71252831, 71260873, 71268908, 71276937, 71284959, 71292975, 71300985, 71308988, 71316985,
  71324976, 71332960, 71340937, 71348909, 71356873, 71364832, 71372784, 71380730, 71388670, 71396603, 71404530, 71412451,
  71420366, 71428274, 71436176, 71444072, 71451961, 71459845, 71467722, 71475593, 71483457, 71491316, 71499168, 71507015,
  71514855, 71522689, 71530516, 71538338, 71546154, 71553963, 71561766, 71569564, 71577355, 71585140, 71592919, 71600692,
  71608459, 71616220, 71623975, 71631724, 71639467, 71647204, 71654935, 71662660, 71670379, 71678092, 71685799, 71693500,
  71701195, 71708885, 71716568, 71724246, 71731917, 71739583, 71747243, 71754897, 71762545, 71770188, 71777824, 71785455,
  71793080, 71800699, 71808312, 71815919, 71823521, 71831117, 71838707, 71846292, 71853870, 71861443, 71869010, 71876572,
  71884127, 71891677, 71899222, 71906760, 71914293, 71921821, 71929342, 71936858, 71944369, 71951873, 71959372, 71966866,
  71974354, 71981836, 71989312, 71996783, 72004249, 72011709, 72019163, 72026612, 72034055, 72041493, 72048925, 72056352,
  72063773, 72071189, 72078599, 72086003, 72093403, 72100796, 72108185, 72115567, 72122945, 72130317, 72137683, 72145044,
  72152400, 72159750, 72167095, 72174434, 72181768, 72189097, 72196420, 72203738, 72211051, 72218358, 72225660, 72232957,
  72240248, 72247534, 72254815, 72262090, 72269360, 72276625, 72283885, 72291139, 72298388, 72305632, 72312870, 72320103,
  72327331, 72334554, 72341772, 72348984, 72356191, 72363393, 72370590, 72377782, 72384968, 72392150, 72399326, 72406497,
  72413663, 72420824, 72427979, 72435130, 72442275, 72449415, 72456551, 72463681, 72470806, 72477926, 72485041, 72492151,
  72499255, 72506355, 72513450, 72520540, 72527624, 72534704, 72541778, 72548848, 72555913, 72562972, 72570027, 72577077,
  72584122, 72591161, 72598196, 72605226, 72612251, 72619271, 72626286, 72633296, 72640301, 72647302, 72654297, 72661288,
  72668273, 72675254, 72682230, 72689201, 72696167, 72703129, 72710085, 72717037, 72723984, 72730926, 72737863, 72744796,
  72751723, 72758646, 72765564, 72772477, 72779386, 72786289, 72793188, 72800083, 72806972, 72813857, 72820737, 72827612,
  72834482, 72841348, 72848209, 72855065, 72861917, 72868764, 72875606, 72882444, 72889277, 72896105, 72902929, 72909748,
  72916562, 72923372, 72930177, 72936977, 72943773, 72950564, 72957351, 72964133, 72970910, 72977683, 72984451, 72991215,
  72997974, 73004728, 73011478, 73018223, 73024964, 73031701, 73038432, 73045159, 73051882, 73058600, 73065314, 73072023,
  73078728, 73085428, 73092124, 73098815, 73105502, 73112184, 73118862, 73125535, 73132204, 73138868, 73145528, 73152184,
  73158835, 73165482, 73172124, 73178762, 73185395, 73192025, 73198649, 73205270, 73211886, 73218497, 73225104, 73231707,
  73238306, 73244900, 73251490, 73258075, 73264656, 73271233, 73277805, 73284374, 73290937, 73297497, 73304052, 73310603,
  73317150, 73323692, 73330230, 73336764, 73343294, 73349819, 73356340, 73362857, 73369369, 73375877, 73382382, 73388881,
  73395377, 73401868, 73408356, 73414839, 73421317, 73427792, 73434262, 73440729, 73447191, 73453648, 73460102, 73466552,
  73472997, 73479438, 73485875, 73492308, 73498737, 73505162, 73511582, 73517999, 73524411, 73530819, 73537223, 73543623,
  73550019, 73556411, 73562799, 73569182, 73575562, 73581938, 73588309, 73594676, 73601040, 73607399, 73613754, 73620106,
  73626453, 73632796, 73639135, 73645470, 73651801, 73658128, 73664451, 73670771, 73677086, 73683397, 73689704, 73696007,
  73702306, 73708602, 73714893, 73721180, 73727464, 73733743, 73740019, 73746290, 73752558, 73758821, 73765081, 73771337,
  73777589, 73783837, 73790081, 73796322, 73802558, 73808790, 73815019, 73821244, 73827464, 73833681, 73839895, 73846104,
  73852309, 73858511, 73864708, 73870902, 73877092, 73883279, 73889461, 73895640, 73901814, 73907985, 73914152, 73920316,
  73926475, 73932631, 73938783, 73944931, 73951075, 73957216, 73963353, 73969486, 73975615, 73981741, 73987863, 73993981,
  74000095, 74006206, 74012313, 74018416, 74024515, 74030611, 74036703, 74042791, 74048876, 74054957, 74061034, 74067107,
  74073177, 74079243, 74085306, 74091364, 74097420, 74103471, 74109519, 74115563, 74121603, 74127640, 74133673, 74139703,
  74145729, 74151751, 74157770, 74163785, 74169796, 74175804, 74181808, 74187809, 74193806, 74199799, 74205789, 74211775,
  74217758, 74223737, 74229713, 74235684, 74241653, 74247618, 74253579, 74259537, 74265491, 74271441, 74277388, 74283332,
  74289272, 74295208, 74301141, 74307071, 74312997, 74318919, 74324838, 74330753, 74336665, 74342574, 74348479, 74354380,
  74360278, 74366173, 74372064, 74377951, 74383835, 74389716, 74395593, 74401467, 74407337, 74413204, 74419067, 74424927,
  74430784, 74436637, 74442486, 74448333, 74454176, 74460015, 74465851, 74471684, 74477513, 74483339, 74489161, 74494980,
  74500796, 74506608, 74512417, 74518222, 74524025, 74529823, 74535619, 74541411, 74547199, 74552985, 74558767, 74564546,
  74570321, 74576093, 74581862, 74587627, 74593389, 74599148, 74604903, 74610655, 74616404, 74622149, 74627892, 74633630,
  74639366, 74645098, 74650827, 74656553, 74662276, 74667995, 74673711, 74679423, 74685133, 74690839, 74696542, 74702241,
  74707938, 74713631, 74719321, 74725007, 74730691, 74736371, 74742048, 74747722, 74753392, 74759060, 74764724, 74770385,
  74776042, 74781697, 74787348, 74792996, 74798641, 74804283, 74809922, 74815557, 74821189, 74826818, 74832444, 74838067,
  74843686, 74849303, 74854916, 74860526, 74866133, 74871737, 74877338, 74882935, 74888530, 74894121, 74899709, 74905294,
  74910876, 74916455, 74922030, 74927603, 74933172, 74938739, 74944302, 74949862, 74955419, 74960973, 74966524, 74972072,
  74977617, 74983159, 74988697, 74994233, 74999765, 75005295, 75010821, 75016345, 75021865, 75027382, 75032896, 75038407,
  75043916, 75049421, 75054923, 75060422, 75065918, 75071411, 75076901, 75082388, 75087872, 75093353, 75098831, 75104306,
  75109778, 75115246, 75120712, 75126175, 75131635, 75137092, 75142547, 75147998, 75153446, 75158891, 75164333, 75169772,
  75175209, 75180642, 75186072, 75191500, 75196924, 75202346, 75207764, 75213180, 75218593, 75224002, 75229409, 75234813,
  75240214, 75245612, 75251007, 75256400, 75261789, 75267176, 75272559, 75277940, 75283318, 75288693, 75294065, 75299434,
  75304800, 75310163, 75315524, 75320881, 75326236, 75331588, 75336937, 75342283, 75347627, 75352967, 75358305, 75363639,
  75368971, 75374300, 75379627, 75384950, 75390271, 75395588, 75400903, 75406215, 75411525, 75416831, 75422135, 75427435,
  75432733, 75438029, 75443321, 75448611, 75453897, 75459182, 75464463, 75469741, 75475017, 75480290, 75485560, 75490827,
  75496092, 75501353, 75506612, 75511869, 75517122, 75522373, 75527621, 75532866, 75538109, 75543348, 75548585, 75553819,
  75559051, 75564280, 75569506, 75574729, 75579950, 75585167, 75590383, 75595595, 75600805, 75606012, 75611216, 75616417,
  75621616, 75626812, 75632006, 75637197, 75642385, 75647570, 75652753, 75657933, 75663110, 75668285, 75673457, 75678626,
  75683793, 75688957, 75694118, 75699277, 75704433, 75709586, 75714736, 75719884, 75725030, 75730173, 75735313, 75740450,
  75745585, 75750717, 75755847, 75760973, 75766098, 75771219, 75776338, 75781455, 75786569, 75791680, 75796788, 75801894,
  75806998, 75812098, 75817196, 75822292, 75827385, 75832475, 75837563, 75842648, 75847731, 75852811, 75857888, 75862963,
  75868035, 75873105, 75878172, 75883237, 75888299, 75893358, 75898415, 75903469, 75908521, 75913570, 75918617, 75923661,
  75928703, 75933742, 75938778, 75943812, 75948844, 75953873, 75958899, 75963923, 75968944, 75973963, 75978980, 75983993,
  75989005, 75994013, 75999020, 76004023, 76009025, 76014023, 76019020, 76024013, 76029005, 76033993, 76038980, 76043963,
  76048945, 76053924, 76058900, 76063874, 76068845, 76073814, 76078781, 76083745, 76088706, 76093665, 76098622, 76103576,
  76108528, 76113477, 76118424, 76123368, 76128310, 76133250, 76138187, 76143121, 76148054, 76152983, 76157911, 76162836,
  76167758, 76172678, 76177596, 76182511, 76187424, 76192334, 76197242, 76202148, 76207051, 76211952, 76216850, 76221746,
  76226640, 76231531, 76236419, 76241306, 76246190
>>
====
