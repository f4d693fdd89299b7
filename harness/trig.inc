// written by tools/gentrig.py
struct tr_top { static constexpr int32_t shift = 21, off = 0; static constexpr int64_t c[256] = { 17592186044416, 17591854876485, 17590861385161, 17589205607849, 17586887606887, 17583907469546, 17580265308028, 17575961259457, 17570995485879, 17565368174252, 17559079536441, 17552129809210, 17544519254212, 17536248157981, 17527316831918, 17517725612282, 17507474860179, 17496564961542, 17484996327123, 17472769392476, 17459884617936, 17446342488609, 17432143514348, 17417288229736, 17401777194067, 17385610991321, 17368790230149, 17351315543841, 17333187590310, 17314407052063, 17294974636176, 17274891074270, 17254157122478, 17232773561423, 17210741196184, 17188060856265, 17164733395571, 17140759692365, 17116140649245, 17090877193104, 17064970275096, 17038420870603, 17011229979194, 16983398624591, 16954927854629, 16925818741216, 16896072380294, 16865689891796, 16834672419607, 16803021131516, 16770737219177, 16737821898060, 16704276407409, 16670102010192, 16635299993057, 16599871666279, 16563818363715, 16527141442752, 16489842284255, 16451922292516, 16413382895201, 16374225543297, 16334451711056, 16294062895941, 16253060618567, 16211446422646, 16169221874931, 16126388565151, 16082948105957, 16038902132856, 15994252304155, 15949000300895, 15903147826788, 15856696608153, 15809648393854, 15762004955229, 15713768086025, 15664939602334, 15615521342522, 15565515167157, 15514922958943, 15463746622649, 15411988085035, 15359649294780, 15306732222411, 15253238860224, 15199171222216, 15144531344002, 15089321282743, 15033543117066, 14977198946988, 14920290893834, 14862821100161, 14804791729674, 14746204967147, 14687063018336, 14627368109905, 14567122489331, 14506328424829, 14444988205261, 14383104140052, 14320678559101, 14257713812696, 14194212271424, 14130176326084, 14065608387591, 14000510886892, 13934886274871, 13868737022258, 13802065619535, 13734874576842, 13667166423884, 13598943709836, 13530209003242, 13460964891927, 13391213982892, 13320958902220, 13250202294973, 13178946825100, 13107195175327, 13034950047064, 12962214160299, 12888990253497, 12815281083497, 12741089425408, 12666418072503, 12591269836116, 12515647545537, 12439554047902, 12362992208088, 12285964908604, 12208475049486, 12130525548182, 12052119339448, 11973259375233, 11893948624569, 11814190073462, 11733986724777, 11653341598123, 11572257729744, 11490738172403, 11408785995264, 11326404283781, 11243596139578, 11160364680335, 11076713039670, 10992644367019, 10908161827522, 10823268601896, 10737967886326, 10652262892333, 10566156846663, 10479652991160, 10392754582645, 10305464892794, 10217787208014, 10129724829321, 10041281072214, 9952459266550, 9863262756419, 9773694900020, 9683759069533, 9593458650990, 9502797044150, 9411777662374, 9320403932487, 9228679294661, 9136607202275, 9044191121792, 8951434532625, 8858340927007, 8764913809861, 8671156698663, 8577073123316, 8482666626014, 8387940761108, 8292899094974, 8197545205875, 8101882683833, 8005915130487, 7909646158961, 7813079393728, 7716218470472, 7619067035951, 7521628747863, 7423907274704, 7325906295632, 7227629500328, 7129080588859, 7030263271535, 6931181268773, 6831838310953, 6732238138282, 6632384500651, 6532281157491, 6431931877638, 6331340439185, 6230510629344, 6129446244298, 6028151089066, 5926628977352, 5824883731407, 5722919181882, 5620739167684, 5518347535834, 5415748141317, 5312944846944, 5209941523201, 5106742048104, 5003350307055, 4899770192695, 4796005604756, 4692060449918, 4587938641655, 4483644100095, 4379180751870, 4274552529964, 4169763373571, 4064817227944, 3959718044246, 3854469779402, 3749076395949, 3643541861889, 3537870150536, 3432065240373, 3326131114893, 3220071762456, 3113891176137, 3007593353576, 2901182296825, 2794662012200, 2688036510130, 2581309805004, 2474485915023, 2367568862047, 2260562671440, 2153471371927, 2046298995434, 1939049576940, 1831727154326, 1724335768219, 1616879461846, 1509362280874, 1401788273266, 1294161489122, 1186485980529, 1078765801409, 971005007367, 863207655535, 755377804422, 647519513763, 539636844359, 431733857934, 323814616972, 215883184574, 107943624295 }, s[256] = { 0, 107943624295, 215883184574, 323814616972, 431733857934, 539636844359, 647519513763, 755377804422, 863207655535, 971005007367, 1078765801409, 1186485980529, 1294161489122, 1401788273266, 1509362280874, 1616879461846, 1724335768219, 1831727154326, 1939049576940, 2046298995434, 2153471371927, 2260562671440, 2367568862047, 2474485915023, 2581309805004, 2688036510130, 2794662012200, 2901182296825, 3007593353576, 3113891176137, 3220071762456, 3326131114893, 3432065240373, 3537870150536, 3643541861889, 3749076395949, 3854469779402, 3959718044246, 4064817227944, 4169763373571, 4274552529964, 4379180751870, 4483644100095, 4587938641655, 4692060449918, 4796005604756, 4899770192695, 5003350307055, 5106742048104, 5209941523201, 5312944846944, 5415748141317, 5518347535834, 5620739167684, 5722919181882, 5824883731407, 5926628977352, 6028151089066, 6129446244298, 6230510629344, 6331340439185, 6431931877638, 6532281157491, 6632384500651, 6732238138282, 6831838310953, 6931181268773, 7030263271535, 7129080588859, 7227629500328, 7325906295632, 7423907274704, 7521628747863, 7619067035951, 7716218470472, 7813079393728, 7909646158961, 8005915130487, 8101882683833, 8197545205875, 8292899094974, 8387940761108, 8482666626014, 8577073123316, 8671156698663, 8764913809861, 8858340927007, 8951434532625, 9044191121792, 9136607202275, 9228679294661, 9320403932487, 9411777662374, 9502797044150, 9593458650990, 9683759069533, 9773694900020, 9863262756419, 9952459266550, 10041281072214, 10129724829321, 10217787208014, 10305464892794, 10392754582645, 10479652991160, 10566156846663, 10652262892333, 10737967886326, 10823268601896, 10908161827522, 10992644367019, 11076713039670, 11160364680335, 11243596139578, 11326404283781, 11408785995264, 11490738172403, 11572257729744, 11653341598123, 11733986724777, 11814190073462, 11893948624569, 11973259375233, 12052119339448, 12130525548182, 12208475049486, 12285964908604, 12362992208088, 12439554047902, 12515647545537, 12591269836116, 12666418072503, 12741089425408, 12815281083497, 12888990253497, 12962214160299, 13034950047064, 13107195175327, 13178946825100, 13250202294973, 13320958902220, 13391213982892, 13460964891927, 13530209003242, 13598943709836, 13667166423884, 13734874576842, 13802065619535, 13868737022258, 13934886274871, 14000510886892, 14065608387591, 14130176326084, 14194212271424, 14257713812696, 14320678559101, 14383104140052, 14444988205261, 14506328424829, 14567122489331, 14627368109905, 14687063018336, 14746204967147, 14804791729674, 14862821100161, 14920290893834, 14977198946988, 15033543117066, 15089321282743, 15144531344002, 15199171222216, 15253238860224, 15306732222411, 15359649294780, 15411988085035, 15463746622649, 15514922958943, 15565515167157, 15615521342522, 15664939602334, 15713768086025, 15762004955229, 15809648393854, 15856696608153, 15903147826788, 15949000300895, 15994252304155, 16038902132856, 16082948105957, 16126388565151, 16169221874931, 16211446422646, 16253060618567, 16294062895941, 16334451711056, 16374225543297, 16413382895201, 16451922292516, 16489842284255, 16527141442752, 16563818363715, 16599871666279, 16635299993057, 16670102010192, 16704276407409, 16737821898060, 16770737219177, 16803021131516, 16834672419607, 16865689891796, 16896072380294, 16925818741216, 16954927854629, 16983398624591, 17011229979194, 17038420870603, 17064970275096, 17090877193104, 17116140649245, 17140759692365, 17164733395571, 17188060856265, 17210741196184, 17232773561423, 17254157122478, 17274891074270, 17294974636176, 17314407052063, 17333187590310, 17351315543841, 17368790230149, 17385610991321, 17401777194067, 17417288229736, 17432143514348, 17446342488609, 17459884617936, 17472769392476, 17484996327123, 17496564961542, 17507474860179, 17517725612282, 17527316831918, 17536248157981, 17544519254212, 17552129809210, 17559079536441, 17565368174252, 17570995485879, 17575961259457, 17580265308028, 17583907469546, 17586887606887, 17589205607849, 17590861385161, 17591854876485 }; };
struct tr_mid { static constexpr int32_t shift = 13, off = 0; static constexpr int64_t c[256] = { 17592186044416, 17592186039363, 17592186024203, 17592185998937, 17592185963564, 17592185918085, 17592185862499, 17592185796807, 17592185721009, 17592185635104, 17592185539092, 17592185432974, 17592185316750, 17592185190419, 17592185053981, 17592184907438, 17592184750787, 17592184584030, 17592184407167, 17592184220197, 17592184023121, 17592183815938, 17592183598649, 17592183371253, 17592183133751, 17592182886143, 17592182628428, 17592182360606, 17592182082678, 17592181794643, 17592181496502, 17592181188255, 17592180869901, 17592180541441, 17592180202874, 17592179854200, 17592179495421, 17592179126534, 17592178747542, 17592178358442, 17592177959237, 17592177549925, 17592177130506, 17592176700981, 17592176261349, 17592175811611, 17592175351767, 17592174881816, 17592174401758, 17592173911594, 17592173411324, 17592172900947, 17592172380464, 17592171849874, 17592171309178, 17592170758375, 17592170197466, 17592169626450, 17592169045328, 17592168454099, 17592167852764, 17592167241323, 17592166619775, 17592165988120, 17592165346359, 17592164694492, 17592164032518, 17592163360438, 17592162678251, 17592161985958, 17592161283558, 17592160571052, 17592159848440, 17592159115720, 17592158372895, 17592157619963, 17592156856925, 17592156083780, 17592155300528, 17592154507170, 17592153703706, 17592152890135, 17592152066458, 17592151232675, 17592150388785, 17592149534788, 17592148670685, 17592147796476, 17592146912160, 17592146017737, 17592145113209, 17592144198573, 17592143273832, 17592142338983, 17592141394029, 17592140438968, 17592139473800, 17592138498526, 17592137513146, 17592136517659, 17592135512066, 17592134496366, 17592133470560, 17592132434647, 17592131388628, 17592130332502, 17592129266271, 17592128189932, 17592127103487, 17592126006936, 17592124900278, 17592123783514, 17592122656643, 17592121519666, 17592120372583, 17592119215393, 17592118048097, 17592116870694, 17592115683185, 17592114485569, 17592113277847, 17592112060018, 17592110832083, 17592109594042, 17592108345894, 17592107087640, 17592105819279, 17592104540812, 17592103252239, 17592101953559, 17592100644772, 17592099325879, 17592097996880, 17592096657774, 17592095308562, 17592093949244, 17592092579819, 17592091200287, 17592089810650, 17592088410905, 17592087001055, 17592085581098, 17592084151034, 17592082710864, 17592081260588, 17592079800205, 17592078329716, 17592076849121, 17592075358419, 17592073857611, 17592072346696, 17592070825675, 17592069294547, 17592067753313, 17592066201973, 17592064640526, 17592063068973, 17592061487313, 17592059895547, 17592058293675, 17592056681696, 17592055059611, 17592053427419, 17592051785121, 17592050132716, 17592048470206, 17592046797588, 17592045114865, 17592043422035, 17592041719098, 17592040006056, 17592038282906, 17592036549651, 17592034806289, 17592033052821, 17592031289246, 17592029515565, 17592027731777, 17592025937883, 17592024133883, 17592022319776, 17592020495563, 17592018661244, 17592016816818, 17592014962286, 17592013097648, 17592011222903, 17592009338051, 17592007443094, 17592005538030, 17592003622859, 17592001697582, 17591999762199, 17591997816710, 17591995861114, 17591993895412, 17591991919603, 17591989933688, 17591987937667, 17591985931539, 17591983915305, 17591981888965, 17591979852518, 17591977805965, 17591975749305, 17591973682539, 17591971605667, 17591969518689, 17591967421604, 17591965314412, 17591963197115, 17591961069711, 17591958932201, 17591956784584, 17591954626861, 17591952459032, 17591950281096, 17591948093054, 17591945894906, 17591943686651, 17591941468290, 17591939239823, 17591937001249, 17591934752569, 17591932493783, 17591930224890, 17591927945891, 17591925656786, 17591923357574, 17591921048256, 17591918728832, 17591916399301, 17591914059664, 17591911709921, 17591909350071, 17591906980115, 17591904600053, 17591902209885, 17591899809610, 17591897399229, 17591894978741, 17591892548148, 17591890107447, 17591887656641, 17591885195728, 17591882724709, 17591880243584, 17591877752353, 17591875251015, 17591872739571, 17591870218020, 17591867686363, 17591865144600, 17591862592731, 17591860030755, 17591857458673 }, s[256] = { 0, 421657428, 843314856, 1264972284, 1686629710, 2108287136, 2529944561, 2951601984, 3373259405, 3794916825, 4216574242, 4638231657, 5059889069, 5481546479, 5903203885, 6324861288, 6746518687, 7168176082, 7589833473, 8011490860, 8433148242, 8854805620, 9276462992, 9698120359, 10119777720, 10541435076, 10963092425, 11384749769, 11806407105, 12228064435, 12649721758, 13071379074, 13493036382, 13914693682, 14336350974, 14758008258, 15179665534, 15601322801, 16022980059, 16444637308, 16866294547, 17287951776, 17709608996, 18131266206, 18552923405, 18974580593, 19396237771, 19817894937, 20239552092, 20661209235, 21082866367, 21504523486, 21926180593, 22347837688, 22769494769, 23191151838, 23612808893, 24034465934, 24456122962, 24877779976, 25299436975, 25721093960, 26142750931, 26564407886, 26986064826, 27407721750, 27829378659, 28251035551, 28672692428, 29094349288, 29516006131, 29937662957, 30359319766, 30780976558, 31202633332, 31624290088, 32045946826, 32467603545, 32889260246, 33310916928, 33732573590, 34154230234, 34575886858, 34997543461, 35419200045, 35840856609, 36262513152, 36684169674, 37105826175, 37527482654, 37949139112, 38370795549, 38792451963, 39214108355, 39635764724, 40057421071, 40479077394, 40900733695, 41322389972, 41744046225, 42165702454, 42587358659, 43009014839, 43430670995, 43852327126, 44273983231, 44695639312, 45117295366, 45538951395, 45960607397, 46382263373, 46803919323, 47225575245, 47647231140, 48068887008, 48490542849, 48912198661, 49333854446, 49755510202, 50177165929, 50598821628, 51020477297, 51442132938, 51863788548, 52285444129, 52707099680, 53128755201, 53550410691, 53972066150, 54393721579, 54815376976, 55237032341, 55658687675, 56080342977, 56501998247, 56923653484, 57345308688, 57766963860, 58188618998, 58610274103, 59031929175, 59453584212, 59875239215, 60296894184, 60718549118, 61140204017, 61561858881, 61983513710, 62405168503, 62826823261, 63248477982, 63670132667, 64091787315, 64513441927, 64935096501, 65356751038, 65778405538, 66200060000, 66621714423, 67043368809, 67465023156, 67886677464, 68308331733, 68729985963, 69151640154, 69573294305, 69994948415, 70416602486, 70838256516, 71259910506, 71681564454, 72103218361, 72524872227, 72946526052, 73368179834, 73789833574, 74211487272, 74633140927, 75054794539, 75476448108, 75898101634, 76319755116, 76741408555, 77163061949, 77584715299, 78006368604, 78428021865, 78849675080, 79271328251, 79692981375, 80114634454, 80536287487, 80957940474, 81379593414, 81801246307, 82222899153, 82644551952, 83066204704, 83487857408, 83909510064, 84331162672, 84752815231, 85174467741, 85596120203, 86017772616, 86439424979, 86861077292, 87282729556, 87704381769, 88126033932, 88547686044, 88969338106, 89390990116, 89812642075, 90234293983, 90655945838, 91077597642, 91499249393, 91920901092, 92342552737, 92764204330, 93185855870, 93607507355, 94029158788, 94450810166, 94872461490, 95294112759, 95715763974, 96137415133, 96559066238, 96980717287, 97402368280, 97824019217, 98245670098, 98667320923, 99088971691, 99510622402, 99932273056, 100353923652, 100775574191, 101197224672, 101618875095, 102040525459, 102462175765, 102883826012, 103305476199, 103727126328, 104148776397, 104570426406, 104992076355, 105413726243, 105835376071, 106257025839, 106678675545, 107100325190, 107521974773 }; };
struct tr_low { static constexpr int32_t shift = 5, off = 0; static constexpr int64_t c[256] = { 17592186044416, 17592186044416, 17592186044416, 17592186044415, 17592186044415, 17592186044414, 17592186044413, 17592186044412, 17592186044411, 17592186044410, 17592186044408, 17592186044407, 17592186044405, 17592186044403, 17592186044401, 17592186044399, 17592186044396, 17592186044394, 17592186044391, 17592186044388, 17592186044385, 17592186044382, 17592186044379, 17592186044375, 17592186044372, 17592186044368, 17592186044364, 17592186044360, 17592186044356, 17592186044351, 17592186044347, 17592186044342, 17592186044337, 17592186044332, 17592186044327, 17592186044322, 17592186044316, 17592186044310, 17592186044305, 17592186044299, 17592186044293, 17592186044286, 17592186044280, 17592186044273, 17592186044267, 17592186044260, 17592186044253, 17592186044246, 17592186044238, 17592186044231, 17592186044223, 17592186044215, 17592186044208, 17592186044199, 17592186044191, 17592186044183, 17592186044174, 17592186044165, 17592186044157, 17592186044148, 17592186044138, 17592186044129, 17592186044120, 17592186044110, 17592186044100, 17592186044090, 17592186044080, 17592186044070, 17592186044059, 17592186044049, 17592186044038, 17592186044027, 17592186044016, 17592186044005, 17592186043994, 17592186043982, 17592186043971, 17592186043959, 17592186043947, 17592186043935, 17592186043923, 17592186043910, 17592186043898, 17592186043885, 17592186043872, 17592186043859, 17592186043846, 17592186043832, 17592186043819, 17592186043805, 17592186043791, 17592186043777, 17592186043763, 17592186043749, 17592186043735, 17592186043720, 17592186043705, 17592186043691, 17592186043675, 17592186043660, 17592186043645, 17592186043629, 17592186043614, 17592186043598, 17592186043582, 17592186043566, 17592186043550, 17592186043533, 17592186043517, 17592186043500, 17592186043483, 17592186043466, 17592186043449, 17592186043431, 17592186043414, 17592186043396, 17592186043378, 17592186043360, 17592186043342, 17592186043324, 17592186043306, 17592186043287, 17592186043268, 17592186043249, 17592186043230, 17592186043211, 17592186043192, 17592186043172, 17592186043153, 17592186043133, 17592186043113, 17592186043093, 17592186043073, 17592186043052, 17592186043031, 17592186043011, 17592186042990, 17592186042969, 17592186042948, 17592186042926, 17592186042905, 17592186042883, 17592186042861, 17592186042839, 17592186042817, 17592186042795, 17592186042772, 17592186042750, 17592186042727, 17592186042704, 17592186042681, 17592186042658, 17592186042635, 17592186042611, 17592186042587, 17592186042564, 17592186042540, 17592186042515, 17592186042491, 17592186042467, 17592186042442, 17592186042417, 17592186042392, 17592186042367, 17592186042342, 17592186042317, 17592186042291, 17592186042266, 17592186042240, 17592186042214, 17592186042188, 17592186042161, 17592186042135, 17592186042108, 17592186042082, 17592186042055, 17592186042028, 17592186042000, 17592186041973, 17592186041945, 17592186041918, 17592186041890, 17592186041862, 17592186041834, 17592186041805, 17592186041777, 17592186041748, 17592186041720, 17592186041691, 17592186041662, 17592186041632, 17592186041603, 17592186041574, 17592186041544, 17592186041514, 17592186041484, 17592186041454, 17592186041424, 17592186041393, 17592186041363, 17592186041332, 17592186041301, 17592186041270, 17592186041239, 17592186041207, 17592186041176, 17592186041144, 17592186041112, 17592186041080, 17592186041048, 17592186041016, 17592186040983, 17592186040951, 17592186040918, 17592186040885, 17592186040852, 17592186040819, 17592186040785, 17592186040752, 17592186040718, 17592186040684, 17592186040650, 17592186040616, 17592186040582, 17592186040547, 17592186040512, 17592186040478, 17592186040443, 17592186040408, 17592186040372, 17592186040337, 17592186040302, 17592186040266, 17592186040230, 17592186040194, 17592186040158, 17592186040121, 17592186040085, 17592186040048, 17592186040012, 17592186039975, 17592186039938, 17592186039900, 17592186039863, 17592186039825, 17592186039788, 17592186039750, 17592186039712, 17592186039674, 17592186039635, 17592186039597, 17592186039558, 17592186039519, 17592186039481, 17592186039441, 17592186039402 }, s[256] = { 0, 1647099, 3294199, 4941298, 6588397, 8235497, 9882596, 11529695, 13176795, 14823894, 16470993, 18118093, 19765192, 21412291, 23059391, 24706490, 26353589, 28000689, 29647788, 31294887, 32941987, 34589086, 36236185, 37883285, 39530384, 41177483, 42824583, 44471682, 46118781, 47765881, 49412980, 51060079, 52707179, 54354278, 56001377, 57648477, 59295576, 60942675, 62589775, 64236874, 65883973, 67531072, 69178172, 70825271, 72472370, 74119470, 75766569, 77413668, 79060768, 80707867, 82354966, 84002066, 85649165, 87296264, 88943364, 90590463, 92237562, 93884662, 95531761, 97178860, 98825960, 100473059, 102120158, 103767258, 105414357, 107061456, 108708556, 110355655, 112002754, 113649854, 115296953, 116944052, 118591152, 120238251, 121885350, 123532450, 125179549, 126826648, 128473748, 130120847, 131767946, 133415046, 135062145, 136709244, 138356344, 140003443, 141650542, 143297642, 144944741, 146591840, 148238940, 149886039, 151533138, 153180238, 154827337, 156474436, 158121536, 159768635, 161415734, 163062834, 164709933, 166357032, 168004132, 169651231, 171298330, 172945430, 174592529, 176239628, 177886728, 179533827, 181180926, 182828026, 184475125, 186122224, 187769324, 189416423, 191063522, 192710622, 194357721, 196004820, 197651919, 199299019, 200946118, 202593217, 204240317, 205887416, 207534515, 209181615, 210828714, 212475813, 214122913, 215770012, 217417111, 219064211, 220711310, 222358409, 224005509, 225652608, 227299707, 228946807, 230593906, 232241005, 233888105, 235535204, 237182303, 238829403, 240476502, 242123601, 243770701, 245417800, 247064899, 248711999, 250359098, 252006197, 253653297, 255300396, 256947495, 258594595, 260241694, 261888793, 263535893, 265182992, 266830091, 268477191, 270124290, 271771389, 273418489, 275065588, 276712687, 278359787, 280006886, 281653985, 283301085, 284948184, 286595283, 288242383, 289889482, 291536581, 293183681, 294830780, 296477879, 298124979, 299772078, 301419177, 303066277, 304713376, 306360475, 308007575, 309654674, 311301773, 312948873, 314595972, 316243071, 317890171, 319537270, 321184369, 322831468, 324478568, 326125667, 327772766, 329419866, 331066965, 332714064, 334361164, 336008263, 337655362, 339302462, 340949561, 342596660, 344243760, 345890859, 347537958, 349185058, 350832157, 352479256, 354126356, 355773455, 357420554, 359067654, 360714753, 362361852, 364008952, 365656051, 367303150, 368950250, 370597349, 372244448, 373891548, 375538647, 377185746, 378832846, 380479945, 382127044, 383774144, 385421243, 387068342, 388715442, 390362541, 392009640, 393656740, 395303839, 396950938, 398598038, 400245137, 401892236, 403539336, 405186435, 406833534, 408480634, 410127733, 411774832, 413421932, 415069031, 416716130, 418363230, 420010329 }; };
struct tr_unit { static constexpr int32_t shift = 0, off = 0; static constexpr int64_t c[256] = { 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044416, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044415, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044414, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044413, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044412, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411, 17592186044411 }, s[256] = { 0, 51472, 102944, 154416, 205887, 257359, 308831, 360303, 411775, 463247, 514719, 566190, 617662, 669134, 720606, 772078, 823550, 875022, 926493, 977965, 1029437, 1080909, 1132381, 1183853, 1235324, 1286796, 1338268, 1389740, 1441212, 1492684, 1544156, 1595627, 1647099, 1698571, 1750043, 1801515, 1852987, 1904459, 1955930, 2007402, 2058874, 2110346, 2161818, 2213290, 2264762, 2316233, 2367705, 2419177, 2470649, 2522121, 2573593, 2625065, 2676536, 2728008, 2779480, 2830952, 2882424, 2933896, 2985368, 3036839, 3088311, 3139783, 3191255, 3242727, 3294199, 3345671, 3397142, 3448614, 3500086, 3551558, 3603030, 3654502, 3705973, 3757445, 3808917, 3860389, 3911861, 3963333, 4014805, 4066276, 4117748, 4169220, 4220692, 4272164, 4323636, 4375108, 4426579, 4478051, 4529523, 4580995, 4632467, 4683939, 4735411, 4786882, 4838354, 4889826, 4941298, 4992770, 5044242, 5095714, 5147185, 5198657, 5250129, 5301601, 5353073, 5404545, 5456017, 5507488, 5558960, 5610432, 5661904, 5713376, 5764848, 5816320, 5867791, 5919263, 5970735, 6022207, 6073679, 6125151, 6176622, 6228094, 6279566, 6331038, 6382510, 6433982, 6485454, 6536925, 6588397, 6639869, 6691341, 6742813, 6794285, 6845757, 6897228, 6948700, 7000172, 7051644, 7103116, 7154588, 7206060, 7257531, 7309003, 7360475, 7411947, 7463419, 7514891, 7566363, 7617834, 7669306, 7720778, 7772250, 7823722, 7875194, 7926666, 7978137, 8029609, 8081081, 8132553, 8184025, 8235497, 8286968, 8338440, 8389912, 8441384, 8492856, 8544328, 8595800, 8647271, 8698743, 8750215, 8801687, 8853159, 8904631, 8956103, 9007574, 9059046, 9110518, 9161990, 9213462, 9264934, 9316406, 9367877, 9419349, 9470821, 9522293, 9573765, 9625237, 9676709, 9728180, 9779652, 9831124, 9882596, 9934068, 9985540, 10037012, 10088483, 10139955, 10191427, 10242899, 10294371, 10345843, 10397315, 10448786, 10500258, 10551730, 10603202, 10654674, 10706146, 10757617, 10809089, 10860561, 10912033, 10963505, 11014977, 11066449, 11117920, 11169392, 11220864, 11272336, 11323808, 11375280, 11426752, 11478223, 11529695, 11581167, 11632639, 11684111, 11735583, 11787055, 11838526, 11889998, 11941470, 11992942, 12044414, 12095886, 12147358, 12198829, 12250301, 12301773, 12353245, 12404717, 12456189, 12507661, 12559132, 12610604, 12662076, 12713548, 12765020, 12816492, 12867964, 12919435, 12970907, 13022379, 13073851, 13125323 }; };
struct tr_top_b { static constexpr int32_t shift = 21, off = 1396736; static constexpr int64_t c[256] = { 17592039145744, 17591266857158, 17589832267317, 17587735430233, 17584976424851, 17581555355046, 17577472349618, 17572727562292, 17567321171705, 17561253381404, 17554524419840, 17547134540353, 17539084021168, 17530373165383, 17521002300957, 17510971780697, 17500281982246, 17488933308071, 17476926185440, 17464261066417, 17450938427836, 17436958771286, 17422322623094, 17407030534302, 17391083080649, 17374480862548, 17357224505062, 17339314657884, 17320751995310, 17301537216212, 17281671044017, 17261154226675, 17239987536632, 17218171770803, 17195707750538, 17172596321596, 17148838354108, 17124434742548, 17099386405699, 17073694286617, 17047359352595, 17020382595128, 16992765029877, 16964507696626, 16935611659250, 16906078005666, 16875907847801, 16845102321543, 16813662586704, 16781589826972, 16748885249868, 16715550086701, 16681585592520, 16646993046071, 16611773749742, 16575929029521, 16539460234940, 16502368739030, 16464655938263, 16426323252507, 16387372124964, 16347804022123, 16307620433701, 16266822872586, 16225412874784, 16183391999358, 16140761828370, 16097523966822, 16053680042595, 16009231706388, 15964180631655, 15918528514545, 15872277073834, 15825428050862, 15777983209468, 15729944335924, 15681313238866, 15632091749229, 15582281720172, 15531885027015, 15480903567166, 15429339260047, 15377194047026, 15324469891341, 15271168778025, 15217292713836, 15162843727177, 15107823868022, 15052235207838, 14996079839505, 14939359877242, 14882077456524, 14824234734001, 14765833887418, 14706877115536, 14647366638042, 14587304695474, 14526693549128, 14465535480981, 14403832793598, 14341587810053, 14278802873832, 14215480348753, 14151622618874, 14087232088401, 14022311181603, 13956862342714, 13890888035846, 13824390744895, 13757372973446, 13689837244681, 13621786101280, 13553222105332, 13484147838232, 13414565900587, 13344478912118, 13273889511560, 13202800356565, 13131214123598, 13059133507841, 12986561223089, 12913500001647, 12839952594228, 12765921769852, 12691410315736, 12616421037195, 12540956757533, 12465020317937, 12388614577371, 12311742412469, 12234406717423, 12156610403880, 12078356400825, 11999647654479, 11920487128181, 11840877802280, 11760822674022, 11680324757438, 11599387083228, 11518012698651, 11436204667406, 11353966069518, 11271300001226, 11188209574859, 11104697918725, 11020768176991, 10936423509564, 10851667091973, 10766502115249, 10680931785806, 10594959325318, 10508587970600, 10421820973485, 10334661600700, 10247113133747, 10159178868776, 10070862116463, 9982166201883, 9893094464387, 9803650257477, 9713836948676, 9623657919403, 9533116564850, 9442216293845, 9350960528734, 9259352705245, 9167396272359, 9075094692185, 8982451439826, 8889470003246, 8796153883145, 8702506592822, 8608531658045, 8514232616916, 8419613019742, 8324676428896, 8229426418687, 8133866575225, 8038000496284, 7941831791168, 7845364080573, 7748600996455, 7651546181888, 7554203290933, 7456575988494, 7358667950183, 7260482862182, 7162024421106, 7063296333858, 6964302317496, 6865046099087, 6765531415573, 6665762013625, 6565741649504, 6465474088922, 6364963106894, 6264212487603, 6163226024253, 6062007518926, 5960560782442, 5858889634213, 5756997902102, 5654889422273, 5552568039053, 5450037604786, 5347301979683, 5244365031682, 5141230636302, 5037902676495, 4934385042499, 4830681631696, 4726796348459, 4622733104011, 4518495816275, 4414088409725, 4309514815241, 4204778969961, 4099884817128, 3994836305950, 3889637391442, 3784292034286, 3678804200673, 3573177862161, 3467416995522, 3361525582593, 3255507610126, 3149367069637, 3043107957258, 2936734273585, 2830250023526, 2723659216153, 2616965864550, 2510173985662, 2403287600141, 2296310732201, 2189247409460, 2082101662791, 1974877526171, 1867579036529, 1760210233591, 1652775159733, 1545277859825, 1437722381078, 1330112772897, 1222453086721, 1114747375878, 1006999695425, 899214102004, 791394653680, 683545409794, 575670430810, 467773778160, 359859514091, 251931701515, 143994403853, 36051684883 }, s[256] = { 71892391413, 179833761001, 287768359949, 395692124581, 503600991628, 611490898383, 719357782851, 827197583905, 935006241438, 1042779696513, 1150513891523, 1258204770335, 1365848278449, 1473440363147, 1580976973648, 1688454061259, 1795867579530, 1903213484401, 2010487734360, 2117686290592, 2224805117132, 2331840181017, 2438787452438, 2545642904889, 2652402515323, 2759062264302, 2865618136146, 2972066119087, 3078402205419, 3184622391647, 3290722678642, 3396699071788, 3502547581134, 3608264221544, 3713845012844, 3819285979979, 3924583153156, 4029732567995, 4134730265680, 4239572293108, 4344254703036, 4448773554229, 4553124911612, 4657304846416, 4761309436324, 4865134765624, 4968776925349, 5072232013432, 5175496134846, 5278565401755, 5381435933661, 5484103857545, 5586565308019, 5688816427467, 5790853366191, 5892672282559, 5994269343147, 6095640722881, 6196782605188, 6297691182132, 6398362654562, 6498793232255, 6598979134055, 6698916588021, 6798601831564, 6898031111591, 6997200684644, 7096106817047, 7194745785039, 7293113874919, 7391207383183, 7489022616667, 7586555892682, 7683803539156, 7780761894769, 7877427309095, 7973796142735, 8069864767457, 8165629566332, 8261086933868, 8356233276151, 8451065010974, 8545578567976, 8639770388774, 8733636927101, 8827174648934, 8920380032630, 9013249569060, 9105779761738, 9197967126954, 9289808193907, 9381299504832, 9472437615133, 9563219093512, 9653640522097, 9743698496572, 9833389626307, 9922710534479, 10011657858209, 10100228248679, 10188418371263, 10276224905655, 10363644545987, 10450674000960, 10537309993963, 10623549263200, 10709388561812, 10794824657998, 10879854335137, 10964474391909, 11048681642418, 11132472916307, 11215845058884, 11298794931233, 11381319410339, 11463415389202, 11545079776954, 11626309498979, 11707101497022, 11787452729310, 11867360170666, 11946820812618, 12025831663520, 12104389748656, 12182492110360, 12260135808121, 12337317918698, 12414035536229, 12490285772339, 12566065756249, 12641372634885, 12716203572986, 12790555753211, 12864426376240, 12937812660887, 13010711844201, 13083121181566, 13155037946815, 13226459432319, 13297382949102, 13367805826932, 13437725414428, 13507139079158, 13576044207735, 13644438205922, 13712318498721, 13779682530480, 13846527764979, 13912851685535, 13978651795087, 14043925616301, 14108670691653, 14172884583527, 14236564874308, 14299709166467, 14362315082659, 14424380265805, 14485902379187, 14546879106532, 14607308152100, 14667187240773, 14726514118136, 14785286550566, 14843502325314, 14901159250588, 14958255155640, 15014787890839, 15070755327760, 15126155359262, 15180985899563, 15235244884326, 15288930270729, 15342040037550, 15394572185234, 15446524735977, 15497895733794, 15548683244595, 15598885356261, 15648500178710, 15697525843971, 15745960506257, 15793802342029, 15841049550070, 15887700351549, 15933752990089, 15979205731835, 16024056865516, 16068304702514, 16111947576921, 16154983845608, 16197411888285, 16239230107559, 16280436928997, 16321030801187, 16361010195792, 16400373607611, 16439119554632, 16477246578094, 16514753242535, 16551638135851, 16587899869346, 16623537077786, 16658548419452, 16692932576184, 16726688253440, 16759814180337, 16792309109703, 16824171818122, 16855401105981, 16885995797515, 16915954740852, 16945276808053, 16973960895160, 17002005922233, 17029410833393, 17056174596860, 17082296204993, 17107774674329, 17132609045619, 17156798383860, 17180341778340, 17203238342663, 17225487214785, 17247087557049, 17268038556215, 17288339423489, 17307989394555, 17326987729603, 17345333713356, 17363026655099, 17380065888702, 17396450772647, 17412180690053, 17427255048698, 17441673281039, 17455434844240, 17468539220185, 17480985915502, 17492774461579, 17503904414584, 17514375355482, 17524186890047, 17533338648879, 17541830287422, 17549661485969, 17556831949680, 17563341408592, 17569189617626, 17574376356601, 17578901430240, 17582764668175, 17585965924959, 17588505080065, 17590382037896, 17591596727785, 17592149104000 }; };
struct tr_top_c { static constexpr int32_t shift = 21, off = 1048320; static constexpr int64_t c[256] = { 17592103292659, 17591441040765, 17590116481059, 17588129663408, 17585480662617, 17582169578418, 17578196535472, 17573561683362, 17568265196587, 17562307274557, 17555688141585, 17548408046876, 17540467264523, 17531866093491, 17522604857610, 17512683905559, 17502103610858, 17490864371848, 17478966611681, 17466410778300, 17453197344424, 17439326807534, 17424799689846, 17409616538298, 17393777924527, 17377284444849, 17360136720233, 17342335396281, 17323881143204, 17304774655793, 17285016653397, 17264607879894, 17243549103661, 17221841117552, 17199484738858, 17176480809284, 17152830194917, 17128533786187, 17103592497842, 17078007268905, 17051779062648, 17024908866547, 16997397692249, 16969246575536, 16940456576279, 16911028778408, 16880964289861, 16850264242550, 16818929792314, 16786962118877, 16754362425804, 16721131940456, 16687271913941, 16652783621070, 16617668360308, 16581927453725, 16545562246945, 16508574109098, 16470964432767, 16432734633934, 16393886151930, 16354420449378, 16314339012140, 16273643349259, 16232334992903, 16190415498310, 16147886443724, 16104749430341, 16061006082244, 16016658046345, 15971706992324, 15926154612561, 15880002622079, 15833252758474, 15785906781851, 15737966474761, 15689433642127, 15640310111185, 15590597731407, 15540298374436, 15489413934015, 15437946325914, 15385897487859, 15333269379460, 15280063982135, 15226283299038, 15171929354980, 15117004196357, 15061509891071, 15005448528450, 14948822219173, 14891633095188, 14833883309634, 14775575036758, 14716710471833, 14657291831076, 14597321351567, 14536801291158, 14475733928398, 14414121562437, 14351966512946, 14289271120027, 14226037744127, 14162268765947, 14097966586352, 14033133626284, 13967772326665, 13901885148314, 13835474571844, 13768543097576, 13701093245443, 13633127554892, 13564648584795, 13495658913346, 13426161137966, 13356157875207, 13285651760654, 13214645448821, 13143141613056, 13071142945437, 12998652156675, 12925671976005, 12852205151092, 12778254447918, 12703822650687, 12628912561713, 12553527001320, 12477668807729, 12401340836961, 12324545962720, 12247287076288, 12169567086421, 12091388919231, 12012755518082, 11933669843478, 11854134872949, 11774153600942, 11693729038707, 11612864214183, 11531562171884, 11449825972788, 11367658694215, 11285063429718, 11202043288960, 11118601397605, 11034740897190, 10950464945018, 10865776714030, 10780679392690, 10695176184865, 10609270309700, 10522965001505, 10436263509626, 10349169098323, 10261685046654, 10173814648342, 10085561211660, 9996928059298, 9907918528245, 9818535969659, 9728783748743, 9638665244618, 9548183850195, 9457342972046, 9366146030279, 9274596458409, 9182697703223, 9090453224659, 8997866495669, 8904941002092, 8811680242518, 8718087728164, 8624166982734, 8529921542292, 8435354955125, 8340470781612, 8245272594087, 8149763976710, 8053948525325, 7957829847331, 7861411561540, 7764697298048, 7667690698091, 7570395413912, 7472815108626, 7374953456074, 7276814140693, 7178400857372, 7079717311316, 6980767217905, 6881554302554, 6782082300573, 6682354957026, 6582376026592, 6482149273421, 6381678470994, 6280967401979, 6180019858092, 6078839639949, 5977430556931, 5875796427030, 5773941076714, 5671868340781, 5569582062210, 5467086092023, 5364384289134, 5261480520209, 5158378659516, 5055082588782, 4951596197045, 4847923380511, 4744068042401, 4640034092811, 4535825448560, 4431446033044, 4326899776090, 4222190613804, 4117322488429, 4012299348189, 3907125147146, 3801803845050, 3696339407188, 3590735804236, 3484997012111, 3379127011818, 3273129789303, 3167009335301, 3060769645188, 2954414718828, 2847948560423, 2741375178365, 2634698585081, 2527922796884, 2421051833822, 2314089719528, 2207040481063, 2099908148772, 1992696756126, 1885410339573, 1778052938387, 1670628594512, 1563141352415, 1455595258930, 1347994363106, 1240342716056, 1132644370803, 1024903382131, 917123806425, 809309701526, 701465126575, 593594141858, 485700808657, 377789189095, 269863345983, 161927342670, 53985242883 }, s[256] = { 53958889418, 161900990197, 269836995495, 377762841583, 485674465113, 593567803274, 701438793943, 809283375838, 917097488671, 1024877073302, 1132618071890, 1240316428048, 1347968086994, 1455568995703, 1563115103062, 1670602360021, 1778026719745, 1885384137769, 1992670572145, 2099881983600, 2207014335686, 2314063594929, 2421025730985, 2527896716792, 2634672528715, 2741349146708, 2847922554454, 2954388739525, 3060743693531, 3166983412266, 3273103895866, 3379101148954, 3484971180794, 3590710005438, 3696313641880, 3801778114203, 3907099451729, 4012273689168, 4117296866771, 4222165030474, 4326874232050, 4431420529257, 4535799985985, 4640008672408, 4744042665126, 4847898047320, 4951570908892, 5055057346618, 5158353464292, 5261455372874, 5364359190634, 5467061043303, 5569557064214, 5671843394449, 5773916182986, 5875771586843, 5977405771220, 6078814909648, 6179995184131, 6280942785288, 6381653912499, 6482124774047, 6582351587261, 6682330578658, 6782057984086, 6881530048864, 6980743027925, 7079693185957, 7178376797541, 7276790147297, 7374929530016, 7472791250807, 7570371625231, 7667666979441, 7764673650324, 7861387985633, 7957806344127, 8053925095710, 8149740621566, 8245249314293, 8340447578044, 8435331828657, 8529898493795, 8624144013076, 8718064838208, 8811657433128, 8904918274125, 8997843849982, 9090430662104, 9182675224650, 9274574064663, 9366123722205, 9457320750482, 9548161715979, 9638643198583, 9728761791719, 9818514102472, 9907896751719, 9996906374253, 10085539618912, 10173793148705, 10261663640936, 10349147787331, 10436242294161, 10522943882367, 10609249287684, 10695155260761, 10780658567288, 10865755988113, 10950444319366, 11034720372580, 11118580974809, 11202022968748, 11285043212854, 11367638581461, 11449805964901, 11531542269618, 11612844418285, 11693709349924, 11774134020016, 11854115400616, 11933650480471, 12012736265131, 12091369777060, 12169548055751, 12247268157836, 12324527157197, 12401322145076, 12477650230186, 12553508538817, 12628894214947, 12703804420348, 12778236334692, 12852187155661, 12925654099047, 12998634398862, 13071125307439, 13143124095536, 13214628052439, 13285634486065, 13356140723061, 13426144108908, 13495642008018, 13564631803835, 13633110898930, 13701076715106, 13768526693487, 13835458294620, 13901868998569, 13967756305007, 14033117733314, 14097950822671, 14162253132147, 14226022240797, 14289255747751, 14351951272302, 14414106453999, 14475718952735, 14536786448834, 14597306643140, 14657277257101, 14716696032858, 14775560733327, 14833869142285, 14891619064455, 14948808325583, 15005434772527, 15061496273333, 15116990717317, 15171916015145, 15226270098910, 15280050922212, 15333256460232, 15385884709814, 15437933689532, 15489401439772, 15540286022803, 15590585522849, 15640298046161, 15689421721092, 15737954698163, 15785895150134, 15833241272076, 15879991281432, 15926143418092, 15971695944454, 16016647145491, 16060995328815, 16104738824743, 16147875986357, 16190405189567, 16232324833172, 16273633338921, 16314329151574, 16354410738954, 16393876592014, 16432725224886, 16470955174942, 16508565002844, 16545553292605, 16581918651635, 16617659710801, 16652775124471, 16687263570569, 16721123750626, 16754354389825, 16786954237050, 16818922064936, 16850256669913, 16880956872250, 16911021516101, 16940449469551, 16969239624653, 16997390897474, 17024902228135, 17051772580850, 17078000943964, 17103586329996, 17128527775669, 17152824341953, 17176475114094, 17199479201657, 17221835738548, 17243543883057, 17264602817886, 17285011750176, 17304769911543, 17323876558104, 17342330970504, 17360132453945, 17377280338211, 17393773977694, 17409612751418, 17424796063062, 17439323340982, 17453194038235, 17466407632598, 17478963626585, 17490861547470, 17502100947305, 17512681402930, 17522602516000, 17531863912988, 17540465245209, 17548406188827, 17555686444871, 17562305739243, 17568263822730, 17573560471013, 17578195484678, 17582168689217, 17585479935043, 17588129097489, 17590116076815, 17591440798213, 17592103211808 }; };
struct tr_mid_b { static constexpr int32_t shift = 13, off = 356515840; static constexpr int64_t c[256] = { 8858340927007, 8857976623890, 8857612315684, 8857248002390, 8856883684007, 8856519360536, 8856155031977, 8855790698331, 8855426359596, 8855062015775, 8854697666866, 8854333312871, 8853968953789, 8853604589620, 8853240220365, 8852875846024, 8852511466597, 8852147082084, 8851782692486, 8851418297803, 8851053898035, 8850689493182, 8850325083244, 8849960668222, 8849596248116, 8849231822925, 8848867392651, 8848502957294, 8848138516853, 8847774071329, 8847409620722, 8847045165032, 8846680704260, 8846316238406, 8845951767469, 8845587291451, 8845222810350, 8844858324169, 8844493832906, 8844129336562, 8843764835137, 8843400328632, 8843035817046, 8842671300380, 8842306778634, 8841942251809, 8841577719903, 8841213182919, 8840848640855, 8840484093712, 8840119541490, 8839754984190, 8839390421812, 8839025854356, 8838661281821, 8838296704209, 8837932121519, 8837567533753, 8837202940909, 8836838342988, 8836473739991, 8836109131917, 8835744518767, 8835379900540, 8835015277239, 8834650648861, 8834286015408, 8833921376880, 8833556733277, 8833192084599, 8832827430847, 8832462772020, 8832098108119, 8831733439145, 8831368765096, 8831004085974, 8830639401779, 8830274712511, 8829910018170, 8829545318756, 8829180614269, 8828815904711, 8828451190080, 8828086470378, 8827721745604, 8827357015758, 8826992280842, 8826627540854, 8826262795795, 8825898045666, 8825533290467, 8825168530198, 8824803764858, 8824438994449, 8824074218970, 8823709438422, 8823344652805, 8822979862119, 8822615066364, 8822250265541, 8821885459650, 8821520648690, 8821155832663, 8820791011568, 8820426185406, 8820061354176, 8819696517879, 8819331676516, 8818966830086, 8818601978590, 8818237122027, 8817872260399, 8817507393704, 8817142521945, 8816777645119, 8816412763229, 8816047876274, 8815682984254, 8815318087170, 8814953185021, 8814588277809, 8814223365532, 8813858448192, 8813493525788, 8813128598321, 8812763665791, 8812398728199, 8812033785543, 8811668837825, 8811303885046, 8810938927204, 8810573964300, 8810208996335, 8809844023308, 8809479045220, 8809114062072, 8808749073862, 8808384080593, 8808019082262, 8807654078872, 8807289070422, 8806924056912, 8806559038343, 8806194014715, 8805828986027, 8805463952281, 8805098913476, 8804733869612, 8804368820691, 8804003766711, 8803638707674, 8803273643579, 8802908574426, 8802543500217, 8802178420950, 8801813336627, 8801448247248, 8801083152812, 8800718053320, 8800352948772, 8799987839168, 8799622724509, 8799257604794, 8798892480025, 8798527350201, 8798162215322, 8797797075388, 8797431930401, 8797066780359, 8796701625264, 8796336465115, 8795971299912, 8795606129657, 8795240954348, 8794875773987, 8794510588573, 8794145398107, 8793780202589, 8793415002019, 8793049796397, 8792684585724, 8792319369999, 8791954149224, 8791588923397, 8791223692520, 8790858456592, 8790493215614, 8790127969587, 8789762718509, 8789397462382, 8789032201205, 8788666934979, 8788301663704, 8787936387381, 8787571106009, 8787205819588, 8786840528120, 8786475231603, 8786109930039, 8785744623427, 8785379311768, 8785013995062, 8784648673309, 8784283346509, 8783918014663, 8783552677771, 8783187335832, 8782821988848, 8782456636818, 8782091279743, 8781725917623, 8781360550457, 8780995178247, 8780629800993, 8780264418693, 8779899031350, 8779533638963, 8779168241532, 8778802839058, 8778437431540, 8778072018979, 8777706601376, 8777341178729, 8776975751040, 8776610318309, 8776244880536, 8775879437721, 8775513989865, 8775148536967, 8774783079027, 8774417616047, 8774052148026, 8773686674965, 8773321196863, 8772955713721, 8772590225539, 8772224732317, 8771859234056, 8771493730755, 8771128222415, 8770762709037, 8770397190619, 8770031667164, 8769666138670, 8769300605137, 8768935066568, 8768569522960, 8768203974315, 8767838420633, 8767472861914, 8767107298158, 8766741729365, 8766376155536, 8766010576671, 8765644992770, 8765279403833 }, s[256] = { 15199171222216, 15199383538550, 15199595846153, 15199808145023, 15200020435161, 15200232716567, 15200444989241, 15200657253182, 15200869508390, 15201081754866, 15201293992609, 15201506221619, 15201718441896, 15201930653440, 15202142856251, 15202355050328, 15202567235672, 15202779412282, 15202991580158, 15203203739300, 15203415889708, 15203628031382, 15203840164322, 15204052288527, 15204264403998, 15204476510734, 15204688608736, 15204900698002, 15205112778534, 15205324850330, 15205536913391, 15205748967717, 15205961013307, 15206173050162, 15206385078281, 15206597097664, 15206809108311, 15207021110222, 15207233103396, 15207445087835, 15207657063536, 15207869030502, 15208080988730, 15208292938222, 15208504878977, 15208716810994, 15208928734275, 15209140648818, 15209352554624, 15209564451692, 15209776340022, 15209988219615, 15210200090470, 15210411952586, 15210623805965, 15210835650605, 15211047486507, 15211259313670, 15211471132094, 15211682941780, 15211894742727, 15212106534935, 15212318318403, 15212530093133, 15212741859123, 15212953616373, 15213165364884, 15213377104655, 15213588835686, 15213800557978, 15214012271529, 15214223976339, 15214435672410, 15214647359740, 15214859038329, 15215070708178, 15215282369286, 15215494021652, 15215705665278, 15215917300163, 15216128926306, 15216340543707, 15216552152367, 15216763752286, 15216975343462, 15217186925897, 15217398499589, 15217610064540, 15217821620748, 15218033168213, 15218244706937, 15218456236917, 15218667758154, 15218879270649, 15219090774401, 15219302269409, 15219513755674, 15219725233196, 15219936701974, 15220148162009, 15220359613300, 15220571055847, 15220782489649, 15220993914708, 15221205331023, 15221416738593, 15221628137418, 15221839527499, 15222050908836, 15222262281427, 15222473645274, 15222685000375, 15222896346731, 15223107684342, 15223319013207, 15223530333327, 15223741644701, 15223952947329, 15224164241211, 15224375526347, 15224586802737, 15224798070380, 15225009329277, 15225220579428, 15225431820832, 15225643053489, 15225854277399, 15226065492562, 15226276698978, 15226487896647, 15226699085568, 15226910265742, 15227121437168, 15227332599846, 15227543753776, 15227754898958, 15227966035393, 15228177163079, 15228388282016, 15228599392205, 15228810493646, 15229021586337, 15229232670280, 15229443745474, 15229654811918, 15229865869614, 15230076918560, 15230287958757, 15230498990204, 15230710012901, 15230921026848, 15231132032046, 15231343028493, 15231554016191, 15231764995138, 15231975965334, 15232186926780, 15232397879475, 15232608823420, 15232819758613, 15233030685055, 15233241602747, 15233452511687, 15233663411875, 15233874303312, 15234085185998, 15234296059931, 15234506925113, 15234717781542, 15234928629220, 15235139468145, 15235350298318, 15235561119738, 15235771932406, 15235982736321, 15236193531483, 15236404317892, 15236615095549, 15236825864451, 15237036624601, 15237247375997, 15237458118639, 15237668852528, 15237879577663, 15238090294043, 15238301001670, 15238511700543, 15238722390661, 15238933072025, 15239143744634, 15239354408489, 15239565063589, 15239775709933, 15239986347523, 15240196976358, 15240407596437, 15240618207761, 15240828810330, 15241039404142, 15241249989199, 15241460565500, 15241671133045, 15241881691834, 15242092241867, 15242302783143, 15242513315663, 15242723839426, 15242934354433, 15243144860682, 15243355358175, 15243565846911, 15243776326889, 15243986798110, 15244197260573, 15244407714279, 15244618159227, 15244828595418, 15245039022850, 15245249441524, 15245459851440, 15245670252598, 15245880644998, 15246091028638, 15246301403521, 15246511769644, 15246722127008, 15246932475614, 15247142815460, 15247353146547, 15247563468875, 15247773782443, 15247984087251, 15248194383300, 15248404670588, 15248614949117, 15248825218886, 15249035479894, 15249245732142, 15249455975630, 15249666210357, 15249876436323, 15250086653528, 15250296861973, 15250507061656, 15250717252578, 15250927434739, 15251137608138, 15251347772776, 15251557928652, 15251768075766, 15251978214118, 15252188343708, 15252398464537, 15252608576602, 15252818679906, 15253028774446 }; };
struct tr_small { static constexpr int32_t shift = 8, off = 0; static constexpr int64_t c[256] = { 17592186044416, 17592186044411, 17592186044396, 17592186044372, 17592186044337, 17592186044293, 17592186044238, 17592186044174, 17592186044100, 17592186044016, 17592186043923, 17592186043819, 17592186043705, 17592186043582, 17592186043449, 17592186043306, 17592186043153, 17592186042990, 17592186042817, 17592186042635, 17592186042442, 17592186042240, 17592186042028, 17592186041805, 17592186041574, 17592186041332, 17592186041080, 17592186040819, 17592186040547, 17592186040266, 17592186039975, 17592186039674, 17592186039363, 17592186039042, 17592186038711, 17592186038371, 17592186038020, 17592186037660, 17592186037290, 17592186036910, 17592186036520, 17592186036121, 17592186035711, 17592186035292, 17592186034862, 17592186034423, 17592186033974, 17592186033515, 17592186033046, 17592186032568, 17592186032079, 17592186031581, 17592186031072, 17592186030554, 17592186030026, 17592186029488, 17592186028940, 17592186028383, 17592186027815, 17592186027238, 17592186026651, 17592186026054, 17592186025447, 17592186024830, 17592186024203, 17592186023566, 17592186022920, 17592186022264, 17592186021597, 17592186020921, 17592186020235, 17592186019540, 17592186018834, 17592186018118, 17592186017393, 17592186016658, 17592186015913, 17592186015158, 17592186014393, 17592186013618, 17592186012833, 17592186012039, 17592186011234, 17592186010420, 17592186009596, 17592186008762, 17592186007918, 17592186007064, 17592186006201, 17592186005327, 17592186004444, 17592186003551, 17592186002648, 17592186001735, 17592186000812, 17592185999879, 17592185998937, 17592185997984, 17592185997022, 17592185996050, 17592185995068, 17592185994076, 17592185993074, 17592185992063, 17592185991041, 17592185990010, 17592185988969, 17592185987917, 17592185986856, 17592185985786, 17592185984705, 17592185983614, 17592185982514, 17592185981404, 17592185980283, 17592185979153, 17592185978013, 17592185976863, 17592185975704, 17592185974534, 17592185973355, 17592185972166, 17592185970966, 17592185969757, 17592185968538, 17592185967310, 17592185966071, 17592185964823, 17592185963564, 17592185962296, 17592185961018, 17592185959730, 17592185958432, 17592185957124, 17592185955807, 17592185954479, 17592185953142, 17592185951795, 17592185950438, 17592185949071, 17592185947694, 17592185946307, 17592185944911, 17592185943504, 17592185942088, 17592185940662, 17592185939226, 17592185937780, 17592185936324, 17592185934858, 17592185933383, 17592185931898, 17592185930402, 17592185928897, 17592185927382, 17592185925857, 17592185924323, 17592185922778, 17592185921224, 17592185919659, 17592185918085, 17592185916501, 17592185914907, 17592185913303, 17592185911690, 17592185910066, 17592185908433, 17592185906789, 17592185905136, 17592185903473, 17592185901800, 17592185900117, 17592185898425, 17592185896722, 17592185895010, 17592185893288, 17592185891556, 17592185889814, 17592185888062, 17592185886300, 17592185884528, 17592185882747, 17592185880956, 17592185879154, 17592185877343, 17592185875522, 17592185873692, 17592185871851, 17592185870000, 17592185868140, 17592185866270, 17592185864389, 17592185862499, 17592185860600, 17592185858690, 17592185856770, 17592185854841, 17592185852901, 17592185850952, 17592185848993, 17592185847024, 17592185845045, 17592185843056, 17592185841058, 17592185839049, 17592185837031, 17592185835003, 17592185832965, 17592185830917, 17592185828859, 17592185826791, 17592185824714, 17592185822626, 17592185820529, 17592185818422, 17592185816305, 17592185814178, 17592185812041, 17592185809894, 17592185807738, 17592185805572, 17592185803395, 17592185801209, 17592185799013, 17592185796807, 17592185794592, 17592185792366, 17592185790131, 17592185787885, 17592185785630, 17592185783365, 17592185781090, 17592185778805, 17592185776511, 17592185774206, 17592185771892, 17592185769567, 17592185767233, 17592185764889, 17592185762535, 17592185760171, 17592185757798, 17592185755414, 17592185753021, 17592185750618, 17592185748204, 17592185745782, 17592185743349, 17592185740906, 17592185738453, 17592185735991, 17592185733519, 17592185731036, 17592185728544, 17592185726042, 17592185723530 }, s[256] = { 0, 13176795, 26353589, 39530384, 52707179, 65883973, 79060768, 92237562, 105414357, 118591152, 131767946, 144944741, 158121536, 171298330, 184475125, 197651919, 210828714, 224005509, 237182303, 250359098, 263535893, 276712687, 289889482, 303066277, 316243071, 329419866, 342596660, 355773455, 368950250, 382127044, 395303839, 408480634, 421657428, 434834223, 448011017, 461187812, 474364607, 487541401, 500718196, 513894991, 527071785, 540248580, 553425375, 566602169, 579778964, 592955758, 606132553, 619309348, 632486142, 645662937, 658839732, 672016526, 685193321, 698370115, 711546910, 724723705, 737900499, 751077294, 764254088, 777430883, 790607678, 803784472, 816961267, 830138062, 843314856, 856491651, 869668445, 882845240, 896022035, 909198829, 922375624, 935552419, 948729213, 961906008, 975082802, 988259597, 1001436392, 1014613186, 1027789981, 1040966775, 1054143570, 1067320365, 1080497159, 1093673954, 1106850748, 1120027543, 1133204338, 1146381132, 1159557927, 1172734721, 1185911516, 1199088311, 1212265105, 1225441900, 1238618695, 1251795489, 1264972284, 1278149078, 1291325873, 1304502668, 1317679462, 1330856257, 1344033051, 1357209846, 1370386640, 1383563435, 1396740230, 1409917024, 1423093819, 1436270613, 1449447408, 1462624203, 1475800997, 1488977792, 1502154586, 1515331381, 1528508176, 1541684970, 1554861765, 1568038559, 1581215354, 1594392148, 1607568943, 1620745738, 1633922532, 1647099327, 1660276121, 1673452916, 1686629710, 1699806505, 1712983300, 1726160094, 1739336889, 1752513683, 1765690478, 1778867272, 1792044067, 1805220862, 1818397656, 1831574451, 1844751245, 1857928040, 1871104834, 1884281629, 1897458424, 1910635218, 1923812013, 1936988807, 1950165602, 1963342396, 1976519191, 1989695985, 2002872780, 2016049574, 2029226369, 2042403164, 2055579958, 2068756753, 2081933547, 2095110342, 2108287136, 2121463931, 2134640725, 2147817520, 2160994314, 2174171109, 2187347903, 2200524698, 2213701493, 2226878287, 2240055082, 2253231876, 2266408671, 2279585465, 2292762260, 2305939054, 2319115849, 2332292643, 2345469438, 2358646232, 2371823027, 2384999821, 2398176616, 2411353410, 2424530205, 2437706999, 2450883794, 2464060588, 2477237383, 2490414177, 2503590972, 2516767766, 2529944561, 2543121355, 2556298150, 2569474944, 2582651739, 2595828533, 2609005328, 2622182122, 2635358917, 2648535711, 2661712506, 2674889300, 2688066095, 2701242889, 2714419684, 2727596478, 2740773273, 2753950067, 2767126862, 2780303656, 2793480451, 2806657245, 2819834039, 2833010834, 2846187628, 2859364423, 2872541217, 2885718012, 2898894806, 2912071601, 2925248395, 2938425190, 2951601984, 2964778778, 2977955573, 2991132367, 3004309162, 3017485956, 3030662751, 3043839545, 3057016340, 3070193134, 3083369928, 3096546723, 3109723517, 3122900312, 3136077106, 3149253901, 3162430695, 3175607489, 3188784284, 3201961078, 3215137873, 3228314667, 3241491461, 3254668256, 3267845050, 3281021845, 3294198639, 3307375433, 3320552228, 3333729022, 3346905817, 3360082611 }; };
struct tr_near90 { static constexpr int32_t shift = 8, off = 536805376; static constexpr int64_t c[256] = { 3373259405, 3360082611, 3346905817, 3333729022, 3320552228, 3307375433, 3294198639, 3281021845, 3267845050, 3254668256, 3241491461, 3228314667, 3215137873, 3201961078, 3188784284, 3175607489, 3162430695, 3149253901, 3136077106, 3122900312, 3109723517, 3096546723, 3083369928, 3070193134, 3057016340, 3043839545, 3030662751, 3017485956, 3004309162, 2991132367, 2977955573, 2964778778, 2951601984, 2938425190, 2925248395, 2912071601, 2898894806, 2885718012, 2872541217, 2859364423, 2846187628, 2833010834, 2819834039, 2806657245, 2793480451, 2780303656, 2767126862, 2753950067, 2740773273, 2727596478, 2714419684, 2701242889, 2688066095, 2674889300, 2661712506, 2648535711, 2635358917, 2622182122, 2609005328, 2595828533, 2582651739, 2569474944, 2556298150, 2543121355, 2529944561, 2516767766, 2503590972, 2490414177, 2477237383, 2464060588, 2450883794, 2437706999, 2424530205, 2411353410, 2398176616, 2384999821, 2371823027, 2358646232, 2345469438, 2332292643, 2319115849, 2305939054, 2292762260, 2279585465, 2266408671, 2253231876, 2240055082, 2226878287, 2213701493, 2200524698, 2187347903, 2174171109, 2160994314, 2147817520, 2134640725, 2121463931, 2108287136, 2095110342, 2081933547, 2068756753, 2055579958, 2042403164, 2029226369, 2016049574, 2002872780, 1989695985, 1976519191, 1963342396, 1950165602, 1936988807, 1923812013, 1910635218, 1897458424, 1884281629, 1871104834, 1857928040, 1844751245, 1831574451, 1818397656, 1805220862, 1792044067, 1778867272, 1765690478, 1752513683, 1739336889, 1726160094, 1712983300, 1699806505, 1686629710, 1673452916, 1660276121, 1647099327, 1633922532, 1620745738, 1607568943, 1594392148, 1581215354, 1568038559, 1554861765, 1541684970, 1528508176, 1515331381, 1502154586, 1488977792, 1475800997, 1462624203, 1449447408, 1436270613, 1423093819, 1409917024, 1396740230, 1383563435, 1370386640, 1357209846, 1344033051, 1330856257, 1317679462, 1304502668, 1291325873, 1278149078, 1264972284, 1251795489, 1238618695, 1225441900, 1212265105, 1199088311, 1185911516, 1172734721, 1159557927, 1146381132, 1133204338, 1120027543, 1106850748, 1093673954, 1080497159, 1067320365, 1054143570, 1040966775, 1027789981, 1014613186, 1001436392, 988259597, 975082802, 961906008, 948729213, 935552419, 922375624, 909198829, 896022035, 882845240, 869668445, 856491651, 843314856, 830138062, 816961267, 803784472, 790607678, 777430883, 764254088, 751077294, 737900499, 724723705, 711546910, 698370115, 685193321, 672016526, 658839732, 645662937, 632486142, 619309348, 606132553, 592955758, 579778964, 566602169, 553425375, 540248580, 527071785, 513894991, 500718196, 487541401, 474364607, 461187812, 448011017, 434834223, 421657428, 408480634, 395303839, 382127044, 368950250, 355773455, 342596660, 329419866, 316243071, 303066277, 289889482, 276712687, 263535893, 250359098, 237182303, 224005509, 210828714, 197651919, 184475125, 171298330, 158121536, 144944741, 131767946, 118591152, 105414357, 92237562, 79060768, 65883973, 52707179, 39530384, 26353589, 13176795 }, s[256] = { 17592185721009, 17592185723530, 17592185726042, 17592185728544, 17592185731036, 17592185733519, 17592185735991, 17592185738453, 17592185740906, 17592185743349, 17592185745782, 17592185748204, 17592185750618, 17592185753021, 17592185755414, 17592185757798, 17592185760171, 17592185762535, 17592185764889, 17592185767233, 17592185769567, 17592185771892, 17592185774206, 17592185776511, 17592185778805, 17592185781090, 17592185783365, 17592185785630, 17592185787885, 17592185790131, 17592185792366, 17592185794592, 17592185796807, 17592185799013, 17592185801209, 17592185803395, 17592185805572, 17592185807738, 17592185809894, 17592185812041, 17592185814178, 17592185816305, 17592185818422, 17592185820529, 17592185822626, 17592185824714, 17592185826791, 17592185828859, 17592185830917, 17592185832965, 17592185835003, 17592185837031, 17592185839049, 17592185841058, 17592185843056, 17592185845045, 17592185847024, 17592185848993, 17592185850952, 17592185852901, 17592185854841, 17592185856770, 17592185858690, 17592185860600, 17592185862499, 17592185864389, 17592185866270, 17592185868140, 17592185870000, 17592185871851, 17592185873692, 17592185875522, 17592185877343, 17592185879154, 17592185880956, 17592185882747, 17592185884528, 17592185886300, 17592185888062, 17592185889814, 17592185891556, 17592185893288, 17592185895010, 17592185896722, 17592185898425, 17592185900117, 17592185901800, 17592185903473, 17592185905136, 17592185906789, 17592185908433, 17592185910066, 17592185911690, 17592185913303, 17592185914907, 17592185916501, 17592185918085, 17592185919659, 17592185921224, 17592185922778, 17592185924323, 17592185925857, 17592185927382, 17592185928897, 17592185930402, 17592185931898, 17592185933383, 17592185934858, 17592185936324, 17592185937780, 17592185939226, 17592185940662, 17592185942088, 17592185943504, 17592185944911, 17592185946307, 17592185947694, 17592185949071, 17592185950438, 17592185951795, 17592185953142, 17592185954479, 17592185955807, 17592185957124, 17592185958432, 17592185959730, 17592185961018, 17592185962296, 17592185963564, 17592185964823, 17592185966071, 17592185967310, 17592185968538, 17592185969757, 17592185970966, 17592185972166, 17592185973355, 17592185974534, 17592185975704, 17592185976863, 17592185978013, 17592185979153, 17592185980283, 17592185981404, 17592185982514, 17592185983614, 17592185984705, 17592185985786, 17592185986856, 17592185987917, 17592185988969, 17592185990010, 17592185991041, 17592185992063, 17592185993074, 17592185994076, 17592185995068, 17592185996050, 17592185997022, 17592185997984, 17592185998937, 17592185999879, 17592186000812, 17592186001735, 17592186002648, 17592186003551, 17592186004444, 17592186005327, 17592186006201, 17592186007064, 17592186007918, 17592186008762, 17592186009596, 17592186010420, 17592186011234, 17592186012039, 17592186012833, 17592186013618, 17592186014393, 17592186015158, 17592186015913, 17592186016658, 17592186017393, 17592186018118, 17592186018834, 17592186019540, 17592186020235, 17592186020921, 17592186021597, 17592186022264, 17592186022920, 17592186023566, 17592186024203, 17592186024830, 17592186025447, 17592186026054, 17592186026651, 17592186027238, 17592186027815, 17592186028383, 17592186028940, 17592186029488, 17592186030026, 17592186030554, 17592186031072, 17592186031581, 17592186032079, 17592186032568, 17592186033046, 17592186033515, 17592186033974, 17592186034423, 17592186034862, 17592186035292, 17592186035711, 17592186036121, 17592186036520, 17592186036910, 17592186037290, 17592186037660, 17592186038020, 17592186038371, 17592186038711, 17592186039042, 17592186039363, 17592186039674, 17592186039975, 17592186040266, 17592186040547, 17592186040819, 17592186041080, 17592186041332, 17592186041574, 17592186041805, 17592186042028, 17592186042240, 17592186042442, 17592186042635, 17592186042817, 17592186042990, 17592186043153, 17592186043306, 17592186043449, 17592186043582, 17592186043705, 17592186043819, 17592186043923, 17592186044016, 17592186044100, 17592186044174, 17592186044238, 17592186044293, 17592186044337, 17592186044372, 17592186044396, 17592186044411 }; };
struct tr_near45 { static constexpr int32_t shift = 8, off = 268402688; static constexpr int64_t c[256] = { 12440746618037, 12440737301526, 12440727985008, 12440718668483, 12440709351951, 12440700035412, 12440690718866, 12440681402313, 12440672085753, 12440662769186, 12440653452613, 12440644136032, 12440634819444, 12440625502849, 12440616186248, 12440606869639, 12440597553023, 12440588236401, 12440578919771, 12440569603134, 12440560286491, 12440550969840, 12440541653183, 12440532336518, 12440523019847, 12440513703168, 12440504386483, 12440495069790, 12440485753091, 12440476436384, 12440467119671, 12440457802950, 12440448486223, 12440439169489, 12440429852747, 12440420535999, 12440411219244, 12440401902482, 12440392585712, 12440383268936, 12440373952153, 12440364635363, 12440355318566, 12440346001762, 12440336684950, 12440327368132, 12440318051307, 12440308734475, 12440299417636, 12440290100790, 12440280783937, 12440271467077, 12440262150210, 12440252833336, 12440243516456, 12440234199568, 12440224882673, 12440215565771, 12440206248862, 12440196931946, 12440187615024, 12440178298094, 12440168981157, 12440159664213, 12440150347263, 12440141030305, 12440131713340, 12440122396369, 12440113079390, 12440103762405, 12440094445412, 12440085128412, 12440075811406, 12440066494392, 12440057177372, 12440047860344, 12440038543310, 12440029226269, 12440019909220, 12440010592165, 12440001275102, 12439991958033, 12439982640957, 12439973323873, 12439964006783, 12439954689686, 12439945372582, 12439936055471, 12439926738352, 12439917421227, 12439908104095, 12439898786956, 12439889469810, 12439880152657, 12439870835497, 12439861518330, 12439852201156, 12439842883975, 12439833566787, 12439824249592, 12439814932390, 12439805615181, 12439796297965, 12439786980742, 12439777663512, 12439768346275, 12439759029031, 12439749711781, 12439740394523, 12439731077258, 12439721759986, 12439712442708, 12439703125422, 12439693808129, 12439684490830, 12439675173523, 12439665856209, 12439656538889, 12439647221561, 12439637904227, 12439628586885, 12439619269537, 12439609952181, 12439600634819, 12439591317449, 12439582000073, 12439572682690, 12439563365299, 12439554047902, 12439544730498, 12439535413086, 12439526095668, 12439516778243, 12439507460810, 12439498143371, 12439488825925, 12439479508472, 12439470191012, 12439460873545, 12439451556070, 12439442238589, 12439432921101, 12439423603606, 12439414286104, 12439404968595, 12439395651079, 12439386333556, 12439377016026, 12439367698489, 12439358380945, 12439349063395, 12439339745837, 12439330428272, 12439321110700, 12439311793121, 12439302475535, 12439293157943, 12439283840343, 12439274522736, 12439265205123, 12439255887502, 12439246569874, 12439237252240, 12439227934598, 12439218616949, 12439209299294, 12439199981631, 12439190663962, 12439181346285, 12439172028602, 12439162710911, 12439153393214, 12439144075509, 12439134757798, 12439125440080, 12439116122354, 12439106804622, 12439097486883, 12439088169136, 12439078851383, 12439069533623, 12439060215856, 12439050898082, 12439041580300, 12439032262512, 12439022944717, 12439013626915, 12439004309106, 12438994991290, 12438985673467, 12438976355637, 12438967037800, 12438957719956, 12438948402105, 12438939084247, 12438929766382, 12438920448510, 12438911130631, 12438901812745, 12438892494852, 12438883176953, 12438873859046, 12438864541132, 12438855223211, 12438845905284, 12438836587349, 12438827269407, 12438817951458, 12438808633503, 12438799315540, 12438789997571, 12438780679594, 12438771361610, 12438762043620, 12438752725622, 12438743407618, 12438734089606, 12438724771588, 12438715453563, 12438706135530, 12438696817491, 12438687499444, 12438678181391, 12438668863331, 12438659545263, 12438650227189, 12438640909108, 12438631591020, 12438622272924, 12438612954822, 12438603636713, 12438594318597, 12438585000474, 12438575682344, 12438566364207, 12438557046063, 12438547727912, 12438538409754, 12438529091589, 12438519773417, 12438510455238, 12438501137052, 12438491818859, 12438482500659, 12438473182452, 12438463864238, 12438454546017, 12438445227790, 12438435909555, 12438426591313, 12438417273064, 12438407954809, 12438398636546, 12438389318276, 12438380000000, 12438370681716 }, s[256] = { 12438361363425, 12438370681716, 12438380000000, 12438389318276, 12438398636546, 12438407954809, 12438417273064, 12438426591313, 12438435909555, 12438445227790, 12438454546017, 12438463864238, 12438473182452, 12438482500659, 12438491818859, 12438501137052, 12438510455238, 12438519773417, 12438529091589, 12438538409754, 12438547727912, 12438557046063, 12438566364207, 12438575682344, 12438585000474, 12438594318597, 12438603636713, 12438612954822, 12438622272924, 12438631591020, 12438640909108, 12438650227189, 12438659545263, 12438668863331, 12438678181391, 12438687499444, 12438696817491, 12438706135530, 12438715453563, 12438724771588, 12438734089606, 12438743407618, 12438752725622, 12438762043620, 12438771361610, 12438780679594, 12438789997571, 12438799315540, 12438808633503, 12438817951458, 12438827269407, 12438836587349, 12438845905284, 12438855223211, 12438864541132, 12438873859046, 12438883176953, 12438892494852, 12438901812745, 12438911130631, 12438920448510, 12438929766382, 12438939084247, 12438948402105, 12438957719956, 12438967037800, 12438976355637, 12438985673467, 12438994991290, 12439004309106, 12439013626915, 12439022944717, 12439032262512, 12439041580300, 12439050898082, 12439060215856, 12439069533623, 12439078851383, 12439088169136, 12439097486883, 12439106804622, 12439116122354, 12439125440080, 12439134757798, 12439144075509, 12439153393214, 12439162710911, 12439172028602, 12439181346285, 12439190663962, 12439199981631, 12439209299294, 12439218616949, 12439227934598, 12439237252240, 12439246569874, 12439255887502, 12439265205123, 12439274522736, 12439283840343, 12439293157943, 12439302475535, 12439311793121, 12439321110700, 12439330428272, 12439339745837, 12439349063395, 12439358380945, 12439367698489, 12439377016026, 12439386333556, 12439395651079, 12439404968595, 12439414286104, 12439423603606, 12439432921101, 12439442238589, 12439451556070, 12439460873545, 12439470191012, 12439479508472, 12439488825925, 12439498143371, 12439507460810, 12439516778243, 12439526095668, 12439535413086, 12439544730498, 12439554047902, 12439563365299, 12439572682690, 12439582000073, 12439591317449, 12439600634819, 12439609952181, 12439619269537, 12439628586885, 12439637904227, 12439647221561, 12439656538889, 12439665856209, 12439675173523, 12439684490830, 12439693808129, 12439703125422, 12439712442708, 12439721759986, 12439731077258, 12439740394523, 12439749711781, 12439759029031, 12439768346275, 12439777663512, 12439786980742, 12439796297965, 12439805615181, 12439814932390, 12439824249592, 12439833566787, 12439842883975, 12439852201156, 12439861518330, 12439870835497, 12439880152657, 12439889469810, 12439898786956, 12439908104095, 12439917421227, 12439926738352, 12439936055471, 12439945372582, 12439954689686, 12439964006783, 12439973323873, 12439982640957, 12439991958033, 12440001275102, 12440010592165, 12440019909220, 12440029226269, 12440038543310, 12440047860344, 12440057177372, 12440066494392, 12440075811406, 12440085128412, 12440094445412, 12440103762405, 12440113079390, 12440122396369, 12440131713340, 12440141030305, 12440150347263, 12440159664213, 12440168981157, 12440178298094, 12440187615024, 12440196931946, 12440206248862, 12440215565771, 12440224882673, 12440234199568, 12440243516456, 12440252833336, 12440262150210, 12440271467077, 12440280783937, 12440290100790, 12440299417636, 12440308734475, 12440318051307, 12440327368132, 12440336684950, 12440346001762, 12440355318566, 12440364635363, 12440373952153, 12440383268936, 12440392585712, 12440401902482, 12440411219244, 12440420535999, 12440429852747, 12440439169489, 12440448486223, 12440457802950, 12440467119671, 12440476436384, 12440485753091, 12440495069790, 12440504386483, 12440513703168, 12440523019847, 12440532336518, 12440541653183, 12440550969840, 12440560286491, 12440569603134, 12440578919771, 12440588236401, 12440597553023, 12440606869639, 12440616186248, 12440625502849, 12440634819444, 12440644136032, 12440653452613, 12440662769186, 12440672085753, 12440681402313, 12440690718866, 12440700035412, 12440709351951, 12440718668483, 12440727985008, 12440737301526 }; };
struct tr_mid_c { static constexpr int32_t shift = 13, off = 167772181; static constexpr int64_t c[256] = { 15514922449406, 15514723676991, 15514524895663, 15514326105422, 15514127306268, 15513928498201, 15513729681222, 15513530855331, 15513332020527, 15513133176811, 15512934324183, 15512735462643, 15512536592191, 15512337712828, 15512138824553, 15511939927366, 15511741021268, 15511542106258, 15511343182338, 15511144249506, 15510945307763, 15510746357110, 15510547397546, 15510348429071, 15510149451686, 15509950465390, 15509751470184, 15509552466068, 15509353453042, 15509154431106, 15508955400260, 15508756360505, 15508557311840, 15508358254266, 15508159187782, 15507960112389, 15507761028086, 15507561934875, 15507362832755, 15507163721726, 15506964601789, 15506765472943, 15506566335188, 15506367188526, 15506168032955, 15505968868476, 15505769695089, 15505570512794, 15505371321591, 15505172121481, 15504972912463, 15504773694538, 15504574467705, 15504375231966, 15504175987319, 15503976733765, 15503777471305, 15503578199938, 15503378919664, 15503179630484, 15502980332397, 15502781025404, 15502581709505, 15502382384700, 15502183050989, 15501983708373, 15501784356850, 15501584996422, 15501385627089, 15501186248850, 15500986861706, 15500787465657, 15500588060703, 15500388646844, 15500189224080, 15499989792412, 15499790351839, 15499590902361, 15499391443980, 15499191976694, 15498992500504, 15498793015410, 15498593521412, 15498394018511, 15498194506706, 15497994985997, 15497795456385, 15497595917870, 15497396370451, 15497196814130, 15496997248906, 15496797674778, 15496598091748, 15496398499816, 15496198898981, 15495999289244, 15495799670604, 15495600043062, 15495400406618, 15495200761273, 15495001107025, 15494801443876, 15494601771826, 15494402090874, 15494202401020, 15494002702266, 15493802994610, 15493603278053, 15493403552596, 15493203818237, 15493004074978, 15492804322819, 15492604561759, 15492404791799, 15492205012938, 15492005225178, 15491805428518, 15491605622957, 15491405808497, 15491205985138, 15491006152879, 15490806311720, 15490606461663, 15490406602706, 15490206734850, 15490006858095, 15489806972442, 15489607077890, 15489407174439, 15489207262090, 15489007340842, 15488807410696, 15488607471652, 15488407523710, 15488207566870, 15488007601133, 15487807626497, 15487607642965, 15487407650534, 15487207649207, 15487007638982, 15486807619860, 15486607591842, 15486407554926, 15486207509114, 15486007454405, 15485807390799, 15485607318298, 15485407236899, 15485207146605, 15485007047415, 15484806939329, 15484606822346, 15484406696469, 15484206561695, 15484006418027, 15483806265462, 15483606104003, 15483405933648, 15483205754399, 15483005566254, 15482805369215, 15482605163281, 15482404948453, 15482204724730, 15482004492113, 15481804250601, 15481604000196, 15481403740897, 15481203472703, 15481003195616, 15480802909636, 15480602614761, 15480402310994, 15480201998333, 15480001676779, 15479801346332, 15479601006992, 15479400658759, 15479200301633, 15478999935615, 15478799560704, 15478599176901, 15478398784206, 15478198382619, 15477997972139, 15477797552768, 15477597124505, 15477396687350, 15477196241304, 15476995786366, 15476795322537, 15476594849817, 15476394368205, 15476193877703, 15475993378310, 15475792870026, 15475592352851, 15475391826786, 15475191291831, 15474990747985, 15474790195249, 15474589633623, 15474389063107, 15474188483701, 15473987895405, 15473787298220, 15473586692145, 15473386077181, 15473185453328, 15472984820586, 15472784178954, 15472583528434, 15472382869025, 15472182200727, 15471981523541, 15471780837466, 15471580142503, 15471379438651, 15471178725912, 15470978004285, 15470777273769, 15470576534366, 15470375786075, 15470175028897, 15469974262832, 15469773487879, 15469572704039, 15469371911311, 15469171109697, 15468970299196, 15468769479809, 15468568651534, 15468367814374, 15468166968327, 15467966113393, 15467765249574, 15467564376868, 15467363495277, 15467162604800, 15466961705437, 15466760797188, 15466559880054, 15466358954035, 15466158019131, 15465957075341, 15465756122666, 15465555161107, 15465354190663, 15465153211334, 15464952223121, 15464751226023, 15464550220041, 15464349205175, 15464148181425, 15463947148790 }, s[256] = { 8292900048250, 8293271914508, 8293643776002, 8294015632731, 8294387484695, 8294759331894, 8295131174328, 8295503011996, 8295874844899, 8296246673036, 8296618496407, 8296990315012, 8297362128850, 8297733937921, 8298105742225, 8298477541763, 8298849336533, 8299221126535, 8299592911769, 8299964692236, 8300336467934, 8300708238864, 8301080005025, 8301451766418, 8301823523041, 8302195274895, 8302567021980, 8302938764294, 8303310501839, 8303682234614, 8304053962618, 8304425685852, 8304797404315, 8305169118007, 8305540826928, 8305912531077, 8306284230455, 8306655925061, 8307027614895, 8307399299957, 8307770980246, 8308142655762, 8308514326505, 8308885992476, 8309257653673, 8309629310096, 8310000961746, 8310372608622, 8310744250723, 8311115888050, 8311487520603, 8311859148380, 8312230771383, 8312602389610, 8312974003062, 8313345611738, 8313717215638, 8314088814762, 8314460409110, 8314831998681, 8315203583476, 8315575163493, 8315946738734, 8316318309197, 8316689874882, 8317061435789, 8317432991919, 8317804543270, 8318176089843, 8318547631637, 8318919168652, 8319290700888, 8319662228344, 8320033751022, 8320405268919, 8320776782036, 8321148290374, 8321519793931, 8321891292707, 8322262786702, 8322634275917, 8323005760350, 8323377240002, 8323748714872, 8324120184960, 8324491650266, 8324863110790, 8325234566531, 8325606017490, 8325977463665, 8326348905058, 8326720341667, 8327091773492, 8327463200534, 8327834622792, 8328206040265, 8328577452954, 8328948860858, 8329320263978, 8329691662312, 8330063055861, 8330434444625, 8330805828603, 8331177207795, 8331548582200, 8331919951820, 8332291316653, 8332662676699, 8333034031958, 8333405382429, 8333776728114, 8334148069011, 8334519405119, 8334890736440, 8335262062973, 8335633384717, 8336004701672, 8336376013838, 8336747321216, 8337118623804, 8337489921602, 8337861214611, 8338232502829, 8338603786257, 8338975064895, 8339346338743, 8339717607799, 8340088872065, 8340460131539, 8340831386222, 8341202636113, 8341573881212, 8341945121519, 8342316357033, 8342687587755, 8343058813685, 8343430034821, 8343801251164, 8344172462714, 8344543669470, 8344914871432, 8345286068600, 8345657260974, 8346028448554, 8346399631339, 8346770809329, 8347141982524, 8347513150923, 8347884314527, 8348255473335, 8348626627348, 8348997776564, 8349368920984, 8349740060607, 8350111195433, 8350482325462, 8350853450694, 8351224571129, 8351595686766, 8351966797605, 8352337903646, 8352709004888, 8353080101333, 8353451192978, 8353822279824, 8354193361872, 8354564439120, 8354935511568, 8355306579217, 8355677642065, 8356048700113, 8356419753361, 8356790801808, 8357161845455, 8357532884300, 8357903918344, 8358274947586, 8358645972027, 8359016991666, 8359388006503, 8359759016537, 8360130021769, 8360501022198, 8360872017824, 8361243008647, 8361613994666, 8361984975882, 8362355952293, 8362726923901, 8363097890705, 8363468852704, 8363839809898, 8364210762288, 8364581709872, 8364952652651, 8365323590624, 8365694523792, 8366065452154, 8366436375709, 8366807294458, 8367178208401, 8367549117536, 8367920021865, 8368290921386, 8368661816100, 8369032706006, 8369403591104, 8369774471394, 8370145346876, 8370516217550, 8370887083414, 8371257944470, 8371628800716, 8371999652153, 8372370498780, 8372741340598, 8373112177606, 8373483009803, 8373853837190, 8374224659766, 8374595477531, 8374966290486, 8375337098629, 8375707901960, 8376078700480, 8376449494187, 8376820283083, 8377191067166, 8377561846437, 8377932620895, 8378303390539, 8378674155371, 8379044915389, 8379415670594, 8379786420984, 8380157166561, 8380527907323, 8380898643271, 8381269374404, 8381640100722, 8382010822225, 8382381538913, 8382752250785, 8383122957841, 8383493660082, 8383864357506, 8384235050113, 8384605737904, 8384976420879, 8385347099036, 8385717772376, 8386088440898, 8386459104603, 8386829763490, 8387200417558, 8387571066809 }; };
