// composite numbers below 2^63 which pass the Miller-Rabin test for all but one or two of the seven witnesses 2, 325, 9375,
// 28178, 450775, 9780504 and 1795265022 (products of primes p and r(p-1)+1 or r(p-1)/2+1, found by search)
#pragma once
static const long long PSP[] = {
	1411807385341ll, 1921077350011ll, 3933464309633ll, 4341937413061ll, 5517315475561ll, 6198534518881ll, 9018435158011ll, 10558581750811ll,
	54777176156431ll, 88134267054217ll, 103810526655391ll, 107528788110061ll, 134241542443357ll, 149251536924661ll, 274311004325221ll, 327490017037567ll,
	365315355961471ll, 443538368977861ll, 548682148033207ll, 600931003849021ll, 637092980617411ll, 678190622066821ll, 732566718537391ll, 844376232342961ll,
	930902631647761ll, 956576019772621ll, 1017577016060221ll, 1218406862772067ll, 1249436276765353ll, 1555658544404971ll, 1568970154017181ll, 1655450053198831ll,
	1656223486780591ll, 1664258518984951ll, 2034338475175471ll, 2572458837835321ll, 2658508721224021ll, 2908151722854421ll, 2913777298555831ll, 3498575484219427ll,
	3812620112816131ll, 3871743176258821ll, 4124056415015881ll, 4405189345093153ll, 4440511664894971ll, 4612252004425621ll, 4664852830965601ll, 4774366775808631ll,
	4807995967202821ll, 4909685312621953ll, 5157224922526951ll, 5170964326119901ll, 5397002552661301ll, 5446554868756891ll, 5758349211061021ll, 6172200677022841ll,
	6955596610077781ll, 7228785694024261ll, 7924103436292291ll, 8497129681217633ll, 9036938694845881ll, 9848626400055301ll, 9859984670114881ll, 9950976450370621ll,
	9993440922020641ll, 10400979360216061ll, 10698319094715253ll, 10725556012453171ll, 11109655478537461ll, 11498260951309861ll, 11703176631141451ll, 12026172020488471ll,
	12089178567772741ll, 12545375277780901ll, 13045140441297091ll, 13811639076478981ll, 13913428558286407ll, 14238982161750781ll, 14316218227629061ll, 14377897544119453ll,
	14581886625121861ll, 15648765378749821ll, 15832816782299221ll, 16017371501248981ll, 16125255651342241ll, 16196702270683357ll, 16777677931876621ll, 16788285386020321ll,
	17528783704832791ll, 18872895708032941ll, 19185384634715071ll, 20226811723866091ll, 20510974954976941ll, 20985723543321811ll, 22348134516425581ll, 23397076343776141ll,
	23992774658824861ll, 26914204393139251ll, 27346994774226991ll, 27580507324791931ll, 28365132846744541ll, 29508685822696981ll, 29951492102496091ll, 30914595208310941ll,
	31069038113917651ll, 31229713668351061ll, 31904683808220541ll, 31905668975955391ll, 32189595923659901ll, 32846111518659211ll, 33028766723304901ll, 33081110885446471ll,
	34032789690047851ll, 35838102408285451ll, 36806832069889771ll, 37991467176475231ll, 38216398763513431ll, 38761397987386681ll, 40520855641754881ll, 42258792174101821ll,
	44509868863338451ll, 45088223470545067ll, 45484337521384453ll, 45559965703895371ll, 47490945323958181ll, 50905085587737391ll, 53115287236546681ll, 53382102343732321ll,
	53459222840725591ll, 53533702989634141ll, 53731576226425987ll, 55964655315949771ll, 56431236460220707ll, 58015271030060051ll, 58900069536369907ll, 59070942910930411ll,
	59469576459970141ll, 61106861709915451ll, 61385908678771711ll, 62274209751907471ll, 62659844695824967ll, 63361307910691801ll, 64013714771047417ll, 65545040248120261ll,
	66510298255323781ll, 69991163540260381ll, 71268762474120331ll, 72029663554422421ll, 74230341983719741ll, 76199155046927191ll, 76363932756540833ll, 78726064982035771ll,
	78847965982750981ll, 79393742682270721ll, 79671785931320131ll, 80966220558057451ll, 81359357609742241ll, 82448388449625061ll, 83248207160898781ll, 83317972081133791ll,
	83336269087398421ll, 85086788339281501ll, 85328075227486657ll, 85644635211445441ll, 86169091017002311ll, 86628984951155221ll, 86672324015480587ll, 89388554418718831ll,
	89451666695775361ll, 91272867849770041ll, 93103538964851971ll, 93133497297159901ll, 95099094663960661ll, 97082492860579141ll, 97489065784524121ll, 98626963801463371ll,
	98894075456417281ll, 102394099551847951ll, 102993488299834021ll, 104789376905295781ll, 105066587416325107ll, 106123396355954251ll, 109298421135417247ll, 112601088052533541ll,
	113802081878762371ll, 114003001566283411ll, 114085786394852821ll, 117186271891852771ll, 117473149148748121ll, 117478395736439653ll, 118780891675909651ll, 122571565324183951ll,
	123408876581788141ll, 128611831272569347ll, 130227602559289381ll, 130592767299924511ll, 130874507399993761ll, 132522160443237181ll, 134800167228580981ll, 137084774529658231ll,
	138423753103464533ll, 138510578370868021ll, 140875955664947821ll, 141225100439687461ll, 142370521216488181ll, 147489203101794181ll, 148523850633792481ll, 150356967923165851ll,
	152377358555126953ll, 152680894139018251ll, 153300834943383277ll, 157422643335554941ll, 160245543087810181ll, 160886361515885011ll, 162497076744513761ll, 164827258468248421ll,
	165192554627511841ll, 165495096357888667ll, 165887127157472033ll, 166543524621987211ll, 167146290465448867ll, 167606084078467651ll, 169969999918984453ll, 172522059435503641ll,
	175554504979831981ll, 177872947725681253ll, 180241056311133751ll, 181750588583448307ll, 182254061717720821ll, 182562935632250491ll, 184737513987967951ll, 184963996949847391ll,
	185854057092648253ll, 185980296644787781ll, 186751929929796631ll, 188584351488203131ll, 189193000510835221ll, 192681785885005121ll, 193948777251325531ll, 194941885986245287ll,
	194977913182784033ll, 200392252250606461ll, 200962912034184301ll, 202068826030688653ll, 205732657176975631ll, 210056912314810021ll, 210390407196234301ll, 211593041044757633ll,
	211902277506282247ll, 214729426296601651ll, 215835499305638911ll, 215996012046391501ll, 218317999417168771ll, 219809202690754951ll, 220689609003906121ll, 221364647741310391ll,
	222463644312388051ll, 224673260296629511ll, 227531153431356391ll, 227573208882548101ll, 228169601172874261ll, 228837207513185701ll, 230801893823709253ll, 233528237162167951ll,
	235086143338141651ll, 235962308598953047ll, 236893087776330901ll, 237544775385281101ll, 238012828754560133ll, 238371787706919301ll, 239335665610717747ll, 240857616190148821ll,
	241394949149799061ll, 242130542437678051ll, 248766958360794061ll, 250630216905171421ll, 255630791099706571ll, 257251813219556821ll, 257420013433256953ll, 264134195137304911ll,
	265063408141990321ll, 265532714722298341ll, 267898078638851671ll, 268787425784493241ll, 275024527984742581ll, 275666519876010451ll, 276207294507949171ll, 276897204351685261ll,
	288703078873034491ll, 290125301311068931ll, 290244047255522137ll, 293166852022558447ll, 295686914453972161ll, 296276400817080841ll, 297760461591550231ll, 301365651201001927ll,
	303954030464768251ll, 304470237560071771ll, 304854476413010131ll, 305311813202541151ll, 306420298637586841ll, 307454755683220291ll, 312535534305026341ll, 315566377554182761ll,
	319978990344859453ll, 322450161401115091ll, 322912469009658067ll, 324196179931772011ll, 329126157345116251ll, 329323631617926091ll, 330084723751729381ll, 333429295384326151ll,
	335133616221838981ll, 339163834656534751ll, 341967759628267711ll, 343183173862464253ll, 344890656288269911ll, 344993018490901171ll, 351686386230594031ll, 353277097647915871ll,
	358485627107795461ll, 359747488741622101ll, 362009715479504641ll, 367131409467452033ll, 369535663904296753ll, 369639226288236061ll, 370361170736736481ll, 370557291796927381ll,
	372004414605826133ll, 379703158384263031ll, 381556508220125101ll, 381991876570837261ll, 382901286160853633ll, 385572851980703731ll, 385632708940901971ll, 389591633482278571ll,
	390017040951465271ll, 392679315583979131ll, 398300156270633633ll, 399488256713592091ll, 400501325304517141ll, 400787026969271221ll, 406586326886056021ll, 411337482446938141ll,
	416201726538080341ll, 416760471555831721ll, 419940233377607827ll, 421785948561137551ll, 425441745447435991ll, 425756556408713221ll, 436910602121536861ll, 437922548947159741ll,
	440861233828805371ll, 442601658338255461ll, 443306392501097971ll, 444145790024033653ll, 445706194849771771ll, 446174463320227531ll, 446642694106615441ll, 451103411370135889ll,
	453137901694480133ll, 454747835223240833ll, 456383900123579431ll, 457418082284537221ll, 459458035898506651ll, 462188124003034133ll, 462796905794206591ll, 463012505412980041ll,
	463320865868520833ll, 469652669775304291ll, 471114783137032651ll, 475161773727203333ll, 483621806821224961ll, 484083971728199701ll, 484853343198435091ll, 488215649157300751ll,
	489358651290960331ll, 493963810097133421ll, 495232357219189453ll, 499779016873230277ll, 500159744480004001ll, 501196836853321381ll, 504813554185656787ll, 513041693032390411ll,
	516213284556620821ll, 518228857779504301ll, 521183705340886741ll, 522761613318207451ll, 524204110619975701ll, 529342094646605701ll, 531342826599299653ll, 535231895510545747ll,
	536340786567307489ll, 541808335138858651ll, 544866256978894507ll, 546858547551958951ll, 548082828884713951ll, 553078830899655451ll, 556933571604931951ll, 558800083080354151ll,
	561700271250449633ll, 565363120565761381ll, 565936712666423101ll, 566166218167771651ll, 567029754116028451ll, 567409483768214431ll, 568513222749439831ll, 579153093796067311ll,
	580325759247520133ll, 580898636461300501ll, 581418521754828031ll, 582270945517677331ll, 586154141953627591ll, 589416609165381091ll, 590045094848776141ll, 591611293323222481ll,
	603268105163421127ll, 606035595367699201ll, 610401995617159201ll, 612258670620577207ll, 613419853028980741ll, 613741215498958891ll, 622318876333227811ll, 625222880656461181ll,
	626577795385464301ll, 631305420546158401ll, 636238904796510571ll, 637095240941306491ll, 638233647627007981ll, 643113340382196811ll, 646378907677595821ll, 652355402324751271ll,
	655592241942469261ll, 655934908491616267ll, 658806736417335577ll, 660995991123073651ll, 662930190265799681ll, 664257005530773931ll, 668112718333495753ll, 672600700661485753ll,
	674373718520203591ll, 681725280387677653ll, 684949970164217941ll, 695037337990480621ll, 697637986547428081ll, 701435736058781881ll, 703578899472200251ll, 708109812448109191ll,
	710388876115604251ll, 713125313194411981ll, 716666783709357253ll, 717809486432915971ll, 718237580120074717ll, 718772577038991361ll, 720931089822278653ll, 721552365648861211ll,
	724610243897385301ll, 730689408803312731ll, 730746547100225633ll, 732618013355721811ll, 733741711040740951ll, 735028492515644161ll, 744209713061692741ll, 746116707576556891ll,
	748057919558867011ll, 751838205652680061ll, 753941384242825351ll, 763102579162343941ll, 764133099491750761ll, 764944153324369453ll, 772615964511618571ll, 780042119108661181ll,
	780290871432674491ll, 785101381749733441ll, 786960900505920601ll, 788996635569913231ll, 790258754646733633ll, 790501593330000007ll, 794257220909720431ll, 799624553239879867ll,
	800605614131395381ll, 802428188896317691ll, 803583724861394821ll, 813389796881824051ll, 815021178303323881ll, 830476757575201441ll, 831262917867144533ll, 836855798763781891ll,
	838308851922969967ll, 845345603280534931ll, 852448052288020051ll, 856316464624534231ll, 857237129973486811ll, 862926831618831253ll, 866244997476167653ll, 866774317700886211ll,
	867462847977252871ll, 869900498133435541ll, 872011357198336981ll, 876846565458534877ll, 882320268769371547ll, 882824528943844321ll, 883835196673444291ll, 897194010545009677ll,
	912714938647673281ll, 913557774308674771ll, 914808151191973387ll, 915772580793574741ll, 916394749174165141ll, 924163658741938231ll, 926734878627253741ll, 928070489965484321ll,
	930778389914192821ll, 935136791758314991ll, 939051586727244451ll, 940385591885174101ll, 942125852145535921ll, 943362576142221511ll, 949194055424651653ll, 953097185707975171ll,
	955971374208713141ll, 961771603593357901ll, 969996921524420653ll, 979312050875557981ll, 981629293130536753ll, 981765010627323781ll, 991324200095913421ll, 1004870492662444453ll,
	1006278409023496381ll, 1020001422275141221ll, 1023253547111621827ll, 1029608492359973633ll, 1040037362955283951ll, 1040489621261440741ll, 1040528994031000321ll, 1058222162294297461ll,
	1060078918829278741ll, 1064848891762292227ll, 1066910855092958791ll, 1069932594836150251ll, 1085257941345372451ll, 1095570969923205751ll, 1096094696870586601ll, 1098138616387480531ll,
	1101337582677756031ll, 1103074383758873633ll, 1107385129330603831ll, 1109476813646856691ll, 1111435389221519251ll, 1114261928866123381ll, 1116919382292688133ll, 1120117142068656031ll,
	1125299632198333411ll, 1130590801056512071ll, 1136833237000951951ll, 1138989009153488221ll, 1144863698053591981ll, 1145494837277444587ll, 1166575398587013421ll, 1174899638264483251ll,
	1176638207826705601ll, 1205829183005552251ll, 1207425741506457661ll, 1209237210272841751ll, 1209373071512377591ll, 1210613157875123731ll, 1212142594578744001ll, 1213011743587909453ll,
	1215494913272600971ll, 1221540147386782081ll, 1235018886191325271ll, 1235436850828696951ll, 1245570632019567127ll, 1246254769636697341ll, 1246815705989637631ll, 1247123275071889771ll,
	1249069457086443721ll, 1251202668405108121ll, 1251380411616764227ll, 1251494450917644781ll, 1251831742248250351ll, 1252396685966585851ll, 1261508611008736133ll, 1263947354068899961ll,
	1267994200995648253ll, 1273483708946530381ll, 1273666895474860351ll, 1285841082959524981ll, 1287656313335848891ll, 1291672765749101581ll, 1293539448742974427ll, 1295358698405292421ll,
	1300744046170832581ll, 1302148658696329867ll, 1306131766807238401ll, 1312337485393265633ll, 1316671506074869561ll, 1321586385212469601ll, 1322152838287045381ll, 1324659081390341131ll,
	1324876482264805471ll, 1325073067204307851ll, 1328765037050674081ll, 1330652914539449581ll, 1334742665552386133ll, 1335443602321130581ll, 1336915648639358101ll, 1341424864263393253ll,
	1345523499667334137ll, 1349049011636657633ll, 1354210596045599797ll, 1360266714105946741ll, 1361431673536170151ll, 1365959142176494141ll, 1371612475778314771ll, 1373402027712147751ll,
	1374098003350564771ll, 1375209861181736581ll, 1381505552238434941ll, 1384008608244727081ll, 1385973377198309461ll, 1388131017025885021ll, 1388292337682073253ll, 1395791769319518691ll,
	1396940850039006091ll, 1399142568905788141ll, 1400107476785635621ll, 1401157895141441449ll, 1406848117365730621ll, 1408703384515683691ll, 1410035297334608071ll, 1415115367350834241ll,
	1418173084257460987ll, 1418594574367497871ll, 1419634003208927941ll, 1419719348731157633ll, 1422322229665143271ll, 1431056211353916421ll, 1433875818943884781ll, 1440843096450829501ll,
	1441106825291707201ll, 1444195606527338941ll, 1449337811140858411ll, 1449424131697997461ll, 1456178365994277061ll, 1461232805187163861ll, 1464167611989820081ll, 1466754347789136451ll,
	1468674991514145301ll, 1470012005184990931ll, 1473362829383226211ll, 1480862340477407809ll, 1485008043901245991ll, 1490834994080946121ll, 1491157793529267841ll, 1492192653868891981ll,
	1497303429438588661ll, 1512087596349891571ll, 1512724247393617261ll, 1526248987592311711ll, 1536577007564886841ll, 1536862170501886231ll, 1540971935019099901ll, 1541662995621930301ll,
	1541737712998985633ll, 1541855698521076711ll, 1548109816598977501ll, 1562293261251880561ll, 1571440366545527521ll, 1585329649578766981ll, 1597403136223308151ll, 1598596664472543781ll,
	1599217149183187717ll, 1602587978641585981ll, 1603085685016992751ll, 1603110287659997161ll, 1608287826154607461ll, 1611747719610223357ll, 1616384993661731611ll, 1618424773808744791ll,
	1621797964038581647ll, 1630485959636352901ll, 1632035546114971861ll, 1643248059763992571ll, 1647504783876751381ll, 1648772774697286981ll, 1650225680977328461ll, 1650564156712219141ll,
	1664125770733596631ll, 1664915625385948981ll, 1679725979596025371ll, 1682035199355868507ll, 1682994201229754731ll, 1699245464105314261ll, 1700739941403740641ll, 1719598665658405951ll,
	1722655954658442511ll, 1740857291663089601ll, 1742799396372316561ll, 1744740680455864981ll, 1747697266034166721ll, 1749132062348703007ll, 1752266454283544033ll, 1765507242776841271ll,
	1772075832582001411ll, 1795881440392943221ll, 1806648738815286451ll, 1808841281027219251ll, 1809405063190656361ll, 1813765286398710781ll, 1823064652371586861ll, 1825683724115595541ll,
	1829308617674871031ll, 1844519163624312211ll, 1845233953846757633ll, 1846521103372225351ll, 1850529063457529461ll, 1866694326636544021ll, 1867722668003695231ll, 1877674102128571321ll,
	1878296559462003691ll, 1880520945526379071ll, 1881101396159869591ll, 1881141500367394453ll, 1884651213698373511ll, 1892662678412580691ll, 1895910947348704133ll, 1899964221165753601ll,
	1900435782987850951ll, 1902826506797424253ll, 1910804991825486751ll, 1921298816120416921ll, 1928830384297629091ll, 1934718192949077451ll, 1941566712293367253ll, 1943279402003112781ll,
	1945952065652899201ll, 1950164443972488061ll, 1952834588366012851ll, 1964026157550131221ll, 1969259442340875301ll, 1971429214608879031ll, 1973459889070904341ll, 1997516854666350907ll,
	1998016237622376533ll, 2000286060361322581ll, 2000651616059447521ll, 2012078384062050151ll, 2013902639813868121ll, 2015430892785743131ll, 2019217418181709453ll, 2027252130677170741ll,
	2031182447761319581ll, 2037916789779096271ll, 2046478056486115141ll, 2046637868412209047ll, 2052397973077124401ll, 2053544217499032121ll, 2055935606687664211ll, 2056613588291037691ll,
	2058239471423177953ll, 2061601986017231101ll, 2062801007297156701ll, 2066942258307298261ll, 2069099276418975061ll, 2072648457107124007ll, 2078455846841444071ll, 2079171789700247551ll,
	2082430567973568511ll, 2094280625641071421ll, 2098925495300802871ll, 2111156654527343809ll, 2115169140702605653ll, 2126499979731859621ll, 2145122377931115901ll, 2146978614274328071ll,
	2154119411899678411ll, 2157225567421989751ll, 2163668095000038061ll, 2175011596395329581ll, 2175407057576125981ll, 2184790210081684453ll, 2187696935722343653ll, 2187723718497275731ll,
	2192099642938852741ll, 2194104868593674653ll, 2196792706546699381ll, 2197909015249523131ll, 2218105676566716421ll, 2243468953939176811ll, 2245401331239707101ll, 2248758430878902671ll,
	2255933969090993701ll, 2271567476527999651ll, 2281936017952246321ll, 2288783890634701633ll, 2291595301370426941ll, 2298183262736332861ll, 2306012177119471831ll, 2309014930836256471ll,
	2316556579681148941ll, 2317672632401152133ll, 2323599854003584133ll, 2333704310061980131ll, 2337577688573204941ll, 2338977583612092151ll, 2341211743685972431ll, 2343500617382833681ll,
	2343806794374268411ll, 2347736308423454341ll, 2370278936029987531ll, 2384696173229478421ll, 2386727390711029411ll, 2397426813577461331ll, 2407748749487758951ll, 2417093313388695061ll,
	2433202428973911211ll, 2437953277897343251ll, 2439664537546238311ll, 2445358122693796771ll, 2449070231294827141ll, 2468564367263349391ll, 2473224264654252427ll, 2477668778613000787ll,
	2484500146761690487ll, 2488530136217778901ll, 2490545879522314741ll, 2493445744148707351ll, 2501954692187122987ll, 2506181454989491051ll, 2511767850165092611ll, 2514529876061089981ll,
	2519008594469693371ll, 2523722386085472301ll, 2546593660306618651ll, 2547073841644462591ll, 2547519938975954251ll, 2577137132813045221ll, 2587470627704313781ll, 2588526686942868481ll,
	2594216034901219501ll, 2599600432441455631ll, 2612657018865530071ll, 2615729889882443491ll, 2623911627431636821ll, 2624643180755488441ll, 2626257942325422721ll, 2635794135622231741ll,
	2639353943709043021ll, 2641201858563513967ll, 2663631187585974451ll, 2670359163086667331ll, 2673708157314439381ll, 2678447907236612521ll, 2680461759051506431ll, 2680688238766395397ll,
	2682141831395450401ll, 2682196619879854171ll, 2689719583128662701ll, 2693027635596672533ll, 2697064535733326461ll, 2701608625520072581ll, 2704974209048382571ll, 2705655944496571951ll,
	2728019112071673421ll, 2732693792200518061ll, 2742566859513433261ll, 2746570081653622351ll, 2751628991763685771ll, 2762083483597013333ll, 2782524932850987127ll, 2797749290061902881ll,
	2801026245770044111ll, 2826249847617200131ll, 2831118016127175811ll, 2836339251963721267ll, 2852206552308258181ll, 2858418221564118487ll, 2860989318044828587ll, 2863392459156197281ll,
	2865067888794675301ll, 2870515102296865921ll, 2876819165320613633ll, 2889041360507605621ll, 2905586340755336101ll, 2905886270357951653ll, 2906510866312373633ll, 2908731048045529141ll,
	2911305255456492901ll, 2925796948904377861ll, 2929217605223936491ll, 2931708032959290901ll, 2944232463770965711ll, 2974018253512263301ll, 2976775545150225253ll, 2977989385049907541ll,
	2987284920764751181ll, 2989508516943894091ll, 2998471830658043041ll, 3000033505970103331ll, 3007282730490316321ll, 3011749335158867551ll, 3017510356752384533ll, 3020886034808347261ll,
	3025906719430977271ll, 3027089593383482287ll, 3037298459141941567ll, 3040292595556700191ll, 3042165673740559411ll, 3060202875130626241ll, 3065006092835879011ll, 3095237646073456133ll,
	3095262048473766421ll, 3108145441335315391ll, 3125898168277227661ll, 3127170505299034133ll, 3128516742591954451ll, 3129224880754926271ll, 3150514722303687511ll, 3151039963214599681ll,
	3166209523267260931ll, 3170053862337493381ll, 3200847570221096953ll, 3201668213497587991ll, 3202038156143534881ll, 3212537631510816001ll, 3220364308018830391ll, 3223838687591276641ll,
	3224339821487139391ll, 3224448506818418881ll, 3224731717469961271ll, 3238145168934301291ll, 3251666177142364801ll, 3264183844381122391ll, 3266048600367420787ll, 3273652779094606681ll,
	3281068527806134081ll, 3291000212567172241ll, 3304761660644580181ll, 3316710139979927941ll, 3346215669338452921ll, 3354373499775675781ll, 3363693895427489857ll, 3364691105753097121ll,
	3367508319866915407ll, 3378660008265373807ll, 3379226236188385771ll, 3392438334099657571ll, 3394217892344585221ll, 3397102283074979251ll, 3414299983560238501ll, 3422017601251411051ll,
	3423837557448928621ll, 3427619362887959821ll, 3432954972242762011ll, 3443362457446025731ll, 3445807223497984801ll, 3455678907453869011ll, 3459234278795790067ll, 3467061401592662191ll,
	3468238574198052691ll, 3469273283822440981ll, 3469558741436312227ll, 3470930862914956951ll, 3474904996704509761ll, 3476271743680588357ll, 3483182452508745031ll, 3492333236236477951ll,
	3496177426279242721ll, 3510222992083546831ll, 3513018041487205651ll, 3515799247545824011ll, 3517467512741276221ll, 3525826851495742501ll, 3528538686243094231ll, 3532743747411515101ll,
	3537660302169096421ll, 3550507841238964651ll, 3555041267042930701ll, 3555057521885805253ll, 3563361207762964471ll, 3569317098523487191ll, 3570118690201937191ll, 3580596222271757461ll,
	3580736747886176581ll, 3581890266058474147ll, 3591825648960365701ll, 3593700064262313253ll, 3607164618501983311ll, 3609408756628137781ll, 3613402639370027701ll, 3647642540821733611ll,
	3651416891743731571ll, 3665631141410917771ll, 3667920550095838741ll, 3673573908069542881ll, 3691221817625031691ll, 3694239842208592951ll, 3694576038061740833ll, 3696600216695717633ll,
	3698244638571266911ll, 3699856205978730661ll, 3701147222045955841ll, 3703688102486981953ll, 3711486865438410241ll, 3727752196797320581ll, 3728840112427616033ll, 3736213957553181301ll,
	3737012914657265491ll, 3737337212932280821ll, 3739373379522328411ll, 3754606319804915191ll, 3755571677905024981ll, 3760801664380484041ll, 3772420759912323751ll, 3786367504448629621ll,
	3814619703672328321ll, 3819840099110085511ll, 3846584972264092831ll, 3868380586278035101ll, 3869015796468946441ll, 3882976025354022871ll, 3902907429329106061ll, 3905386113907051021ll,
	3927614658509697301ll, 3928160176587440641ll, 3930020431666901461ll, 3940001549471632681ll, 3962969774389171981ll, 3965782019102555653ll, 3973958589393609391ll, 3974206063066572061ll,
	3977897486217991447ll, 3983706040457696491ll, 3996347575143832567ll, 3997710175116563461ll, 3999175435884900833ll, 4021440403777587181ll, 4033917508065975991ll, 4035238067276349781ll,
	4039919160979663261ll, 4044660998249637811ll, 4079892718404006533ll, 4089005626387114261ll, 4107637038775546711ll, 4110121919901893941ll, 4112255316660449941ll, 4115249370984215071ll,
	4125708044259927841ll, 4129081021972172701ll, 4157449844533092253ll, 4158276439864413331ll, 4172292809401114261ll, 4176412822815334111ll, 4191870948417523801ll, 4193787388924696501ll,
	4206343768891736033ll, 4210485518179878211ll, 4212748774833494941ll, 4218746756240333333ll, 4219402696371801121ll, 4223300709179479201ll, 4224109358497041397ll, 4225473460353345661ll,
	4235410247597081101ll, 4284009370471452931ll, 4293990091912956571ll, 4301012683203042241ll, 4302379415613623581ll, 4307166737006789633ll, 4308713264975132641ll, 4317590436115590787ll,
	4322657703760716781ll, 4334664226541262241ll, 4354165597583405633ll, 4362160093712464231ll, 4375293412748831821ll, 4388443806243840661ll, 4389114856546165411ll, 4393766511399303811ll,
	4404700830635847631ll, 4428783700895366641ll, 4436912362058261641ll, 4446796218693639427ll, 4474240245966180007ll, 4478512476683426581ll, 4490919809674771411ll, 4498907828574488033ll,
	4507065255538184041ll, 4521906320185788661ll, 4525130469349131727ll, 4580947877732678341ll, 4591185339480823597ll, 4591808332814186191ll, 4604606393421902251ll, 4611418545046042133ll,
	4632063189307307911ll, 4644136161715945051ll, 4649477940389490211ll, 4656131943723023653ll, 4663303251594617761ll, 4678714215662928481ll, 4687551754863641821ll, 4704741687771799381ll,
	4723309378900527031ll, 4734400525555157551ll, 4737522738853330471ll, 4740060710627039071ll, 4743238751099147071ll, 4751494618133005021ll, 4757377659246944551ll, 4762530940107330253ll,
	4763949384246039991ll, 4778849733217592581ll, 4778964739678192381ll, 4780097998297112791ll, 4781851669571529871ll, 4784211840883702501ll, 4804468121369590831ll, 4813792212983257351ll,
	4817838725323376941ll, 4835943394452507781ll, 4870819440519349591ll, 4873178199252998251ll, 4894229345528165653ll, 4969783240819481701ll, 5015335928252176621ll, 5027155139565528661ll,
	5068940868144166861ll, 5069951712457607251ll, 5074488092172522871ll, 5107480179780240541ll, 5108106730660828001ll, 5111970694407685153ll, 5139509754949636501ll, 5147262503716546531ll,
	5150173673881011331ll, 5154173885718218401ll, 5159687304469145311ll, 5162243967538648381ll, 5163008795569808011ll, 5170570664553771751ll, 5186915464324384801ll, 5219024890914458821ll,
	5232903840067676653ll, 5236426517116065301ll, 5250875818857953131ll, 5253197864895098821ll, 5272432407518694241ll, 5281671668291428411ll, 5302558109431858411ll, 5305501078044586501ll,
	5357190540165353633ll, 5359027142125006741ll, 5371272319396946821ll, 5393402433060288533ll, 5395818870600770431ll, 5407289422117263253ll, 5414394120507196831ll, 5425041118582764451ll,
	5444269607445365791ll, 5463591217216048351ll, 5490736627718925901ll, 5497799742842013181ll, 5501248864712040833ll, 5534038045037876653ll, 5563225094601230101ll, 5568156586721792251ll,
	5574888038765812861ll, 5597770555448068741ll, 5609601607384105633ll, 5621323147724965141ll, 5636887077044059453ll, 5639762540607838831ll, 5660555108684608133ll, 5674955178945364201ll,
	5679036872017631011ll, 5679218054024546851ll, 5693951381395406221ll, 5729104083200591341ll, 5734655142911759041ll, 5751572827917011941ll, 5760151367920509121ll, 5767105496664780271ll,
	5793095305968966271ll, 5822550898400578231ll, 5824834079343461731ll, 5824835922450559141ll, 5841222414840891541ll, 5850868935565215451ll, 5890546560240584551ll, 5911568027873711911ll,
	5915327983125679891ll, 5943473280368427511ll, 5955860217992444033ll, 5972767197360315661ll, 5986122066322082821ll, 5995686328362134011ll, 6023770975454378581ll, 6024944975056282133ll,
	6045667362838508653ll, 6064035382364895253ll, 6097712964250792501ll, 6111410821001997031ll, 6125834293658102341ll, 6136868369000115181ll, 6138872401204786951ll, 6209186444021252971ll,
	6235671898388138671ll, 6255125932722591961ll, 6274902099683494621ll, 6318471161526870781ll, 6347015836975688491ll, 6353667601575504211ll, 6355091721682069831ll, 6381871001975437741ll,
	6384610794755435941ll, 6402748538854058581ll, 6446226088064514151ll, 6446630899351551061ll, 6456209091879994453ll, 6468280181354474731ll, 6469416442371371581ll, 6471090909693966601ll,
	6506623808092045081ll, 6508806821596349731ll, 6523091262189925741ll, 6534072162084756061ll, 6545311725978722791ll, 6545793795581430253ll, 6548271156961786981ll, 6569227297751243131ll,
	6622955818621551181ll, 6635878940419104421ll, 6658417468654963021ll, 6659867282037335281ll, 6672864618906016051ll, 6687284417713477441ll, 6707104172844180661ll, 6707192953137663421ll,
	6711648544501292701ll, 6722329123702779931ll, 6753979221403401991ll, 6761548672702072831ll, 6777759721462878151ll, 6806506934979992701ll, 6810152803683270931ll, 6837838058320357861ll,
	6849775466169632461ll, 6891993278118171541ll, 6899026514610741391ll, 6907756143724711831ll, 6908999733255245671ll, 6915084363371595421ll, 6939239328440234731ll, 7004762123771399851ll,
	7013318827294867951ll, 7013936351986486471ll, 7019594889555767221ll, 7050061095416241211ll, 7053819838529240701ll, 7058952914164486471ll, 7072492732583833171ll, 7076740270983662971ll,
	7150957294350345031ll, 7155354070721482291ll, 7159749246752238181ll, 7183039305551111731ll, 7188443035327466461ll, 7229724894204448681ll, 7242102267031999711ll, 7252376120017890751ll,
	7304116504352163931ll, 7344912775038032431ll, 7375772234852722711ll, 7384234349259650611ll, 7387301040064709653ll, 7387944409665670861ll, 7401517554034200691ll, 7409850750826040611ll,
	7439719708398466261ll, 7446124658407170781ll, 7453311629913829261ll, 7462438832997572581ll, 7467390824823046981ll, 7484928642471835171ll, 7530305722909265341ll, 7535863433181768301ll,
	7559032051178508421ll, 7569917860233427471ll, 7579553002510462291ll, 7623862961991748291ll, 7628506828557587911ll, 7650402963902582491ll, 7689244344578424631ll, 7699732081420327651ll,
	7710005726441957161ll, 7724440993607408071ll, 7730438852738402191ll, 7744032039167895871ll, 7749155002202428951ll, 7759658212081409341ll, 7762603392697910851ll, 7783659522995136301ll,
	7810487364769954021ll, 7874252387568866071ll, 7888359117832266781ll, 7929863430639485653ll, 7935156816169978531ll, 7949866555638852211ll, 7950356540668770931ll, 7957888370757807301ll,
	7979455996215093253ll, 8002174633762167631ll, 8021588230497738331ll, 8043726714059159371ll, 8056766832582362131ll, 8093473865015130901ll, 8149100322360154501ll, 8154771581376187111ll,
	8182775169302827411ll, 8223017547655506511ll, 8228805255895078891ll, 8239699171181998981ll, 8292582437721677371ll, 8294185691139500461ll, 8310468668771029771ll, 8365342905095079151ll,
	8367271567566760621ll, 8369012320942624651ll, 8410728025733088061ll, 8476831239778649611ll, 8493955925297004991ll, 8508383498267755831ll, 8547716091029392621ll, 8561887561029110311ll,
	8581289373728920621ll, 8614714525621685911ll, 8617603001534252641ll, 8645839480205555491ll, 8653565363323860253ll, 8737315433072193061ll, 8743677033824194771ll, 8744495512599381151ll,
	8765025449610800341ll, 8777970228866232241ll, 8782210331112409201ll, 8808725603552900941ll, 8812402583080531051ll, 8812446160353884821ll, 8835658670079369901ll, 8852206477457436031ll,
	8869841127327398653ll, 8872768621591242031ll, 8877270971184748021ll, 8901190387884578941ll, 8938209495985113961ll, 8977993884825368131ll, 8985119554374865021ll, 8987707476359104681ll,
	9003147866488802071ll, 9008309917307503351ll, 9009694134179887501ll, 9011879299353793411ll, 9014981777072879653ll, 9015308752147596991ll, 9025673422491169291ll, 9058819752909716653ll,
	9074629702956020941ll, 9093997243088232751ll, 9103255957526325211ll, 9129881196183847681ll, 1360364969861ll, 6608726421571ll, 17028593036731ll, 44073670154221ll,
	54554255320267ll, 67293706097971ll, 72457221577861ll, 103174506603967ll, 125330252102191ll, 137621042773831ll, 143664496730371ll, 161889885718021ll,
	245116401931801ll, 304512243865831ll, 312637952721403ll, 337190676052231ll, 339387078507751ll, 374465438829901ll, 410788872198253ll, 443936323501921ll,
	463665242883151ll, 493657891980571ll, 556154655871951ll, 750585245919211ll, 751808534289751ll, 862545777805531ll, 1048868348891221ll, 1063038716502533ll,
	1113561379668601ll, 1158768458729569ll, 1415684907365653ll, 1502920000384111ll, 1639073094867253ll, 1718451132909127ll, 1736776821735091ll, 1770751798727311ll,
	1872452465912341ll, 2142969380063821ll, 2351522715806881ll, 2408356680056581ll, 2409464175252751ll, 2458407636152641ll, 2583772726933261ll, 2720445347424421ll,
	2863780438275751ll, 3158451070980211ll, 3272607374478751ll, 3436599739685941ll, 3548215209289141ll, 3582906185603881ll, 3857221460552851ll, 4093587866020591ll,
	4612961991075301ll, 4700232829411681ll, 5000338155717271ll, 5258444199595021ll, 5719751275361887ll, 5803426047607651ll, 6030095563333351ll, 6186441478635991ll,
	6306854922084151ll, 6347496270641653ll, 6425460355847851ll, 6494915697081211ll, 6600151722726451ll, 7101369093291661ll, 7492011202302661ll, 7760586714876001ll,
	8174087998507681ll, 8406433694753461ll, 8467269889932253ll, 8947776519935191ll, 8978640732431371ll, 9332651757851731ll, 10190465725251841ll, 10406795479956541ll,
	11168841127867741ll, 11374271529459301ll, 11583995878440833ll, 11686862918678221ll, 11789818003247131ll, 12064605613823701ll, 12264242110482781ll, 13278362373581311ll,
	13869777939748741ll, 13981806248883661ll, 14906829290170681ll, 14987850521405581ll, 15279834701868661ll, 15471253113473431ll, 15848059966411861ll, 16380243252506071ll,
	16766264574290089ll, 16974566133729601ll, 17375796866704321ll, 17853393078624421ll, 17975697988010311ll, 18664905500502661ll, 18969358813178203ll, 18999503814177811ll,
	20024255649750661ll, 21351676770585253ll, 22078863754586101ll, 24760017715747861ll, 25207245197186557ll, 25405428798243427ll, 26028705572433541ll, 27076701594975007ll,
	27317984197527271ll, 27474118165695601ll, 27653523077886751ll, 28734172418245141ll, 29075063291480251ll, 30519502049981647ll, 31120898987706391ll, 31279473113949061ll,
	32710924970870581ll, 32909333170138133ll, 33490643817428461ll, 34248557107728811ll, 36130058649476767ll, 36290524221958051ll, 37202924795516707ll, 37992748089229867ll,
	38592960649320533ll, 38738281677046381ll, 39487266067363003ll, 39873777941614753ll, 40621927347264451ll, 40994017901824261ll, 41051285348508991ll, 41164435834798321ll,
	41832699536914903ll, 43103065277458117ll, 43166401211393461ll, 43637309914598371ll, 44092573032000533ll, 44193449228166811ll, 44727293666356003ll, 45382373291275021ll,
	47510418847506751ll, 47752581891807253ll, 47816025189997681ll, 49261156738591297ll, 49323169050710101ll, 49901333635553401ll, 50297345053032533ll, 51889970254785211ll,
	52801938515576251ll, 53277246648662653ll, 54166497882933871ll, 56273026547091061ll, 56563799422600321ll, 56819332624083751ll, 58179550202338753ll, 59337614827296541ll,
	60486100288013867ll, 61162937485299541ll, 62258499003562291ll, 63592043897087371ll, 64908802172658151ll, 66283116801803467ll, 68175181950009751ll, 68252437513816291ll,
	68420596113415981ll, 68883750552388801ll, 69871237109603333ll, 69902452639059211ll, 69921657715779451ll, 70524361165343521ll, 70879852963769851ll, 71324294528887921ll,
	71433586534720411ll, 71544573638400691ll, 72377440256477791ll, 74349222524898751ll, 75820974952711141ll, 76334810744174401ll, 79256424503384281ll, 81585814434020821ll,
	81897932127047653ll, 83674058338903861ll, 85709521455134167ll, 86371713498806011ll, 86375583834168331ll, 86578668519366871ll, 86595645822782851ll, 87554478488914531ll,
	87554744629817653ll, 87784638416467987ll, 89531846443874971ll, 89930640482800133ll, 91006732676810341ll, 92475294974984431ll, 93482180762484403ll, 93584530934035681ll,
	94355042937565411ll, 94368935808498781ll, 96438001537021567ll, 96537015520907851ll, 97294475965626253ll, 99715696696794331ll, 100425024185363333ll, 101437278195304171ll,
	101500707629584033ll, 102852395930125351ll, 103356285364370611ll, 103884394394570653ll, 106285458852934453ll, 107690479445923111ll, 110341391617503091ll, 111000649235884453ll,
	113575212941066581ll, 113900228594672491ll, 115861071192096691ll, 116426180715285871ll, 116518326962953051ll, 117198333387312451ll, 118103745318873931ll, 118984904199824167ll,
	119122722152281207ll, 120447591985889911ll, 120556114008862561ll, 120901073636561653ll, 124231075670793121ll, 124408959065413903ll, 125399880047585881ll, 125739447091380541ll,
	126178636094041411ll, 126318032990060161ll, 127846186388003333ll, 130067902381057651ll, 132506617316096341ll, 134605758697083781ll, 134760602766200581ll, 138036447178786133ll,
	139799068751235601ll, 139935576821901121ll, 142162616824249141ll, 142517938535606341ll, 143924396607599653ll, 145045708996015981ll, 145225991766196351ll, 146189780251009111ll,
	148365548438395681ll, 150672176881632451ll, 151275602173629781ll, 152891492334154003ll, 153809324664635503ll, 154823521629681271ll, 155404608789791791ll, 155982561804319771ll,
	156227331076001461ll, 156367848800080321ll, 156417921878620951ll, 156451214215721431ll, 157348558500057541ll, 163132705669418101ll, 164677128045202711ll, 167558834983349633ll,
	168019109558548951ll, 168943673470625371ll, 168972674574923521ll, 169685169457062533ll, 172721282306967631ll, 177629774633348311ll, 178055347513807681ll, 178558939849430533ll,
	178903603566862021ll, 180443368786324771ll, 183885598855470331ll, 184797042565038751ll, 188807977212521761ll, 190107375341980141ll, 202146108979072001ll, 203734957235345551ll,
	207879665081071231ll, 211605271219517311ll, 214060221090760411ll, 214276495081508161ll, 214290919332504631ll, 214406338620461851ll, 215883839242880033ll, 215964985183330321ll,
	217045760304628531ll, 218365269203959741ll, 218953964660146381ll, 218980607369431771ll, 221597365643758081ll, 225755109714922651ll, 227252083092342661ll, 232929400284778753ll,
	237356435950896151ll, 238308241433414041ll, 239350324324543741ll, 241873785856144261ll, 242142707947000351ll, 245193883392758581ll, 246585861867802687ll, 249388060276350703ll,
	250049514289885201ll, 250672706001735841ll, 252916106027924431ll, 254147911226294221ll, 258534334814742533ll, 259279607511480403ll, 260829214633188631ll, 262126200717887941ll,
	263798432722165381ll, 264358481464767691ll, 266579780271342847ll, 268164846678994453ll, 268771034469858181ll, 269622596039292541ll, 272737550193534091ll, 274899063522549511ll,
	275322183363300781ll, 275451866709374767ll, 277446998623034701ll, 278164445663900071ll, 278287797156661711ll, 280504980161389171ll, 280562866329738691ll, 284202819910176001ll,
	284232239042674861ll, 287170025130332191ll, 287241282819838621ll, 291799294376333333ll, 293300874074812501ll, 293401530076782403ll, 293973316323749371ll, 294973335398540767ll,
	295604302106061121ll, 296722773075611041ll, 297503355800834371ll, 297858027899276461ll, 303985273875644791ll, 307652866822295191ll, 307868489867682253ll, 311411117407846501ll,
	313856573374550251ll, 316002630444984341ll, 319694279054664403ll, 322498067128197841ll, 325667741705988571ll, 326764021816204001ll, 335134895350051891ll, 340455676716398101ll,
	345161346128064901ll, 349565970808816651ll, 350020520744165701ll, 352774784456475481ll, 354581026315246981ll, 355925550251950981ll, 359641640458403551ll, 362828250308015911ll,
	363076795923485491ll, 363190525477783741ll, 363802675861786591ll, 369968786945363161ll, 379665094873039111ll, 384115275321363631ll, 386604874972170991ll, 394107596393835061ll,
	402356566618182881ll, 403491622417709491ll, 404360623896178951ll, 405089408683969453ll, 407318181151621321ll, 407428284333682891ll, 408580140550889971ll, 409784028251950171ll,
	412249634910597331ll, 413325248992989031ll, 414059124891233251ll, 423692189843436361ll, 427838216773961701ll, 428114382123834451ll, 429479251142210011ll, 431584140239727751ll,
	433739103648082651ll, 433830287315792503ll, 437330738935962271ll, 437924076932649529ll, 438599988025743521ll, 439479395548852231ll, 440110315675574911ll, 444180930598919251ll,
	444441163397665141ll, 444582798052556809ll, 449207367222099331ll, 449313153221618731ll, 449587228896557251ll, 452883938842489771ll, 467828513789038291ll, 468351009780252301ll,
	469194438102290911ll, 473534713918265581ll, 474166417660431931ll, 474549710342794453ll, 478676155915761931ll, 480009979744039387ll, 480657237141299653ll, 481388530726016033ll,
	484159765517047621ll, 485747344539711451ll, 490888374950464921ll, 494457009619279141ll, 495290639071926253ll, 499743723636265921ll, 503451192399620653ll, 505551963220534081ll,
	508013192406069811ll, 509647797835847551ll, 510772965043405681ll, 514703598602217391ll, 516750456394754821ll, 517713303225108511ll, 520021141546704661ll, 525833736671509003ll,
	527577082656842261ll, 534136877850380821ll, 534857959477515521ll, 535977153028258327ll, 537918077932055941ll, 543112870783318111ll, 548026262907594721ll, 550907649745115851ll,
	554877921891501253ll, 555660345845608741ll, 558386295233340421ll, 559975550624007451ll, 569838902066224961ll, 574258250726285131ll, 578208298369219381ll, 578545875570067021ll,
	583355337562311931ll, 585278885333540971ll, 586629033346746253ll, 591420352144496033ll, 593811272023932241ll, 595872416589923791ll, 603400670014822651ll, 611025727273301341ll,
	618102185250826501ll, 626017880423255347ll, 627939307414994851ll, 630056190621141901ll, 631072941315716791ll, 633858837663572641ll, 635605238637833441ll, 636445977746016901ll,
	639295421625053047ll, 646733767053450511ll, 651053214570392371ll, 652175169400770571ll, 652203333436628161ll, 654084997568988121ll, 655864819745299291ll, 660347123134694131ll,
	662441393634006533ll, 666208102099032811ll, 667896511925538127ll, 675190680710487061ll, 678172268407766653ll, 678303504369596953ll, 679183163478315361ll, 679196397677411017ll,
	682362857023633633ll, 684086287357011841ll, 690104377951524091ll, 693119700990294401ll, 696663842602949731ll, 698425529990794453ll, 700131206907183061ll, 701706224067190651ll,
	704149869251414431ll, 704183819290697791ll, 709130314746336421ll, 715682633615952913ll, 715924465535503351ll, 715956774070343851ll, 716235428016164033ll, 722562641204490703ll,
	722733716466688033ll, 724217960954806207ll, 731827306153765711ll, 733150619793237691ll, 733408028412251653ll, 737570881317401011ll, 738563511363099361ll, 741772013820796531ll,
	741977018766919981ll, 742088193720465871ll, 742976942352758821ll, 744629168201537851ll, 748181785305995041ll, 748185108948340381ll, 749288212652182141ll, 752800723316259481ll,
	757390432153964311ll, 758684172869124391ll, 777909289356493141ll, 785303721727802371ll, 787974258950899021ll, 792753805676850481ll, 792925928637564151ll, 794335340723403781ll,
	796025381750578297ll, 796157369882710111ll, 799029674303934781ll, 801875845074845971ll, 802290738740686903ll, 805700914756532209ll, 806901194396157031ll, 810255820072745971ll,
	811192886529416821ll, 815326759091277751ll, 815758979160919501ll, 816695571443538403ll, 817100582005647253ll, 817330089087099253ll, 819816489061108111ll, 826614032594024533ll,
	831658481402810491ll, 833510948471338231ll, 837439777915179521ll, 839997366274365601ll, 839997591523138621ll, 847087897212422851ll, 850989138172270987ll, 856451729484643753ll,
	862730065020533113ll, 863724027037822471ll, 866768920976029633ll, 866788584820800647ll, 874100936913236033ll, 876030066098700833ll, 878622982823894533ll, 879665006825028271ll,
	884233799768933461ll, 887601324669533633ll, 887825751187477411ll, 890426156138320961ll, 897313797933305941ll, 907382799700283341ll, 907473410084871631ll, 910855509929008381ll,
	911251784025873181ll, 914112112879825831ll, 930830193748688941ll, 932280893130564253ll, 932673326966547211ll, 946403180481845521ll, 956953423231984531ll, 959847219029767771ll,
	962603685000925831ll, 963144277004070253ll, 965170664357629507ll, 966315176679974941ll, 982796309991235711ll, 986801212309018567ll, 988674339410475541ll, 990038433948808861ll,
	999662448821072653ll, 1000224447050312191ll, 1001296375664896711ll, 1004023345553488261ll, 1007901699238168741ll, 1013308431544311211ll, 1023801210002678101ll, 1025668321488928133ll,
	1027924629962179951ll, 1029462722299935631ll, 1029963826172638369ll, 1034640005128053031ll, 1036265825221427503ll, 1037344739293316161ll, 1045087656532465591ll, 1054477856156016601ll,
	1054535626433932471ll, 1058728580708847751ll, 1059768215602954261ll, 1065573503984597653ll, 1068843228822655903ll, 1070196990398944453ll, 1075689546817297231ll, 1077891892156383487ll,
	1080337262325953633ll, 1081846446130550101ll, 1082520359101803511ll, 1085186370688078753ll, 1088359648496461351ll, 1090565500312731691ll, 1094880570474855781ll, 1094931161919905311ll,
	1098206746331472961ll, 1105196042738501911ll, 1116188660544135751ll, 1118866301206991041ll, 1124847907390827901ll, 1125082533763682731ll, 1131149731623976261ll, 1131496698619192753ll,
	1136905765542102533ll, 1140052406186269621ll, 1142243120801475841ll, 1143202711478055691ll, 1145725758069085441ll, 1151448974442677791ll, 1163368030968885307ll, 1163837924755262191ll,
	1168483389832763371ll, 1175650126670931671ll, 1178879807919271321ll, 1181954843156874403ll, 1182766506293689453ll, 1182941792717419351ll, 1183522635997495921ll, 1193428054111275811ll,
	1198951386587815141ll, 1201175291219629441ll, 1205328739326436741ll, 1210606809285039211ll, 1215384620571215461ll, 1217170181050306003ll, 1221111942816654631ll, 1230746623773986401ll,
	1233109521964030231ll, 1241623950977724421ll, 1243068044631131071ll, 1243181897180953861ll, 1243185641321427541ll, 1243571299098600781ll, 1248106025738845981ll, 1257655434499152541ll,
	1262316721045403341ll, 1263605477472660601ll, 1265769026629325371ll, 1271758782445484581ll, 1273200001714634311ll, 1274197664950122331ll, 1275068435237233003ll, 1283893871277903931ll,
	1295101918062836731ll, 1298854139495934451ll, 1310653169870657497ll, 1312331672853016003ll, 1323770618824601221ll, 1324314532152411361ll, 1328185010260884331ll, 1332277903066512403ll,
	1333139862741863221ll, 1343907354318330691ll, 1344962355761606741ll, 1347422820063522751ll, 1347991721198262533ll, 1348972606108458451ll, 1350378824346717301ll, 1356804676595653291ll,
	1359016588320538591ll, 1362125779785028001ll, 1374962897703235231ll, 1382623894618203331ll, 1387402771362091903ll, 1391827566417405211ll, 1401928998765154831ll, 1405580282993044621ll,
	1408906223359356151ll, 1412668838693045251ll, 1415108907214994881ll, 1415713357809173281ll, 1427755788690143851ll, 1443520796498033653ll, 1444315017745835731ll, 1451152718114003101ll,
	1465718125852648981ll, 1474525522762330837ll, 1481510455780392451ll, 1481731541619929827ll, 1492319713490821351ll, 1495739458319558761ll, 1497197213647177591ll, 1502581265828816491ll,
	1502922029859845731ll, 1510789143603371941ll, 1512138619497470581ll, 1513699362635822251ll, 1533477720684504481ll, 1535139604537476031ll, 1549562345386722253ll, 1553731130660069047ll,
	1557841502163928411ll, 1584286761057866911ll, 1589661362642344111ll, 1592195130498841021ll, 1607748500001114721ll, 1608827730132740833ll, 1612119087573111253ll, 1614044435471960467ll,
	1617057389773466101ll, 1617564222976888621ll, 1619192760086216503ll, 1622835486353450071ll, 1636060895650404541ll, 1637431605174062881ll, 1637499700340785711ll, 1640411875408377961ll,
	1651279844715020833ll, 1660771728675533633ll, 1669788727637759821ll, 1678445040230256871ll, 1702171360974234151ll, 1708156352236990501ll, 1711871844257109151ll, 1712990732830893253ll,
	1714341445321869253ll, 1715804102677090861ll, 1721327241013911541ll, 1724118655409914501ll, 1726389961442122411ll, 1727619535318669453ll, 1733082871383410821ll, 1734154134930054991ll,
	1736465695526204191ll, 1736970039323356501ll, 1740687769791734653ll, 1749199077858542311ll, 1749317925127106701ll, 1757851000523312311ll, 1759005965526881633ll, 1759903486770582091ll,
	1761085178756263447ll, 1763817247177319701ll, 1765956067878038653ll, 1784459449957378133ll, 1785591329286280951ll, 1794164357146014127ll, 1806654058011088903ll, 1815445899651208987ll,
	1816172289648989821ll, 1819351195586675521ll, 1820074481789952961ll, 1820605455775452781ll, 1822591536230612033ll, 1824905231182212481ll, 1831953025451115703ll, 1835901488591195581ll,
	1837193148566635861ll, 1852098512185185391ll, 1860044101257677653ll, 1862022146966607361ll, 1862277341376769453ll, 1866209650914497701ll, 1878193999580132851ll, 1879872641068103191ll,
	1884070145270110981ll, 1896991390713910501ll, 1900397723812719337ll, 1901112413414250961ll, 1907544023558438203ll, 1912101749502398821ll, 1918166846302340371ll, 1920360613821570607ll,
	1922897540063212021ll, 1924430770329427951ll, 1932672011321449441ll, 1935075542841025903ll, 1942355460500950501ll, 1942844488190827651ll, 1942853240395735111ll, 1944478180312910551ll,
	1946100248309260891ll, 1947363742592688421ll, 1947988352899947541ll, 1958304294724901311ll, 1961976479390074571ll, 1963848973947268801ll, 1969317670061005111ll, 1980560630102033071ll,
	1987008090521625991ll, 1988548242942803851ll, 1992896761225092031ll, 1999886941670326021ll, 1999998163000421821ll, 2009558436253755481ll, 2015316286832756953ll, 2031537519204623821ll,
	2031715743870636253ll, 2033739630593472691ll, 2035554331707607231ll, 2044617869668966021ll, 2048909407898130181ll, 2051424864870612661ll, 2056448584631246851ll, 2058237509082461167ll,
	2060909003485039753ll, 2067546893574739501ll, 2067985740429811361ll, 2075133604183965781ll, 2084264997158922931ll, 2087115134686624901ll, 2087830344960342811ll, 2100055551912101761ll,
	2119564626956660071ll, 2121937901730582211ll, 2129882382699429403ll, 2130796799007121477ll, 2130884733174605633ll, 2131532855698938121ll, 2137816993913033131ll, 2139029907508667881ll,
	2143155343269207403ll, 2159091584481685591ll, 2160878941566304987ll, 2168746487655385501ll, 2170493128690899841ll, 2172783197880293461ll, 2173254306545549503ll, 2176803097620839551ll,
	2178282865498802371ll, 2179550070474738391ll, 2183572053293469781ll, 2183628763047914461ll, 2197214040459620881ll, 2200880469046436101ll, 2203982872072891003ll, 2213495606166840703ll,
	2225926485478377991ll, 2239610529844470061ll, 2243128760652482011ll, 2245221164601751771ll, 2248311444573606301ll, 2252866727105851951ll, 2253663690835949281ll, 2255550721769328901ll,
	2256496682452816051ll, 2256776558891991841ll, 2264209154904493891ll, 2280396587620326841ll, 2304095103135301141ll, 2314083823130373031ll, 2316542760865148311ll, 2320044060865536253ll,
	2326577810954813461ll, 2328426007789610431ll, 2332102055771830231ll, 2340275989016013751ll, 2343064443892113061ll, 2359923968231386651ll, 2361698851821618403ll, 2372956181083892251ll,
	2376508919309657551ll, 2383207639051098133ll, 2391739234327538101ll, 2398157238160512533ll, 2403198650680563781ll, 2406466317938804551ll, 2411720260674530653ll, 2416591505487614341ll,
	2424452653570768133ll, 2429172690834753991ll, 2431356627785095891ll, 2444146496641845703ll, 2451527572506044311ll, 2452521444029229511ll, 2452799073114544771ll, 2453603504789410291ll,
	2453681785195041301ll, 2466058040565028003ll, 2466937623654425431ll, 2469091267731679471ll, 2477038407279115681ll, 2477563657622357947ll, 2484949466560414591ll, 2488620088233122581ll,
	2492879981205694981ll, 2496074210984979631ll, 2507143348936935451ll, 2512568604754506871ll, 2526791838089025781ll, 2530739999066571181ll, 2552777808256868653ll, 2556124761415390831ll,
	2560532816735298541ll, 2567664368805752287ll, 2569266344995271041ll, 2575509119839451503ll, 2592254798716083931ll, 2599213765518225703ll, 2600842136307487381ll, 2606310552770528311ll,
	2607435583932102661ll, 2630163878398007461ll, 2631719266312452751ll, 2635251252846761251ll, 2675850449715771481ll, 2689242221335458181ll, 2701382817599077501ll, 2701431175613576033ll,
	2704720725877628503ll, 2706625383450446767ll, 2719440340353404821ll, 2739543783950917921ll, 2762170152169542481ll, 2797414162383191521ll, 2821029846670993231ll, 2827800094144394071ll,
	2835294743794750903ll, 2836310468704655491ll, 2838583948571957431ll, 2839411323287662861ll, 2841133831249975381ll, 2854064211080873671ll, 2854479037562167627ll, 2856615867298935289ll,
	2864583601674199021ll, 2884028601837805003ll, 2885297749659661771ll, 2892912668943335191ll, 2899140933767119471ll, 2911762055902001851ll, 2912402650382172811ll, 2918903510421921331ll,
	2922870911296147561ll, 2934112576866823171ll, 2936414735741978011ll, 2946965661478453231ll, 2958368824470367621ll, 2973138690158248501ll, 2981911106735861653ll, 2982401899871066371ll,
	2996842602952380601ll, 3000608186991367231ll, 3003464624067424441ll, 3007204199893466821ll, 3012319393599211741ll, 3018411422020685633ll, 3025564421335658707ll, 3027102713875919251ll,
	3036520373401500833ll, 3040605524321289541ll, 3041657349301293031ll, 3044977988907595861ll, 3047714983350194653ll, 3054665130623200711ll, 3056113178098716781ll, 3072767406577511581ll,
	3080471369878964881ll, 3085992198156769021ll, 3089828815567549903ll, 3090155559869042281ll, 3097424517095839061ll, 3100707042337857751ll, 3102251504646646171ll, 3105638852905962367ll,
	3106031575531184821ll, 3109354884492006151ll, 3120154863235322221ll, 3125442862044413461ll, 3127631007292954471ll, 3138181975666509661ll, 3139797295493379841ll, 3147786330347295253ll,
	3152465591663362133ll, 3160556616706918687ll, 3165267230681119453ll, 3178910416229440903ll, 3182462263959668821ll, 3184120104618714661ll, 3185935626833020951ll, 3190202510587544341ll,
	3196809560013872221ll, 3204702169432730011ll, 3206522381787886591ll, 3206620659881832931ll, 3206703344674589761ll, 3214876006128246721ll, 3215161008803392741ll, 3217282156166211451ll,
	3219116137325033221ll, 3227090727551873761ll, 3230410327508978461ll, 3231998780566389571ll, 3232078532294123791ll, 3240257938764354901ll, 3245028025452411061ll, 3256126288443391681ll,
	3261678295158833131ll, 3265635632840404801ll, 3265744791856195351ll, 3272792014172255851ll, 3300384704776003153ll, 3305720695163383201ll, 3316731480663826501ll, 3335341194013957831ll,
	3353660665664028301ll, 3353741593774844581ll, 3362922729066260251ll, 3368966043672274051ll, 3369388593545688421ll, 3385717583813027011ll, 3399886200239847181ll, 3409214841752463451ll,
	3409827929737433821ll, 3411768145236886711ll, 3416536795791135061ll, 3418253164324131841ll, 3424564278104891041ll, 3432982170887542981ll, 3437548195753185751ll, 3438203474899515601ll,
	3439317671452506691ll, 3444755921417662741ll, 3454747471513976653ll, 3457779649431622651ll, 3467834959742772481ll, 3473631470908254151ll, 3473942526475220101ll, 3473955393027221521ll,
	3473999359794744301ll, 3475890636949277821ll, 3505744421741237287ll, 3511218575045312011ll, 3516593375299703401ll, 3517092728051993221ll, 3520818990014608133ll, 3526604507018450261ll,
	3536108712173451151ll, 3539325138484009951ll, 3542440884169903381ll, 3542726377949323753ll, 3546165536270657821ll, 3552583725688120003ll, 3564874108676336321ll, 3581678815969368241ll,
	3587020088691107503ll, 3589269064374788033ll, 3593358961204113991ll, 3596745937934711071ll, 3596863091644322191ll, 3597652673722401661ll, 3599502613251864301ll, 3605682319614158491ll,
	3609901357981219153ll, 3614134574559281653ll, 3617106564185150653ll, 3621646189806590611ll, 3624165072712053451ll, 3631750205314628101ll, 3631860544681263511ll, 3632723306751462661ll,
	3637197436507946191ll, 3640385143256609809ll, 3643744806528325201ll, 3647770406266426021ll, 3649539079546777567ll, 3675246819335361271ll, 3677333513871600833ll, 3680118632724222781ll,
	3680710170009584251ll, 3685523430890633221ll, 3686495713581268087ll, 3689543514202796251ll, 3689678483649312001ll, 3702418300555296211ll, 3704192615511757351ll, 3711865071136014253ll,
	3722295824785963237ll, 3724326737910034453ll, 3736188535356352351ll, 3739470189581757511ll, 3744177982391890891ll, 3748011307538300161ll, 3749135858150359381ll, 3749738867025191041ll,
	3756119311930196611ll, 3760994358704104831ll, 3761976435936019003ll, 3764262356775282781ll, 3778931978724058133ll, 3787641360170590081ll, 3787662915862376671ll, 3787698850380900703ll,
	3811288881800664631ll, 3837784262944267261ll, 3841160050032760153ll, 3844576885268336311ll, 3849424810632584371ll, 3854409160275601021ll, 3874433823825523003ll, 3881882214504147367ll,
	3892557734632298707ll, 3896066631150618121ll, 3897396137611756807ll, 3898511813032477651ll, 3903461644793050801ll, 3906357121485931087ll, 3926162536291300861ll, 3932829612439181191ll,
	3936890792185480711ll, 3949782220391616001ll, 3961458032491206253ll, 3966134076087956191ll, 3969329198387374981ll, 3989947895466580711ll, 3990396859183354591ll, 4029281103415172221ll,
	4031485861574565703ll, 4034783988212172751ll, 4047316487579876197ll, 4055190145463931211ll, 4058396002854745831ll, 4061190471756426401ll, 4064003912970376381ll, 4067865950499377461ll,
	4068550296590263903ll, 4072384081966936231ll, 4082180836666152481ll, 4093124113860223861ll, 4101672276049983521ll, 4109299753514429633ll, 4112774469579216871ll, 4121957201855581441ll,
	4129618199511975127ll, 4141447587638884711ll, 4146715487272096441ll, 4170216891372491041ll, 4177848066840138151ll, 4180678175937901501ll, 4192767086114939221ll, 4195495109990378503ll,
	4197780741353321281ll, 4198170959243286301ll, 4205340993262704571ll, 4216426940796637027ll, 4216490393176064251ll, 4222362325582524061ll, 4223841890020336711ll, 4228856305213214503ll,
	4235970996805591891ll, 4243563010198509661ll, 4244433294351445903ll, 4286516638003235191ll, 4290796002958149961ll, 4292603701297186133ll, 4314951520048762291ll, 4322000044324822861ll,
	4328551526765389111ll, 4336265005354487047ll, 4336929750273757003ll, 4340490096716175403ll, 4353168954949063831ll, 4358952969531115231ll, 4382181426926477791ll, 4383201603896385661ll,
	4383757768477925503ll, 4391280269076557851ll, 4395897030451804741ll, 4417420376316519001ll, 4424854461515341561ll, 4425780412930606003ll, 4449822387213849661ll, 4473350078342780251ll,
	4485337652578599301ll, 4504030223985819361ll, 4520900653042663891ll, 4521369895127082091ll, 4523130166835965051ll, 4526007333047897131ll, 4538677565808439453ll, 4553665786412379253ll,
	4559032529822080133ll, 4568054356849957291ll, 4575241722857392133ll, 4588046538826787851ll, 4594472410404690703ll, 4607098135438779991ll, 4632359407193701891ll, 4652124724696814371ll,
	4655779417332394471ll, 4657553499797419231ll, 4662903353593639771ll, 4664602775106578431ll, 4672675495484636221ll, 4672992452348945341ll, 4696362345150861661ll, 4728082001435987041ll,
	4730019308271234253ll, 4748252426156860741ll, 4751303924726545231ll, 4759887098714696033ll, 4764610769854134781ll, 4785202387353473821ll, 4785949336993867981ll, 4794932701360430371ll,
	4800605333953153861ll, 4806171145232081941ll, 4819441898007398971ll, 4820067444230462791ll, 4826705962169800021ll, 4827576978817616341ll, 4843898316695648341ll, 4850584148150855731ll,
	4858443174139309891ll, 4877504635451471731ll, 4889447694778709611ll, 4921655197214808361ll, 4925869947884852011ll, 4961373649295418631ll, 4977147792051911521ll, 4977524814195726253ll,
	4977527350946600971ll, 4988659304400426271ll, 4996843158143823031ll, 4998509417630303191ll, 5021084155432927861ll, 5030249670814823731ll, 5040392959583595811ll, 5061632012526360781ll,
	5081695659769539331ll, 5092059731259464281ll, 5099029521590160001ll, 5110232763398338621ll, 5118276117930360661ll, 5119080296567997061ll, 5131784954508152221ll, 5135728084225115653ll,
	5137309137334412611ll, 5154590326678206121ll, 5195864891207610901ll, 5196280978695678301ll, 5221125831185815951ll, 5225084393254771321ll, 5225620940078834431ll, 5226764806634917591ll,
	5227017580630705861ll, 5228784298111001491ll, 5232805312628669401ll, 5250905179103025721ll, 5255702306146459261ll, 5257182662675029633ll, 5261862120214891591ll, 5286465461862911341ll,
	5301045914638609981ll, 5321669296178119501ll, 5341700901035926981ll, 5351915571028006501ll, 5354383938742710271ll, 5368485321807542551ll, 5387762110103718841ll, 5395268373814671661ll,
	5397335887820375071ll, 5411322149808236941ll, 5426164939498056991ll, 5429039651839540171ll, 5442716512408642741ll, 5448773235206878981ll, 5449365155003835781ll, 5472013500651567871ll,
	5483906363529749431ll, 5501889680390916751ll, 5508001569487804003ll, 5513311262339923591ll, 5516024821299501211ll, 5522082741228180403ll, 5524779590113530781ll, 5526123334549219711ll,
	5558366204843272831ll, 5569821796357121491ll, 5576955738399496153ll, 5578695935864605261ll, 5578963053632142301ll, 5584885859594334061ll, 5597325106973909011ll, 5609381798549962621ll,
	5675768044444496701ll, 5677531757619446341ll, 5689319070180680551ll, 5720056066753140421ll, 5726225666929542391ll, 5728108937149622341ll, 5744156082656224133ll, 5748042887652057931ll,
	5764559031333308251ll, 5773227626045437111ll, 5781470925070298503ll, 5793677909860894453ll, 5807130992431220341ll, 5815272076926482341ll, 5815739892011724811ll, 5833528821505590661ll,
	5842068841564775821ll, 5852059263447980131ll, 5852646097445973871ll, 5856963068165139811ll, 5879615108777540101ll, 5920929069281805151ll, 5932632518407079101ll, 5933459251063439101ll,
	5953791201392229751ll, 5965579418599083403ll, 5966973715980640133ll, 5991063060378185371ll, 6003728944521971851ll, 6018178105217680291ll, 6036113002321171351ll, 6037592609214584281ll,
	6046419934792393003ll, 6053393184824309941ll, 6072711340229687341ll, 6096931017016139821ll, 6098284789665731911ll, 6104077682906888821ll, 6116991894503511031ll, 6134278936821982381ll,
	6142660753632039253ll, 6148302699098044621ll, 6199273103336817211ll, 6205620838175943031ll, 6209519040875155141ll, 6216053530863510181ll, 6222562459017057091ll, 6225329663132159971ll,
	6257339572773102661ll, 6263183298161564911ll, 6263743419931952503ll, 6286873118238211591ll, 6290272368624584341ll, 6298287807535563421ll, 6325580011492013581ll, 6327163832280514471ll,
	6334707040587598861ll, 6339812692934642041ll, 6343474341080542681ll, 6346648368041499181ll, 6378353867357124841ll, 6389647930141626151ll, 6405237897746883751ll, 6431893757171072191ll,
	6460045327327487941ll, 6483528845699475151ll, 6505786632433786561ll, 6506378580171781711ll, 6590397063476102311ll, 6606223129989686521ll, 6609336346248897691ll, 6676933640245346341ll,
	6711122509017841531ll, 6716314961623311661ll, 6718485494712209653ll, 6741641219343064453ll, 6759302100025530331ll, 6778920018474176761ll, 6780449530103148901ll, 6788202697718306101ll,
	6788736167106319471ll, 6789383079365560411ll, 6796464250290022171ll, 6812791934839258231ll, 6816313654113167821ll, 6834949613459915221ll, 6878557335412373491ll, 6890320713688638661ll,
	6902109657469544671ll, 6910696824746841253ll, 6948564261454461691ll, 6956068058837726401ll, 6984876147261275971ll, 7017845770108417861ll, 7027463990410919191ll, 7028117229653871751ll,
	7036378375403572903ll, 7040643515887161151ll, 7051036230893741131ll, 7063822912750688701ll, 7077238368219999253ll, 7084270257458344471ll, 7092940680448925581ll, 7114988648226386791ll,
	7119988334612988841ll, 7121584878818146831ll, 7124546352258576361ll, 7145494185075698341ll, 7149429382665530971ll, 7188033129533318611ll, 7219200583829556631ll, 7222067034423123403ll,
	7229209504635098371ll, 7234964703911344861ll, 7238021930676608653ll, 7251114339205004971ll, 7274420127798261301ll, 7285861326387467071ll, 7286084639714609821ll, 7289959384338229171ll,
	7298698255067126953ll, 7300750869939036511ll, 7324939294318954171ll, 7335243679815375031ll, 7338636379313101171ll, 7377090447362565511ll, 7393806922353977791ll, 7430365862305963741ll,
	7442718589399747501ll, 7461339463282460311ll, 7464178705273205653ll, 7489142813748632653ll, 7501350133535424211ll, 7511484563703416341ll, 7519516386040964971ll, 7549548452724538261ll,
	7562353790368619551ll, 7579945375886970703ll, 7584534954658607653ll, 7614005586301079461ll, 7621673444693614351ll, 7660146008861717491ll, 7675361535717007021ll, 7734736532024692651ll,
	7787520685155247471ll, 7792016533698171781ll, 7805300545567089181ll, 7820250395998855951ll, 7843962115408026961ll, 7856848395351828181ll, 7892251498351987903ll, 7899896853629576461ll,
	7913591369269115221ll, 7960870929749782411ll, 7981754804603014753ll, 7996053196909323253ll, 7997115306092486941ll, 8006643464665825981ll, 8028538932911404771ll, 8037434575948620781ll,
	8043680027055567511ll, 8084210936054328631ll, 8085591966452973391ll, 8106931263432913003ll, 8121897082307580391ll, 8130767098754712691ll, 8161350182532700471ll, 8176443087114344503ll,
	8179809567290433901ll, 8195169086684261191ll, 8260155080646794461ll, 8264233840546338931ll, 8271267925104209161ll, 8297156945726775253ll, 8306540897579985061ll, 8350005366310304791ll,
	8380726843970408203ll, 8383314761420186251ll, 8386829666354958391ll, 8437721172685919731ll, 8478710151167181061ll, 8490055488719399731ll, 8502595511196905821ll, 8513493826836687391ll,
	8517615883122461671ll, 8537037115053389221ll, 8551481363676192061ll, 8584669961855209531ll, 8604392003195610511ll, 8620925359840261903ll, 8627646568926328651ll, 8634653792452558261ll,
	8642583068772894121ll, 8646600370888283203ll, 8716620582841414951ll, 8730072515566238203ll, 8735485324486823731ll, 8747813478905094331ll, 8804524172845768291ll, 8825516896732947811ll,
	8848410648350638501ll, 8858068046314822891ll, 8885019221728916311ll, 8885460079203278581ll, 8896746312289927981ll, 8927324530917624721ll, 8939156773727028421ll, 8962413273070748011ll,
	8963574973113124981ll, 8990484857784901981ll, 8995343228361892711ll, 9034134711692863051ll, 9050546632922287741ll, 9051012255545351101ll, 9076194931918278781ll, 9098876587666649491ll,
	9100914343162747381ll, 9135644953466661211ll, 9137949990929681041ll, 9138372608395292653ll, 9157474049336774281ll, 9179761353756126841ll, 9195581394615542851ll, 9202202756884208447ll,
};
