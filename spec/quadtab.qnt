// Quadrature rules on [-1, 1], scaled by 10^24.  Written by harness/gen_tables.py
module quadtab {
  pure def glx(n: int): List[int] =
    if (n == 1) [0] else
    if (n == 2) [-577350269189625764509149, 577350269189625764509149] else
    if (n == 3) [-774596669241483377035853, 0, 774596669241483377035853] else
    if (n == 4) [-861136311594052575223946, -339981043584856264802666, 339981043584856264802666, 861136311594052575223946] else
    if (n == 5) [-906179845938663992797627, -538469310105683091036314, 0, 538469310105683091036314, 906179845938663992797627] else
    if (n == 6) [-932469514203152027812302, -661209386466264513661400, -238619186083196908630502, 238619186083196908630502, 661209386466264513661400, 932469514203152027812302] else
    if (n == 7) [-949107912342758524526190, -741531185599394439863865, -405845151377397166906606, 0, 405845151377397166906606, 741531185599394439863865, 949107912342758524526190] else
    if (n == 8) [-960289856497536231683561, -796666477413626739591554, -525532409916328985817739, -183434642495649804939476, 183434642495649804939476, 525532409916328985817739, 796666477413626739591554, 960289856497536231683561] else
    if (n == 9) [-968160239507626089835576, -836031107326635794299430, -613371432700590397308702, -324253423403808929038538, 0, 324253423403808929038538, 613371432700590397308702, 836031107326635794299430, 968160239507626089835576] else
    if (n == 10) [-973906528517171720077964, -865063366688984510732097, -679409568299024406234327, -433395394129247190799266, -148874338981631210884826, 148874338981631210884826, 433395394129247190799266, 679409568299024406234327, 865063366688984510732097, 973906528517171720077964] else
    if (n == 11) [-978228658146056992803938, -887062599768095299075158, -730152005574049324093416, -519096129206811815925726, -269543155952344972331532, 0, 269543155952344972331532, 519096129206811815925726, 730152005574049324093416, 887062599768095299075158, 978228658146056992803938] else
    if (n == 12) [-981560634246719250690549, -904117256370474856678466, -769902674194304687036894, -587317954286617447296702, -367831498998180193752692, -125233408511468915472441, 125233408511468915472441, 367831498998180193752692, 587317954286617447296702, 769902674194304687036894, 904117256370474856678466, 981560634246719250690549] else
    if (n == 13) [-984183054718588149472829, -917598399222977965206548, -801578090733309912794206, -642349339440340220643985, -448492751036446852877913, -230458315955134794065528, 0, 230458315955134794065528, 448492751036446852877913, 642349339440340220643985, 801578090733309912794206, 917598399222977965206548, 984183054718588149472829] else
    if (n == 14) [-986283808696812338841597, -928434883663573517336391, -827201315069764993189795, -687292904811685470148020, -515248636358154091965291, -319112368927889760435672, -108054948707343662066245, 108054948707343662066245, 319112368927889760435672, 515248636358154091965291, 687292904811685470148020, 827201315069764993189795, 928434883663573517336391, 986283808696812338841597] else
    if (n == 15) [-987992518020485428489566, -937273392400705904307759, -848206583410427216200648, -724417731360170047416186, -570972172608538847537227, -394151347077563369897207, -201194093997434522300628, 0, 201194093997434522300628, 394151347077563369897207, 570972172608538847537227, 724417731360170047416186, 848206583410427216200648, 937273392400705904307759, 987992518020485428489566] else
    if (n == 16) [-989400934991649932596154, -944575023073232576077988, -865631202387831743880468, -755404408355003033895101, -617876244402643748446672, -458016777657227386342419, -281603550779258913230461, -95012509837637440185319, 95012509837637440185319, 281603550779258913230461, 458016777657227386342419, 617876244402643748446672, 755404408355003033895101, 865631202387831743880468, 944575023073232576077988, 989400934991649932596154] else
    if (n == 20) [-993128599185094924786122, -963971927277913791267666, -912234428251325905867752, -839116971822218823394529, -746331906460150792614305, -636053680726515025452837, -510867001950827098004364, -373706088715419560672548, -227785851141645078080496, -76526521133497333754640, 76526521133497333754640, 227785851141645078080496, 373706088715419560672548, 510867001950827098004364, 636053680726515025452837, 746331906460150792614305, 839116971822218823394529, 912234428251325905867752, 963971927277913791267666, 993128599185094924786122] else
    if (n == 24) [-995187219997021360179997, -974728555971309498198392, -938274552002732758523649, -886415527004401034213154, -820001985973902921953950, -740124191578554364243828, -648093651936975569252496, -545421471388839535658376, -433793507626045138487084, -315042679696163374386793, -191118867473616309158640, -64056892862605626085043, 64056892862605626085043, 191118867473616309158640, 315042679696163374386793, 433793507626045138487084, 545421471388839535658376, 648093651936975569252496, 740124191578554364243828, 820001985973902921953950, 886415527004401034213154, 938274552002732758523649, 974728555971309498198392, 995187219997021360179997] else
    if (n == 32) [-997263861849481563544981, -985611511545268335400175, -964762255587506430773812, -934906075937739689170919, -896321155766052123965307, -849367613732569970133693, -794483795967942406963097, -732182118740289680387427, -663044266930215200975115, -587715757240762329040745, -506899908932229390023747, -421351276130635345364119, -331868602282127649779917, -239287362252137074544603, -144471961582796493485186, -48307665687738316234813, 48307665687738316234813, 144471961582796493485186, 239287362252137074544603, 331868602282127649779917, 421351276130635345364119, 506899908932229390023747, 587715757240762329040745, 663044266930215200975115, 732182118740289680387427, 794483795967942406963097, 849367613732569970133693, 896321155766052123965307, 934906075937739689170919, 964762255587506430773812, 985611511545268335400175, 997263861849481563544981] else
    []
  pure def glw(n: int): List[int] =
    if (n == 1) [2000000000000000000000000] else
    if (n == 2) [1000000000000000000000000, 1000000000000000000000000] else
    if (n == 3) [555555555555555555555556, 888888888888888888888889, 555555555555555555555556] else
    if (n == 4) [347854845137453857373064, 652145154862546142626936, 652145154862546142626936, 347854845137453857373064] else
    if (n == 5) [236926885056189087514264, 478628670499366468041292, 568888888888888888888889, 478628670499366468041292, 236926885056189087514264] else
    if (n == 6) [171324492379170345040296, 360761573048138607569834, 467913934572691047389870, 467913934572691047389870, 360761573048138607569834, 171324492379170345040296] else
    if (n == 7) [129484966168869693270611, 279705391489276667901468, 381830050505118944950370, 417959183673469387755102, 381830050505118944950370, 279705391489276667901468, 129484966168869693270611] else
    if (n == 8) [101228536290376259152531, 222381034453374470544356, 313706645877887287337962, 362683783378361982965150, 362683783378361982965150, 313706645877887287337962, 222381034453374470544356, 101228536290376259152531] else
    if (n == 9) [81274388361574411971892, 180648160694857404058472, 260610696402935462318743, 312347077040002840068630, 330239355001259763164525, 312347077040002840068630, 260610696402935462318743, 180648160694857404058472, 81274388361574411971892] else
    if (n == 10) [66671344308688137593569, 149451349150580593145776, 219086362515982043995535, 269266719309996355091227, 295524224714752870173893, 295524224714752870173893, 269266719309996355091227, 219086362515982043995535, 149451349150580593145776, 66671344308688137593569] else
    if (n == 11) [55668567116173666482754, 125580369464904624634694, 186290210927734251426098, 233193764591990479918524, 262804544510246662180689, 272925086777900630714484, 262804544510246662180689, 233193764591990479918524, 186290210927734251426098, 125580369464904624634694, 55668567116173666482754] else
    if (n == 12) [47175336386511827194616, 106939325995318430960255, 160078328543346226334653, 203167426723065921749064, 233492536538354808760850, 249147045813402785000562, 249147045813402785000562, 233492536538354808760850, 203167426723065921749064, 160078328543346226334653, 106939325995318430960255, 47175336386511827194616] else
    if (n == 13) [40484004765315879520022, 92121499837728447914422, 138873510219787238463602, 178145980761945738280047, 207816047536888502312523, 226283180262897238412090, 232551553230873910194590, 226283180262897238412090, 207816047536888502312523, 178145980761945738280047, 138873510219787238463602, 92121499837728447914422, 40484004765315879520022] else
    if (n == 14) [35119460331751863031833, 80158087159760209805633, 121518570687903184689415, 157203167158193534569602, 185538397477937813741717, 205198463721295603965924, 215263853463157790195876, 215263853463157790195876, 205198463721295603965924, 185538397477937813741717, 157203167158193534569602, 121518570687903184689415, 80158087159760209805633, 35119460331751863031833] else
    if (n == 15) [30753241996117268354628, 70366047488108124709267, 107159220467171935011870, 139570677926154314447805, 166269205816993933553201, 186161000015562211026801, 198431485327111576456118, 202578241925561272880620, 198431485327111576456118, 186161000015562211026801, 166269205816993933553201, 139570677926154314447805, 107159220467171935011870, 70366047488108124709267, 30753241996117268354628] else
    if (n == 16) [27152459411754094851781, 62253523938647892862844, 95158511682492784809925, 124628971255533872052476, 149595988816576732081502, 169156519395002538189312, 182603415044923588866764, 189450610455068496285397, 189450610455068496285397, 182603415044923588866764, 169156519395002538189312, 149595988816576732081502, 124628971255533872052476, 95158511682492784809925, 62253523938647892862844, 27152459411754094851781] else
    if (n == 20) [17614007139152118311862, 40601429800386941331040, 62672048334109063569507, 83276741576704748724758, 101930119817240435036750, 118194531961518417312377, 131688638449176626898494, 142096109318382051329298, 149172986472603746787829, 152753387130725850698084, 152753387130725850698084, 149172986472603746787829, 142096109318382051329298, 131688638449176626898494, 118194531961518417312377, 101930119817240435036750, 83276741576704748724758, 62672048334109063569507, 40601429800386941331040, 17614007139152118311862] else
    if (n == 24) [12341229799987199546806, 28531388628933663181308, 44277438817419806168603, 59298584915436780746368, 73346481411080305734034, 86190161531953275917185, 97618652104113888269881, 107444270115965634782577, 115505668053725601353344, 121670472927803391204463, 125837456346828296121375, 127938195346752156974056, 127938195346752156974056, 125837456346828296121375, 121670472927803391204463, 115505668053725601353344, 107444270115965634782577, 97618652104113888269881, 86190161531953275917185, 73346481411080305734034, 59298584915436780746368, 44277438817419806168603, 28531388628933663181308, 12341229799987199546806] else
    if (n == 32) [7018610009470096600407, 16274394730905670605171, 25392065309262059455753, 34273862913021433102688, 42835898022226680656879, 50998059262376176196163, 58684093478535547145284, 65822222776361846837650, 72345794108848506225399, 78193895787070306471741, 83311924226946755222199, 87652093004403811142771, 91173878695763884712869, 93844399080804565639180, 95638720079274859419082, 96540088514727800566765, 96540088514727800566765, 95638720079274859419082, 93844399080804565639180, 91173878695763884712869, 87652093004403811142771, 83311924226946755222199, 78193895787070306471741, 72345794108848506225399, 65822222776361846837650, 58684093478535547145284, 50998059262376176196163, 42835898022226680656879, 34273862913021433102688, 25392065309262059455753, 16274394730905670605171, 7018610009470096600407] else
    []
  pure def lobx(n: int): List[int] =
    if (n == 2) [-1000000000000000000000000, 1000000000000000000000000] else
    if (n == 3) [-1000000000000000000000000, 0, 1000000000000000000000000] else
    if (n == 4) [-1000000000000000000000000, -447213595499957939281835, 447213595499957939281835, 1000000000000000000000000] else
    if (n == 5) [-1000000000000000000000000, -654653670707977143798292, 0, 654653670707977143798292, 1000000000000000000000000] else
    if (n == 6) [-1000000000000000000000000, -765055323929464692851003, -285231516480645096314151, 285231516480645096314151, 765055323929464692851003, 1000000000000000000000000] else
    if (n == 7) [-1000000000000000000000000, -830223896278566929872032, -468848793470714213803772, 0, 468848793470714213803772, 830223896278566929872032, 1000000000000000000000000] else
    if (n == 8) [-1000000000000000000000000, -871740148509606615337446, -591700181433142302144511, -209299217902478868768657, 209299217902478868768657, 591700181433142302144511, 871740148509606615337446, 1000000000000000000000000] else
    if (n == 9) [-1000000000000000000000000, -899757995411460157312345, -677186279510737753445885, -363117463826178158710752, 0, 363117463826178158710752, 677186279510737753445885, 899757995411460157312345, 1000000000000000000000000] else
    if (n == 10) [-1000000000000000000000000, -919533908166458813828933, -738773865105505075003106, -477924949810444495661175, -165278957666387024626220, 165278957666387024626220, 477924949810444495661175, 738773865105505075003106, 919533908166458813828933, 1000000000000000000000000] else
    if (n == 11) [-1000000000000000000000000, -934001430408059134332274, -784483473663144418622418, -565235326996205006470964, -295758135586939391431912, 0, 295758135586939391431912, 565235326996205006470964, 784483473663144418622418, 934001430408059134332274, 1000000000000000000000000] else
    if (n == 12) [-1000000000000000000000000, -944899272222882223407580, -819279321644006678348642, -632876153031860677662405, -399530940965348932264350, -136552932854927554864062, 136552932854927554864062, 399530940965348932264350, 632876153031860677662405, 819279321644006678348642, 944899272222882223407580, 1000000000000000000000000] else
    if (n == 13) [-1000000000000000000000000, -953309846642163911896905, -846347564651872316865926, -686188469081757426072759, -482909821091336201746937, -249286930106239992568674, 0, 249286930106239992568674, 482909821091336201746937, 686188469081757426072759, 846347564651872316865926, 953309846642163911896905, 1000000000000000000000000] else
    if (n == 14) [-1000000000000000000000000, -959935045267260901355100, -867801053830347251000220, -728868599091326140584672, -550639402928647055316623, -342724013342712845043903, -116331868883703867658777, 116331868883703867658777, 342724013342712845043903, 550639402928647055316623, 728868599091326140584672, 867801053830347251000220, 959935045267260901355100, 1000000000000000000000000] else
    if (n == 15) [-1000000000000000000000000, -965245926503838572795851, -885082044222976298825402, -763519689951815200704118, -606253205469845711123530, -420638054713672480921897, -215353955363794238225679, 0, 215353955363794238225679, 420638054713672480921897, 606253205469845711123530, 763519689951815200704118, 885082044222976298825402, 965245926503838572795851, 1000000000000000000000000] else
    if (n == 16) [-1000000000000000000000000, -969568046270217932952243, -899200533093472092994628, -792008291861815063931088, -652388702882493089467883, -486059421887137611781891, -299830468900763208098353, -101326273521949447843033, 101326273521949447843033, 299830468900763208098353, 486059421887137611781891, 652388702882493089467883, 792008291861815063931088, 899200533093472092994628, 969568046270217932952243, 1000000000000000000000000] else
    if (n == 17) [-1000000000000000000000000, -973132176631418314156980, -910879995915573595623803, -815696251221770307106751, -691028980627684705394919, -541385399330101539123733, -372174433565477041907235, -189511973518317388304263, 0, 189511973518317388304263, 372174433565477041907235, 541385399330101539123733, 691028980627684705394919, 815696251221770307106751, 910879995915573595623803, 973132176631418314156980, 1000000000000000000000000] else
    if (n == 25) [-1000000000000000000000000, -987789944931493709271804, -959264138252534478859845, -914982770734622578323150, -855676465835316577523813, -782319659240716780399188, -696117048815134366760365, -598484147279993268097621, -491024114818878382618960, -375501457859227233228715, -253813064168876580179887, -127957059483106972708985, 0, 127957059483106972708985, 253813064168876580179887, 375501457859227233228715, 491024114818878382618960, 598484147279993268097621, 696117048815134366760365, 782319659240716780399188, 855676465835316577523813, 914982770734622578323150, 959264138252534478859845, 987789944931493709271804, 1000000000000000000000000] else
    if (n == 33) [-1000000000000000000000000, -993056358433658343667336, -976786163316906301485628, -951393451396995743375524, -917117303450941240825679, -874278100750562220646561, -823275923004067469559071, -764587001793528628006658, -698759316618162595699677, -626407491281268257263831, -548207059919111623110405, -464888161632106755973004, -377228724253393635041935, -286047201487674041605345, -192194931467477225741307, -96548188176107006316958, 0, 96548188176107006316958, 192194931467477225741307, 286047201487674041605345, 377228724253393635041935, 464888161632106755973004, 548207059919111623110405, 626407491281268257263831, 698759316618162595699677, 764587001793528628006658, 823275923004067469559071, 874278100750562220646561, 917117303450941240825679, 951393451396995743375524, 976786163316906301485628, 993056358433658343667336, 1000000000000000000000000] else
    []
  pure def lobw(n: int): List[int] =
    if (n == 2) [1000000000000000000000000, 1000000000000000000000000] else
    if (n == 3) [333333333333333333333333, 1333333333333333333333333, 333333333333333333333333] else
    if (n == 4) [166666666666666666666667, 833333333333333333333333, 833333333333333333333333, 166666666666666666666667] else
    if (n == 5) [100000000000000000000000, 544444444444444444444444, 711111111111111111111111, 544444444444444444444444, 100000000000000000000000] else
    if (n == 6) [66666666666666666666667, 378474956297846980316613, 554858377035486353016721, 554858377035486353016721, 378474956297846980316613, 66666666666666666666667] else
    if (n == 7) [47619047619047619047619, 276826047361565948010700, 431745381209862623417871, 487619047619047619047619, 431745381209862623417871, 276826047361565948010700, 47619047619047619047619] else
    if (n == 8) [35714285714285714285714, 210704227143506039382992, 341122692483504364764241, 412458794658703881567053, 412458794658703881567053, 341122692483504364764241, 210704227143506039382992, 35714285714285714285714] else
    if (n == 9) [27777777777777777777778, 165495361560805525046340, 274538712500161735280706, 346428510973046345115132, 371519274376417233560091, 346428510973046345115132, 274538712500161735280706, 165495361560805525046340, 27777777777777777777778] else
    if (n == 10) [22222222222222222222222, 133305990851070111126227, 224889342063126452119458, 292042683679683757875582, 327539761183897456656511, 327539761183897456656511, 292042683679683757875582, 224889342063126452119458, 133305990851070111126227, 22222222222222222222222] else
    if (n == 11) [18181818181818181818182, 109612273266994864461403, 187169881780305204108142, 248048104264028314040085, 286879124779008088679222, 300217595455690693785932, 286879124779008088679222, 248048104264028314040085, 187169881780305204108142, 109612273266994864461403, 18181818181818181818182] else
    if (n == 12) [15151515151515151515152, 91684517413196130668343, 157974705564370115164671, 212508417761021145358302, 251275603199201280293244, 271405240910696177000288, 271405240910696177000288, 251275603199201280293244, 212508417761021145358302, 157974705564370115164671, 91684517413196130668343, 15151515151515151515152] else
    if (n == 13) [12820512820512820512821, 77801686746818927793589, 134981926689608349119915, 183646865203550092007494, 220767793566110086085534, 244015790306676356458578, 251930849333446736044139, 244015790306676356458578, 220767793566110086085534, 183646865203550092007494, 134981926689608349119915, 77801686746818927793589, 12820512820512820512821] else
    if (n == 14) [10989010989010989010989, 66837284497681284634071, 116586655898711651540997, 160021851762952142412821, 194826149373416118640332, 219126253009770754871163, 231612794468457058889628, 231612794468457058889628, 219126253009770754871163, 194826149373416118640332, 160021851762952142412821, 116586655898711651540997, 66837284497681284634071, 10989010989010989010989] else
    if (n == 15) [9523809523809523809524, 58029893028601249096881, 101660070325718067603666, 140511699802428109460447, 172789647253600949052077, 196987235964613356092500, 211973585926820920127430, 217048116348815649514950, 211973585926820920127430, 196987235964613356092500, 172789647253600949052077, 140511699802428109460447, 101660070325718067603666, 58029893028601249096881, 9523809523809523809524] else
    if (n == 16) [8333333333333333333333, 50850361005919905403245, 89393697325930800991052, 124255382132514098349536, 154026980807164280815645, 177491913391704125301076, 193690023825203584316914, 201958308178229871489199, 201958308178229871489199, 193690023825203584316914, 177491913391704125301076, 154026980807164280815645, 124255382132514098349536, 89393697325930800991052, 50850361005919905403245, 8333333333333333333333] else
    if (n == 17) [7352941176470588235294, 44921940543254209647401, 79198270503687119190264, 110592909007028161375773, 137987746201926559056202, 160394661997621539516328, 177004253515657870436946, 187216339677619235892088, 190661874753469433299407, 187216339677619235892088, 177004253515657870436946, 160394661997621539516328, 137987746201926559056202, 110592909007028161375773, 79198270503687119190264, 44921940543254209647401, 7352941176470588235294] else
    if (n == 25) [3333333333333333333333, 20465168932974385308542, 36504738794271372032383, 51936228368491474643334, 66513728675312784693870, 79998774836292981801626, 92170139910620421912690, 102828030347957830827504, 111797466268320888156244, 118931179406811825409444, 124112038937950290695215, 127254977538331447017114, 128308389298661928337399, 127254977538331447017114, 124112038937950290695215, 118931179406811825409444, 111797466268320888156244, 102828030347957830827504, 92170139910620421912690, 79998774836292981801626, 66513728675312784693870, 51936228368491474643334, 36504738794271372032383, 20465168932974385308542, 3333333333333333333333] else
    if (n == 33) [1893939393939393939394, 11648448392267734651222, 20864609017603360095812, 29881045916746477519971, 38617814771813967563859, 46993850461024170547973, 54931059442626967951699, 62355367852465305441061, 69197469494016147559970, 75393486923973828507130, 80885572193455092179708, 85622448531813132550192, 89559889747077400661148, 92661133442241463529935, 94897224394591815824355, 96247284972985461996554, 96698710102716558960033, 96247284972985461996554, 94897224394591815824355, 92661133442241463529935, 89559889747077400661148, 85622448531813132550192, 80885572193455092179708, 75393486923973828507130, 69197469494016147559970, 62355367852465305441061, 54931059442626967951699, 46993850461024170547973, 38617814771813967563859, 29881045916746477519971, 20864609017603360095812, 11648448392267734651222, 1893939393939393939394] else
    []
}
