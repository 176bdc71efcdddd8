package grapheme

// Classes of Unicode 11 as runs "first code point:class" (emoji: bit set of tables), cross-checked
// against the derivations of UAX#29 from general categories (see DESIGN.md).
var vGold = "" +
	"-3:999 0:1001 1:3 10:1 11:3 13:0 14:3 32:999 127:3 160:999 173:3 174:999 768:4 880:999 1155:4 1162:999 1425:4 " +
	"1470:999 1471:4 1472:999 1473:4 1475:999 1476:4 1478:999 1479:4 1480:999 1536:2 1542:999 1552:4 1563:999 " +
	"1564:3 1565:999 1611:4 1632:999 1648:4 1649:999 1750:4 1757:2 1758:999 1759:4 1765:999 1767:4 1769:999 1770:4 " +
	"1774:999 1807:2 1808:999 1809:4 1810:999 1840:4 1867:999 1958:4 1969:999 2027:4 2036:999 2045:4 2046:999 " +
	"2070:4 2074:999 2075:4 2084:999 2085:4 2088:999 2089:4 2094:999 2137:4 2140:999 2259:4 2274:2 2275:4 2307:6 " +
	"2308:999 2362:4 2363:6 2364:4 2365:999 2366:6 2369:4 2377:6 2381:4 2382:6 2384:999 2385:4 2392:999 2402:4 " +
	"2404:999 2433:4 2434:6 2436:999 2492:4 2493:999 2494:4 2495:6 2497:4 2501:999 2503:6 2505:999 2507:6 2509:4 " +
	"2510:999 2519:4 2520:999 2530:4 2532:999 2558:4 2559:999 2561:4 2563:6 2564:999 2620:4 2621:999 2622:6 2625:4 " +
	"2627:999 2631:4 2633:999 2635:4 2638:999 2641:4 2642:999 2672:4 2674:999 2677:4 2678:999 2689:4 2691:6 " +
	"2692:999 2748:4 2749:999 2750:6 2753:4 2758:999 2759:4 2761:6 2762:999 2763:6 2765:4 2766:999 2786:4 2788:999 " +
	"2810:4 2816:999 2817:4 2818:6 2820:999 2876:4 2877:999 2878:4 2880:6 2881:4 2885:999 2887:6 2889:999 2891:6 " +
	"2893:4 2894:999 2902:4 2904:999 2914:4 2916:999 2946:4 2947:999 3006:4 3007:6 3008:4 3009:6 3011:999 3014:6 " +
	"3017:999 3018:6 3021:4 3022:999 3031:4 3032:999 3072:4 3073:6 3076:4 3077:999 3134:4 3137:6 3141:999 3142:4 " +
	"3145:999 3146:4 3150:999 3157:4 3159:999 3170:4 3172:999 3201:4 3202:6 3204:999 3260:4 3261:999 3262:6 3263:4 " +
	"3264:6 3266:4 3267:6 3269:999 3270:4 3271:6 3273:999 3274:6 3276:4 3278:999 3285:4 3287:999 3298:4 3300:999 " +
	"3328:4 3330:6 3332:999 3387:4 3389:999 3390:4 3391:6 3393:4 3397:999 3398:6 3401:999 3402:6 3405:4 3406:2 " +
	"3407:999 3415:4 3416:999 3426:4 3428:999 3458:6 3460:999 3530:4 3531:999 3535:4 3536:6 3538:4 3541:999 3542:4 " +
	"3543:999 3544:6 3551:4 3552:999 3570:6 3572:999 3633:4 3634:999 3635:6 3636:4 3643:999 3655:4 3663:999 3761:4 " +
	"3762:999 3763:6 3764:4 3770:999 3771:4 3773:999 3784:4 3790:999 3864:4 3866:999 3893:4 3894:999 3895:4 " +
	"3896:999 3897:4 3898:999 3902:6 3904:999 3953:4 3967:6 3968:4 3973:999 3974:4 3976:999 3981:4 3992:999 3993:4 " +
	"4029:999 4038:4 4039:999 4141:4 4145:6 4146:4 4152:999 4153:4 4155:6 4157:4 4159:999 4182:6 4184:4 4186:999 " +
	"4190:4 4193:999 4209:4 4213:999 4226:4 4227:999 4228:6 4229:4 4231:999 4237:4 4238:999 4253:4 4254:999 4352:7 " +
	"4448:8 4520:9 4608:999 4957:4 4960:999 5906:4 5909:999 5938:4 5941:999 5970:4 5972:999 6002:4 6004:999 6068:4 " +
	"6070:6 6071:4 6078:6 6086:4 6087:6 6089:4 6100:999 6109:4 6110:999 6155:4 6158:3 6159:999 6277:4 6279:999 " +
	"6313:4 6314:999 6432:4 6435:6 6439:4 6441:6 6444:999 6448:6 6450:4 6451:6 6457:4 6460:999 6679:4 6681:6 6683:4 " +
	"6684:999 6741:6 6742:4 6743:6 6744:4 6751:999 6752:4 6753:999 6754:4 6755:999 6757:4 6765:6 6771:4 6781:999 " +
	"6783:4 6784:999 6832:4 6847:999 6912:4 6916:6 6917:999 6964:4 6965:6 6966:4 6971:6 6972:4 6973:6 6978:4 6979:6 " +
	"6981:999 7019:4 7028:999 7040:4 7042:6 7043:999 7073:6 7074:4 7078:6 7080:4 7082:6 7083:4 7086:999 7142:4 " +
	"7143:6 7144:4 7146:6 7149:4 7150:6 7151:4 7154:6 7156:999 7204:6 7212:4 7220:6 7222:4 7224:999 7376:4 7379:999 " +
	"7380:4 7393:6 7394:4 7401:999 7405:4 7406:999 7410:6 7412:4 7413:999 7415:6 7416:4 7418:999 7616:4 7674:999 " +
	"7675:4 7680:999 8203:3 8204:4 8205:12 8206:3 8208:999 8232:3 8239:999 8288:3 8304:999 8400:4 8433:999 11503:4 " +
	"11506:999 11647:4 11648:999 11744:4 11776:999 12330:4 12336:999 12441:4 12443:999 42607:4 42611:999 42612:4 " +
	"42622:999 42654:4 42656:999 42736:4 42738:999 43010:4 43011:999 43014:4 43015:999 43019:4 43020:999 43043:6 " +
	"43045:4 43047:6 43048:999 43136:6 43138:999 43188:6 43204:4 43206:999 43232:4 43250:999 43263:4 43264:999 " +
	"43302:4 43310:999 43335:4 43346:6 43348:999 43360:7 43389:999 43392:4 43395:6 43396:999 43443:4 43444:6 " +
	"43446:4 43450:6 43452:4 43453:6 43457:999 43493:4 43494:999 43561:4 43567:6 43569:4 43571:6 43573:4 43575:999 " +
	"43587:4 43588:999 43596:4 43597:6 43598:999 43644:4 43645:999 43696:4 43697:999 43698:4 43701:999 43703:4 " +
	"43705:999 43710:4 43712:999 43713:4 43714:999 43755:6 43756:4 43758:6 43760:999 43765:6 43766:4 43767:999 " +
	"44003:6 44005:4 44006:6 44008:4 44009:6 44011:999 44012:6 44013:4 44014:999 44032:10 44033:11 44060:10 " +
	"44061:11 44088:10 44089:11 44116:10 44117:11 44144:10 44145:11 44172:10 44173:11 44200:10 44201:11 44228:10 " +
	"44229:11 44256:10 44257:11 44284:10 44285:11 44312:10 44313:11 44340:10 44341:11 44368:10 44369:11 44396:10 " +
	"44397:11 44424:10 44425:11 44452:10 44453:11 44480:10 44481:11 44508:10 44509:11 44536:10 44537:11 44564:10 " +
	"44565:11 44592:10 44593:11 44620:10 44621:11 44648:10 44649:11 44676:10 44677:11 44704:10 44705:11 44732:10 " +
	"44733:11 44760:10 44761:11 44788:10 44789:11 44816:10 44817:11 44844:10 44845:11 44872:10 44873:11 44900:10 " +
	"44901:11 44928:10 44929:11 44956:10 44957:11 44984:10 44985:11 45012:10 45013:11 45040:10 45041:11 45068:10 " +
	"45069:11 45096:10 45097:11 45124:10 45125:11 45152:10 45153:11 45180:10 45181:11 45208:10 45209:11 45236:10 " +
	"45237:11 45264:10 45265:11 45292:10 45293:11 45320:10 45321:11 45348:10 45349:11 45376:10 45377:11 45404:10 " +
	"45405:11 45432:10 45433:11 45460:10 45461:11 45488:10 45489:11 45516:10 45517:11 45544:10 45545:11 45572:10 " +
	"45573:11 45600:10 45601:11 45628:10 45629:11 45656:10 45657:11 45684:10 45685:11 45712:10 45713:11 45740:10 " +
	"45741:11 45768:10 45769:11 45796:10 45797:11 45824:10 45825:11 45852:10 45853:11 45880:10 45881:11 45908:10 " +
	"45909:11 45936:10 45937:11 45964:10 45965:11 45992:10 45993:11 46020:10 46021:11 46048:10 46049:11 46076:10 " +
	"46077:11 46104:10 46105:11 46132:10 46133:11 46160:10 46161:11 46188:10 46189:11 46216:10 46217:11 46244:10 " +
	"46245:11 46272:10 46273:11 46300:10 46301:11 46328:10 46329:11 46356:10 46357:11 46384:10 46385:11 46412:10 " +
	"46413:11 46440:10 46441:11 46468:10 46469:11 46496:10 46497:11 46524:10 46525:11 46552:10 46553:11 46580:10 " +
	"46581:11 46608:10 46609:11 46636:10 46637:11 46664:10 46665:11 46692:10 46693:11 46720:10 46721:11 46748:10 " +
	"46749:11 46776:10 46777:11 46804:10 46805:11 46832:10 46833:11 46860:10 46861:11 46888:10 46889:11 46916:10 " +
	"46917:11 46944:10 46945:11 46972:10 46973:11 47000:10 47001:11 47028:10 47029:11 47056:10 47057:11 47084:10 " +
	"47085:11 47112:10 47113:11 47140:10 47141:11 47168:10 47169:11 47196:10 47197:11 47224:10 47225:11 47252:10 " +
	"47253:11 47280:10 47281:11 47308:10 47309:11 47336:10 47337:11 47364:10 47365:11 47392:10 47393:11 47420:10 " +
	"47421:11 47448:10 47449:11 47476:10 47477:11 47504:10 47505:11 47532:10 47533:11 47560:10 47561:11 47588:10 " +
	"47589:11 47616:10 47617:11 47644:10 47645:11 47672:10 47673:11 47700:10 47701:11 47728:10 47729:11 47756:10 " +
	"47757:11 47784:10 47785:11 47812:10 47813:11 47840:10 47841:11 47868:10 47869:11 47896:10 47897:11 47924:10 " +
	"47925:11 47952:10 47953:11 47980:10 47981:11 48008:10 48009:11 48036:10 48037:11 48064:10 48065:11 48092:10 " +
	"48093:11 48120:10 48121:11 48148:10 48149:11 48176:10 48177:11 48204:10 48205:11 48232:10 48233:11 48260:10 " +
	"48261:11 48288:10 48289:11 48316:10 48317:11 48344:10 48345:11 48372:10 48373:11 48400:10 48401:11 48428:10 " +
	"48429:11 48456:10 48457:11 48484:10 48485:11 48512:10 48513:11 48540:10 48541:11 48568:10 48569:11 48596:10 " +
	"48597:11 48624:10 48625:11 48652:10 48653:11 48680:10 48681:11 48708:10 48709:11 48736:10 48737:11 48764:10 " +
	"48765:11 48792:10 48793:11 48820:10 48821:11 48848:10 48849:11 48876:10 48877:11 48904:10 48905:11 48932:10 " +
	"48933:11 48960:10 48961:11 48988:10 48989:11 49016:10 49017:11 49044:10 49045:11 49072:10 49073:11 49100:10 " +
	"49101:11 49128:10 49129:11 49156:10 49157:11 49184:10 49185:11 49212:10 49213:11 49240:10 49241:11 49268:10 " +
	"49269:11 49296:10 49297:11 49324:10 49325:11 49352:10 49353:11 49380:10 49381:11 49408:10 49409:11 49436:10 " +
	"49437:11 49464:10 49465:11 49492:10 49493:11 49520:10 49521:11 49548:10 49549:11 49576:10 49577:11 49604:10 " +
	"49605:11 49632:10 49633:11 49660:10 49661:11 49688:10 49689:11 49716:10 49717:11 49744:10 49745:11 49772:10 " +
	"49773:11 49800:10 49801:11 49828:10 49829:11 49856:10 49857:11 49884:10 49885:11 49912:10 49913:11 49940:10 " +
	"49941:11 49968:10 49969:11 49996:10 49997:11 50024:10 50025:11 50052:10 50053:11 50080:10 50081:11 50108:10 " +
	"50109:11 50136:10 50137:11 50164:10 50165:11 50192:10 50193:11 50220:10 50221:11 50248:10 50249:11 50276:10 " +
	"50277:11 50304:10 50305:11 50332:10 50333:11 50360:10 50361:11 50388:10 50389:11 50416:10 50417:11 50444:10 " +
	"50445:11 50472:10 50473:11 50500:10 50501:11 50528:10 50529:11 50556:10 50557:11 50584:10 50585:11 50612:10 " +
	"50613:11 50640:10 50641:11 50668:10 50669:11 50696:10 50697:11 50724:10 50725:11 50752:10 50753:11 50780:10 " +
	"50781:11 50808:10 50809:11 50836:10 50837:11 50864:10 50865:11 50892:10 50893:11 50920:10 50921:11 50948:10 " +
	"50949:11 50976:10 50977:11 51004:10 51005:11 51032:10 51033:11 51060:10 51061:11 51088:10 51089:11 51116:10 " +
	"51117:11 51144:10 51145:11 51172:10 51173:11 51200:10 51201:11 51228:10 51229:11 51256:10 51257:11 51284:10 " +
	"51285:11 51312:10 51313:11 51340:10 51341:11 51368:10 51369:11 51396:10 51397:11 51424:10 51425:11 51452:10 " +
	"51453:11 51480:10 51481:11 51508:10 51509:11 51536:10 51537:11 51564:10 51565:11 51592:10 51593:11 51620:10 " +
	"51621:11 51648:10 51649:11 51676:10 51677:11 51704:10 51705:11 51732:10 51733:11 51760:10 51761:11 51788:10 " +
	"51789:11 51816:10 51817:11 51844:10 51845:11 51872:10 51873:11 51900:10 51901:11 51928:10 51929:11 51956:10 " +
	"51957:11 51984:10 51985:11 52012:10 52013:11 52040:10 52041:11 52068:10 52069:11 52096:10 52097:11 52124:10 " +
	"52125:11 52152:10 52153:11 52180:10 52181:11 52208:10 52209:11 52236:10 52237:11 52264:10 52265:11 52292:10 " +
	"52293:11 52320:10 52321:11 52348:10 52349:11 52376:10 52377:11 52404:10 52405:11 52432:10 52433:11 52460:10 " +
	"52461:11 52488:10 52489:11 52516:10 52517:11 52544:10 52545:11 52572:10 52573:11 52600:10 52601:11 52628:10 " +
	"52629:11 52656:10 52657:11 52684:10 52685:11 52712:10 52713:11 52740:10 52741:11 52768:10 52769:11 52796:10 " +
	"52797:11 52824:10 52825:11 52852:10 52853:11 52880:10 52881:11 52908:10 52909:11 52936:10 52937:11 52964:10 " +
	"52965:11 52992:10 52993:11 53020:10 53021:11 53048:10 53049:11 53076:10 53077:11 53104:10 53105:11 53132:10 " +
	"53133:11 53160:10 53161:11 53188:10 53189:11 53216:10 53217:11 53244:10 53245:11 53272:10 53273:11 53300:10 " +
	"53301:11 53328:10 53329:11 53356:10 53357:11 53384:10 53385:11 53412:10 53413:11 53440:10 53441:11 53468:10 " +
	"53469:11 53496:10 53497:11 53524:10 53525:11 53552:10 53553:11 53580:10 53581:11 53608:10 53609:11 53636:10 " +
	"53637:11 53664:10 53665:11 53692:10 53693:11 53720:10 53721:11 53748:10 53749:11 53776:10 53777:11 53804:10 " +
	"53805:11 53832:10 53833:11 53860:10 53861:11 53888:10 53889:11 53916:10 53917:11 53944:10 53945:11 53972:10 " +
	"53973:11 54000:10 54001:11 54028:10 54029:11 54056:10 54057:11 54084:10 54085:11 54112:10 54113:11 54140:10 " +
	"54141:11 54168:10 54169:11 54196:10 54197:11 54224:10 54225:11 54252:10 54253:11 54280:10 54281:11 54308:10 " +
	"54309:11 54336:10 54337:11 54364:10 54365:11 54392:10 54393:11 54420:10 54421:11 54448:10 54449:11 54476:10 " +
	"54477:11 54504:10 54505:11 54532:10 54533:11 54560:10 54561:11 54588:10 54589:11 54616:10 54617:11 54644:10 " +
	"54645:11 54672:10 54673:11 54700:10 54701:11 54728:10 54729:11 54756:10 54757:11 54784:10 54785:11 54812:10 " +
	"54813:11 54840:10 54841:11 54868:10 54869:11 54896:10 54897:11 54924:10 54925:11 54952:10 54953:11 54980:10 " +
	"54981:11 55008:10 55009:11 55036:10 55037:11 55064:10 55065:11 55092:10 55093:11 55120:10 55121:11 55148:10 " +
	"55149:11 55176:10 55177:11 55204:999 55216:8 55239:999 55243:9 55292:999 64286:4 64287:999 65024:4 65040:999 " +
	"65056:4 65072:999 65279:3 65280:999 65438:4 65440:999 65520:3 65532:999 65533:3 65534:999 66045:4 66046:999 " +
	"66272:4 66273:999 66422:4 66427:999 68097:4 68100:999 68101:4 68103:999 68108:4 68112:999 68152:4 68155:999 " +
	"68159:4 68160:999 68325:4 68327:999 68900:4 68904:999 69446:4 69457:999 69632:6 69633:4 69634:6 69635:999 " +
	"69688:4 69703:999 69759:4 69762:6 69763:999 69808:6 69811:4 69815:6 69817:4 69819:999 69821:2 69822:999 " +
	"69837:2 69838:999 69888:4 69891:999 69927:4 69932:6 69933:4 69941:999 69957:6 69959:999 70003:4 70004:999 " +
	"70016:4 70018:6 70019:999 70067:6 70070:4 70079:6 70081:999 70082:2 70084:999 70089:4 70093:999 70188:6 " +
	"70191:4 70194:6 70196:4 70197:6 70198:4 70200:999 70206:4 70207:999 70367:4 70368:6 70371:4 70379:999 70400:4 " +
	"70402:6 70404:999 70459:4 70461:999 70462:4 70463:6 70464:4 70465:6 70469:999 70471:6 70473:999 70475:6 " +
	"70478:999 70487:4 70488:999 70498:6 70500:999 70502:4 70509:999 70512:4 70517:999 70709:6 70712:4 70720:6 " +
	"70722:4 70725:6 70726:4 70727:999 70750:4 70751:999 70832:4 70833:6 70835:4 70841:6 70842:4 70843:6 70845:4 " +
	"70846:6 70847:4 70849:6 70850:4 70852:999 71087:4 71088:6 71090:4 71094:999 71096:6 71100:4 71102:6 71103:4 " +
	"71105:999 71132:4 71134:999 71216:6 71219:4 71227:6 71229:4 71230:6 71231:4 71233:999 71339:4 71340:6 71341:4 " +
	"71342:6 71344:4 71350:6 71351:4 71352:999 71453:4 71456:6 71458:4 71462:6 71463:4 71468:999 71724:6 71727:4 " +
	"71736:6 71737:4 71739:999 72193:4 72203:999 72243:4 72249:6 72250:2 72251:4 72255:999 72263:4 72264:999 " +
	"72273:4 72279:6 72281:4 72284:999 72326:2 72330:4 72343:6 72344:4 72346:999 72751:6 72752:4 72759:999 72760:4 " +
	"72766:6 72767:4 72768:999 72850:4 72872:999 72873:6 72874:4 72881:6 72882:4 72884:6 72885:4 72887:999 73009:4 " +
	"73015:999 73018:4 73019:999 73020:4 73022:999 73023:4 73030:2 73031:4 73032:999 73098:6 73103:999 73104:4 " +
	"73106:999 73107:6 73109:4 73110:6 73111:4 73112:999 73459:4 73461:6 73463:999 92912:4 92917:999 92976:4 " +
	"92983:999 94033:6 94079:999 94095:4 94099:999 113821:4 113823:999 113824:3 113828:999 119141:4 119142:6 " +
	"119143:4 119146:999 119149:6 119150:4 119155:3 119163:4 119171:999 119173:4 119180:999 119210:4 119214:999 " +
	"119362:4 119365:999 121344:4 121399:999 121403:4 121453:999 121461:4 121462:999 121476:4 121477:999 121499:4 " +
	"121504:999 121505:4 121520:999 122880:4 122887:999 122888:4 122905:999 122907:4 122914:999 122915:4 122917:999 " +
	"122918:4 122923:999 125136:4 125143:999 125252:4 125259:999 127462:5 127488:999 127995:4 128000:999 917504:3 " +
	"917536:4 917632:3 917760:4 918000:3 921600:999 "
