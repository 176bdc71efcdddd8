package uax29

// Classes of Unicode 11 as runs "first code point:class" (emoji: bit set of tables), cross-checked
// against the derivations of UAX#29 from general categories (see DESIGN.md).
var vGold = "" +
	"-3:999 0:1001 1:999 10:8 11:12 13:1 14:999 32:16 33:999 34:2 35:999 39:15 40:999 44:10 45:999 46:11 47:999 " +
	"48:13 58:9 59:10 60:999 65:0 91:999 95:4 96:999 97:0 123:999 133:12 134:999 170:0 171:999 173:5 174:999 181:0 " +
	"182:999 183:9 184:999 186:0 187:999 192:0 215:999 216:0 247:999 248:0 728:999 734:0 741:999 748:0 768:3 880:0 " +
	"885:999 886:0 888:999 890:0 894:10 895:0 896:999 902:0 903:9 904:0 907:999 908:0 909:999 910:0 930:999 931:0 " +
	"1014:999 1015:0 1154:999 1155:3 1162:0 1328:999 1329:0 1367:999 1369:0 1370:999 1371:0 1373:999 1374:0 " +
	"1375:999 1376:0 1417:10 1418:999 1425:3 1470:999 1471:3 1472:999 1473:3 1475:999 1476:3 1478:999 1479:3 " +
	"1480:999 1488:6 1515:999 1519:6 1523:0 1524:9 1525:999 1536:5 1542:999 1548:10 1550:999 1552:3 1563:999 1564:5 " +
	"1565:999 1568:0 1611:3 1632:13 1642:999 1643:13 1644:10 1645:999 1646:0 1648:3 1649:0 1748:999 1749:0 1750:3 " +
	"1757:5 1758:999 1759:3 1765:0 1767:3 1769:999 1770:3 1774:0 1776:13 1786:0 1789:999 1791:0 1792:999 1807:5 " +
	"1808:0 1809:3 1810:0 1840:3 1867:999 1869:0 1958:3 1969:0 1970:999 1984:13 1994:0 2027:3 2036:0 2038:999 " +
	"2040:10 2041:999 2042:0 2043:999 2045:3 2046:999 2048:0 2070:3 2074:0 2075:3 2084:0 2085:3 2088:0 2089:3 " +
	"2094:999 2112:0 2137:3 2140:999 2144:0 2155:999 2208:0 2229:999 2230:0 2238:999 2259:3 2274:5 2275:3 2308:0 " +
	"2362:3 2365:0 2366:3 2384:0 2385:3 2392:0 2402:3 2404:999 2406:13 2416:999 2417:0 2433:3 2436:999 2437:0 " +
	"2445:999 2447:0 2449:999 2451:0 2473:999 2474:0 2481:999 2482:0 2483:999 2486:0 2490:999 2492:3 2493:0 2494:3 " +
	"2501:999 2503:3 2505:999 2507:3 2510:0 2511:999 2519:3 2520:999 2524:0 2526:999 2527:0 2530:3 2532:999 2534:13 " +
	"2544:0 2546:999 2556:0 2557:999 2558:3 2559:999 2561:3 2564:999 2565:0 2571:999 2575:0 2577:999 2579:0 " +
	"2601:999 2602:0 2609:999 2610:0 2612:999 2613:0 2615:999 2616:0 2618:999 2620:3 2621:999 2622:3 2627:999 " +
	"2631:3 2633:999 2635:3 2638:999 2641:3 2642:999 2649:0 2653:999 2654:0 2655:999 2662:13 2672:3 2674:0 2677:3 " +
	"2678:999 2689:3 2692:999 2693:0 2702:999 2703:0 2706:999 2707:0 2729:999 2730:0 2737:999 2738:0 2740:999 " +
	"2741:0 2746:999 2748:3 2749:0 2750:3 2758:999 2759:3 2762:999 2763:3 2766:999 2768:0 2769:999 2784:0 2786:3 " +
	"2788:999 2790:13 2800:999 2809:0 2810:3 2816:999 2817:3 2820:999 2821:0 2829:999 2831:0 2833:999 2835:0 " +
	"2857:999 2858:0 2865:999 2866:0 2868:999 2869:0 2874:999 2876:3 2877:0 2878:3 2885:999 2887:3 2889:999 2891:3 " +
	"2894:999 2902:3 2904:999 2908:0 2910:999 2911:0 2914:3 2916:999 2918:13 2928:999 2929:0 2930:999 2946:3 2947:0 " +
	"2948:999 2949:0 2955:999 2958:0 2961:999 2962:0 2966:999 2969:0 2971:999 2972:0 2973:999 2974:0 2976:999 " +
	"2979:0 2981:999 2984:0 2987:999 2990:0 3002:999 3006:3 3011:999 3014:3 3017:999 3018:3 3022:999 3024:0 " +
	"3025:999 3031:3 3032:999 3046:13 3056:999 3072:3 3077:0 3085:999 3086:0 3089:999 3090:0 3113:999 3114:0 " +
	"3130:999 3133:0 3134:3 3141:999 3142:3 3145:999 3146:3 3150:999 3157:3 3159:999 3160:0 3163:999 3168:0 3170:3 " +
	"3172:999 3174:13 3184:999 3200:0 3201:3 3204:999 3205:0 3213:999 3214:0 3217:999 3218:0 3241:999 3242:0 " +
	"3252:999 3253:0 3258:999 3260:3 3261:0 3262:3 3269:999 3270:3 3273:999 3274:3 3278:999 3285:3 3287:999 3294:0 " +
	"3295:999 3296:0 3298:3 3300:999 3302:13 3312:999 3313:0 3315:999 3328:3 3332:999 3333:0 3341:999 3342:0 " +
	"3345:999 3346:0 3387:3 3389:0 3390:3 3397:999 3398:3 3401:999 3402:3 3406:0 3407:999 3412:0 3415:3 3416:999 " +
	"3423:0 3426:3 3428:999 3430:13 3440:999 3450:0 3456:999 3458:3 3460:999 3461:0 3479:999 3482:0 3506:999 3507:0 " +
	"3516:999 3517:0 3518:999 3520:0 3527:999 3530:3 3531:999 3535:3 3541:999 3542:3 3543:999 3544:3 3552:999 " +
	"3558:13 3568:999 3570:3 3572:999 3633:3 3634:999 3636:3 3643:999 3655:3 3663:999 3664:13 3674:999 3761:3 " +
	"3762:999 3764:3 3770:999 3771:3 3773:999 3784:3 3790:999 3792:13 3802:999 3840:0 3841:999 3864:3 3866:999 " +
	"3872:13 3882:999 3893:3 3894:999 3895:3 3896:999 3897:3 3898:999 3902:3 3904:0 3912:999 3913:0 3949:999 3953:3 " +
	"3973:999 3974:3 3976:0 3981:3 3992:999 3993:3 4029:999 4038:3 4039:999 4139:3 4159:999 4160:13 4170:999 4182:3 " +
	"4186:999 4190:3 4193:999 4194:3 4197:999 4199:3 4206:999 4209:3 4213:999 4226:3 4238:999 4239:3 4240:13 4250:3 " +
	"4254:999 4256:0 4294:999 4295:0 4296:999 4301:0 4302:999 4304:0 4347:999 4348:0 4681:999 4682:0 4686:999 " +
	"4688:0 4695:999 4696:0 4697:999 4698:0 4702:999 4704:0 4745:999 4746:0 4750:999 4752:0 4785:999 4786:0 " +
	"4790:999 4792:0 4799:999 4800:0 4801:999 4802:0 4806:999 4808:0 4823:999 4824:0 4881:999 4882:0 4886:999 " +
	"4888:0 4955:999 4957:3 4960:999 4992:0 5008:999 5024:0 5110:999 5112:0 5118:999 5121:0 5741:999 5743:0 5760:16 " +
	"5761:0 5787:999 5792:0 5867:999 5870:0 5881:999 5888:0 5901:999 5902:0 5906:3 5909:999 5920:0 5938:3 5941:999 " +
	"5952:0 5970:3 5972:999 5984:0 5997:999 5998:0 6001:999 6002:3 6004:999 6068:3 6100:999 6109:3 6110:999 6112:13 " +
	"6122:999 6155:3 6158:5 6159:999 6160:13 6170:999 6176:0 6265:999 6272:0 6277:3 6279:0 6313:3 6314:0 6315:999 " +
	"6320:0 6390:999 6400:0 6431:999 6432:3 6444:999 6448:3 6460:999 6470:13 6480:999 6608:13 6618:999 6656:0 " +
	"6679:3 6684:999 6741:3 6751:999 6752:3 6781:999 6783:3 6784:13 6794:999 6800:13 6810:999 6832:3 6847:999 " +
	"6912:3 6917:0 6964:3 6981:0 6988:999 6992:13 7002:999 7019:3 7028:999 7040:3 7043:0 7073:3 7086:0 7088:13 " +
	"7098:0 7142:3 7156:999 7168:0 7204:3 7224:999 7232:13 7242:999 7245:0 7248:13 7258:0 7294:999 7296:0 7305:999 " +
	"7312:0 7355:999 7357:0 7360:999 7376:3 7379:999 7380:3 7401:0 7405:3 7406:0 7410:3 7413:0 7415:3 7418:999 " +
	"7424:0 7616:3 7674:999 7675:3 7680:0 7958:999 7960:0 7966:999 7968:0 8006:999 8008:0 8014:999 8016:0 8024:999 " +
	"8025:0 8026:999 8027:0 8028:999 8029:0 8030:999 8031:0 8062:999 8064:0 8117:999 8118:0 8125:999 8126:0 " +
	"8127:999 8130:0 8133:999 8134:0 8141:999 8144:0 8148:999 8150:0 8156:999 8160:0 8173:999 8178:0 8181:999 " +
	"8182:0 8189:999 8192:16 8199:999 8200:16 8203:999 8204:3 8205:17 8206:5 8208:999 8216:11 8218:999 8228:11 " +
	"8229:999 8231:9 8232:12 8234:5 8239:4 8240:999 8255:4 8257:999 8260:10 8261:999 8276:4 8277:999 8287:16 8288:5 " +
	"8293:999 8294:5 8304:999 8305:0 8306:999 8319:0 8320:999 8336:0 8349:999 8400:3 8433:999 8450:0 8451:999 " +
	"8455:0 8456:999 8458:0 8468:999 8469:0 8470:999 8473:0 8478:999 8484:0 8485:999 8486:0 8487:999 8488:0 " +
	"8489:999 8490:0 8494:999 8495:0 8506:999 8508:0 8512:999 8517:0 8522:999 8526:0 8527:999 8544:0 8585:999 " +
	"9398:0 9450:999 11264:0 11311:999 11312:0 11359:999 11360:0 11493:999 11499:0 11503:3 11506:0 11508:999 " +
	"11520:0 11558:999 11559:0 11560:999 11565:0 11566:999 11568:0 11624:999 11631:0 11632:999 11647:3 11648:0 " +
	"11671:999 11680:0 11687:999 11688:0 11695:999 11696:0 11703:999 11704:0 11711:999 11712:0 11719:999 11720:0 " +
	"11727:999 11728:0 11735:999 11736:0 11743:999 11744:3 11776:999 11823:0 11824:999 12288:16 12289:999 12293:0 " +
	"12294:999 12330:3 12336:999 12337:7 12342:999 12347:0 12349:999 12441:3 12443:7 12445:999 12448:7 12539:999 " +
	"12540:7 12544:999 12549:0 12592:999 12593:0 12687:999 12704:0 12731:999 12784:7 12800:999 13008:7 13055:999 " +
	"13056:7 13144:999 40960:0 42125:999 42192:0 42238:999 42240:0 42509:999 42512:0 42528:13 42538:0 42540:999 " +
	"42560:0 42607:3 42611:999 42612:3 42622:999 42623:0 42654:3 42656:0 42736:3 42738:999 42775:0 42938:999 " +
	"42999:0 43010:3 43011:0 43014:3 43015:0 43019:3 43020:0 43043:3 43048:999 43072:0 43124:999 43136:3 43138:0 " +
	"43188:3 43206:999 43216:13 43226:999 43232:3 43250:0 43256:999 43259:0 43260:999 43261:0 43263:3 43264:13 " +
	"43274:0 43302:3 43310:999 43312:0 43335:3 43348:999 43360:0 43389:999 43392:3 43396:0 43443:3 43457:999 " +
	"43471:0 43472:13 43482:999 43493:3 43494:999 43504:13 43514:999 43520:0 43561:3 43575:999 43584:0 43587:3 " +
	"43588:0 43596:3 43598:999 43600:13 43610:999 43643:3 43646:999 43696:3 43697:999 43698:3 43701:999 43703:3 " +
	"43705:999 43710:3 43712:999 43713:3 43714:999 43744:0 43755:3 43760:999 43762:0 43765:3 43767:999 43777:0 " +
	"43783:999 43785:0 43791:999 43793:0 43799:999 43808:0 43815:999 43816:0 43823:999 43824:0 43878:999 43888:0 " +
	"44003:3 44011:999 44012:3 44014:999 44016:13 44026:999 44032:0 55204:999 55216:0 55239:999 55243:0 55292:999 " +
	"64256:0 64263:999 64275:0 64280:999 64285:6 64286:3 64287:6 64297:999 64298:6 64311:999 64312:6 64317:999 " +
	"64318:6 64319:999 64320:6 64322:999 64323:6 64325:999 64326:6 64336:0 64434:999 64467:0 64830:999 64848:0 " +
	"64912:999 64914:0 64968:999 65008:0 65020:999 65024:3 65040:10 65041:999 65043:9 65044:10 65045:999 65056:3 " +
	"65072:999 65075:4 65077:999 65101:4 65104:10 65105:999 65106:11 65107:999 65108:10 65109:9 65110:999 65136:0 " +
	"65141:999 65142:0 65277:999 65279:5 65280:999 65287:11 65288:999 65292:10 65293:999 65294:11 65295:999 65306:9 " +
	"65307:10 65308:999 65313:0 65339:999 65343:4 65344:999 65345:0 65371:999 65382:7 65438:3 65440:0 65471:999 " +
	"65474:0 65480:999 65482:0 65488:999 65490:0 65496:999 65498:0 65501:999 65529:5 65532:999 65536:0 65548:999 " +
	"65549:0 65575:999 65576:0 65595:999 65596:0 65598:999 65599:0 65614:999 65616:0 65630:999 65664:0 65787:999 " +
	"65856:0 65909:999 66045:3 66046:999 66176:0 66205:999 66208:0 66257:999 66272:3 66273:999 66304:0 66336:999 " +
	"66349:0 66379:999 66384:0 66422:3 66427:999 66432:0 66462:999 66464:0 66500:999 66504:0 66512:999 66513:0 " +
	"66518:999 66560:0 66718:999 66720:13 66730:999 66736:0 66772:999 66776:0 66812:999 66816:0 66856:999 66864:0 " +
	"66916:999 67072:0 67383:999 67392:0 67414:999 67424:0 67432:999 67584:0 67590:999 67592:0 67593:999 67594:0 " +
	"67638:999 67639:0 67641:999 67644:0 67645:999 67647:0 67670:999 67680:0 67703:999 67712:0 67743:999 67808:0 " +
	"67827:999 67828:0 67830:999 67840:0 67862:999 67872:0 67898:999 67968:0 68024:999 68030:0 68032:999 68096:0 " +
	"68097:3 68100:999 68101:3 68103:999 68108:3 68112:0 68116:999 68117:0 68120:999 68121:0 68150:999 68152:3 " +
	"68155:999 68159:3 68160:999 68192:0 68221:999 68224:0 68253:999 68288:0 68296:999 68297:0 68325:3 68327:999 " +
	"68352:0 68406:999 68416:0 68438:999 68448:0 68467:999 68480:0 68498:999 68608:0 68681:999 68736:0 68787:999 " +
	"68800:0 68851:999 68864:0 68900:3 68904:999 68912:13 68922:999 69376:0 69405:999 69415:0 69416:999 69424:0 " +
	"69446:3 69457:999 69632:3 69635:0 69688:3 69703:999 69734:13 69744:999 69759:3 69763:0 69808:3 69819:999 " +
	"69821:5 69822:999 69837:5 69838:999 69840:0 69865:999 69872:13 69882:999 69888:3 69891:0 69927:3 69941:999 " +
	"69942:13 69952:999 69956:0 69957:3 69959:999 69968:0 70003:3 70004:999 70006:0 70007:999 70016:3 70019:0 " +
	"70067:3 70081:0 70085:999 70089:3 70093:999 70096:13 70106:0 70107:999 70108:0 70109:999 70144:0 70162:999 " +
	"70163:0 70188:3 70200:999 70206:3 70207:999 70272:0 70279:999 70280:0 70281:999 70282:0 70286:999 70287:0 " +
	"70302:999 70303:0 70313:999 70320:0 70367:3 70379:999 70384:13 70394:999 70400:3 70404:999 70405:0 70413:999 " +
	"70415:0 70417:999 70419:0 70441:999 70442:0 70449:999 70450:0 70452:999 70453:0 70458:999 70459:3 70461:0 " +
	"70462:3 70469:999 70471:3 70473:999 70475:3 70478:999 70480:0 70481:999 70487:3 70488:999 70493:0 70498:3 " +
	"70500:999 70502:3 70509:999 70512:3 70517:999 70656:0 70709:3 70727:0 70731:999 70736:13 70746:999 70750:3 " +
	"70751:999 70784:0 70832:3 70852:0 70854:999 70855:0 70856:999 70864:13 70874:999 71040:0 71087:3 71094:999 " +
	"71096:3 71105:999 71128:0 71132:3 71134:999 71168:0 71216:3 71233:999 71236:0 71237:999 71248:13 71258:999 " +
	"71296:0 71339:3 71352:999 71360:13 71370:999 71453:3 71468:999 71472:13 71482:999 71680:0 71724:3 71739:999 " +
	"71840:0 71904:13 71914:999 71935:0 71936:999 72192:0 72193:3 72203:0 72243:3 72250:0 72251:3 72255:999 72263:3 " +
	"72264:999 72272:0 72273:3 72284:0 72324:999 72326:0 72330:3 72346:999 72349:0 72350:999 72384:0 72441:999 " +
	"72704:0 72713:999 72714:0 72751:3 72759:999 72760:3 72768:0 72769:999 72784:13 72794:999 72818:0 72848:999 " +
	"72850:3 72872:999 72873:3 72887:999 72960:0 72967:999 72968:0 72970:999 72971:0 73009:3 73015:999 73018:3 " +
	"73019:999 73020:3 73022:999 73023:3 73030:0 73031:3 73032:999 73040:13 73050:999 73056:0 73062:999 73063:0 " +
	"73065:999 73066:0 73098:3 73103:999 73104:3 73106:999 73107:3 73112:0 73113:999 73120:13 73130:999 73440:0 " +
	"73459:3 73463:999 73728:0 74650:999 74752:0 74863:999 74880:0 75076:999 77824:0 78895:999 82944:0 83527:999 " +
	"92160:0 92729:999 92736:0 92767:999 92768:13 92778:999 92880:0 92910:999 92912:3 92917:999 92928:0 92976:3 " +
	"92983:999 92992:0 92996:999 93008:13 93018:999 93027:0 93048:999 93053:0 93072:999 93760:0 93824:999 93952:0 " +
	"94021:999 94032:0 94033:3 94079:999 94095:3 94099:0 94112:999 94176:0 94178:999 110592:7 110593:999 113664:0 " +
	"113771:999 113776:0 113789:999 113792:0 113801:999 113808:0 113818:999 113821:3 113823:999 113824:5 113828:999 " +
	"119141:3 119146:999 119149:3 119155:5 119163:3 119171:999 119173:3 119180:999 119210:3 119214:999 119362:3 " +
	"119365:999 119808:0 119893:999 119894:0 119965:999 119966:0 119968:999 119970:0 119971:999 119973:0 119975:999 " +
	"119977:0 119981:999 119982:0 119994:999 119995:0 119996:999 119997:0 120004:999 120005:0 120070:999 120071:0 " +
	"120075:999 120077:0 120085:999 120086:0 120093:999 120094:0 120122:999 120123:0 120127:999 120128:0 120133:999 " +
	"120134:0 120135:999 120138:0 120145:999 120146:0 120486:999 120488:0 120513:999 120514:0 120539:999 120540:0 " +
	"120571:999 120572:0 120597:999 120598:0 120629:999 120630:0 120655:999 120656:0 120687:999 120688:0 120713:999 " +
	"120714:0 120745:999 120746:0 120771:999 120772:0 120780:999 120782:13 120832:999 121344:3 121399:999 121403:3 " +
	"121453:999 121461:3 121462:999 121476:3 121477:999 121499:3 121504:999 121505:3 121520:999 122880:3 122887:999 " +
	"122888:3 122905:999 122907:3 122914:999 122915:3 122917:999 122918:3 122923:999 124928:0 125125:999 125136:3 " +
	"125143:999 125184:0 125252:3 125259:999 125264:13 125274:999 126464:0 126468:999 126469:0 126496:999 126497:0 " +
	"126499:999 126500:0 126501:999 126503:0 126504:999 126505:0 126515:999 126516:0 126520:999 126521:0 126522:999 " +
	"126523:0 126524:999 126530:0 126531:999 126535:0 126536:999 126537:0 126538:999 126539:0 126540:999 126541:0 " +
	"126544:999 126545:0 126547:999 126548:0 126549:999 126551:0 126552:999 126553:0 126554:999 126555:0 126556:999 " +
	"126557:0 126558:999 126559:0 126560:999 126561:0 126563:999 126564:0 126565:999 126567:0 126571:999 126572:0 " +
	"126579:999 126580:0 126584:999 126585:0 126589:999 126590:0 126591:999 126592:0 126602:999 126603:0 126620:999 " +
	"126625:0 126628:999 126629:0 126634:999 126635:0 126652:999 127280:0 127306:999 127312:0 127338:999 127344:0 " +
	"127370:999 127462:14 127488:999 127995:3 128000:999 917505:5 917506:999 917536:3 917632:999 917760:3 " +
	"918000:999 "
