package emoji

// Classes of Unicode 11 as runs "first code point:class" (emoji: bit set of tables), cross-checked
// against the derivations of UAX#29 from general categories (see DESIGN.md).
var vGold = "" +
	"-3:0 35:17 36:0 42:17 43:0 48:17 58:0 169:33 170:0 174:33 175:0 8205:16 8206:0 8252:33 8253:0 8265:33 8266:0 " +
	"8419:16 8420:0 8482:33 8483:0 8505:33 8506:0 8596:33 8602:0 8617:33 8619:0 8986:35 8988:0 9000:33 9001:0 " +
	"9096:32 9097:0 9167:33 9168:0 9193:35 9197:33 9200:35 9201:33 9203:35 9204:0 9208:33 9211:0 9410:33 9411:0 " +
	"9642:33 9644:0 9654:33 9655:0 9664:33 9665:0 9723:33 9725:35 9727:0 9728:33 9733:32 9734:0 9735:32 9742:33 " +
	"9743:32 9745:33 9746:32 9747:0 9748:35 9750:32 9752:33 9753:32 9757:41 9758:32 9760:33 9761:32 9762:33 9764:32 " +
	"9766:33 9767:32 9770:33 9771:32 9774:33 9776:32 9784:33 9787:32 9792:33 9793:32 9794:33 9795:32 9800:35 " +
	"9812:32 9823:33 9825:32 9827:33 9828:32 9829:33 9831:32 9832:33 9833:32 9851:33 9852:32 9854:33 9855:35 " +
	"9856:32 9862:0 9872:32 9874:33 9875:35 9876:33 9880:32 9881:33 9882:32 9883:33 9885:32 9888:33 9889:35 9890:32 " +
	"9898:35 9900:32 9904:33 9906:32 9917:35 9919:32 9924:35 9926:32 9928:33 9929:32 9934:35 9935:33 9936:32 " +
	"9937:33 9938:32 9939:33 9940:35 9941:32 9961:33 9962:35 9963:32 9968:33 9970:35 9972:33 9973:35 9974:32 " +
	"9975:33 9977:41 9978:35 9979:32 9981:35 9982:32 9986:33 9987:32 9989:35 9990:0 9992:33 9994:43 9996:41 9998:32 " +
	"9999:33 10000:32 10002:33 10003:0 10004:33 10005:0 10006:33 10007:0 10013:33 10014:0 10017:33 10018:0 10024:35 " +
	"10025:0 10035:33 10037:0 10052:33 10053:0 10055:33 10056:0 10060:35 10061:0 10062:35 10063:0 10067:35 10070:0 " +
	"10071:35 10072:0 10083:33 10085:32 10088:0 10133:35 10136:0 10145:33 10146:0 10160:35 10161:0 10175:35 10176:0 " +
	"10548:33 10550:0 11013:33 11016:0 11035:35 11037:0 11088:35 11089:0 11093:35 11094:0 12336:33 12337:0 12349:33 " +
	"12350:0 12951:33 12952:0 12953:33 12954:0 65039:16 65040:0 126976:32 126980:35 126981:32 127183:35 127184:32 " +
	"127232:0 127245:32 127248:0 127279:32 127280:0 127340:32 127344:33 127346:0 127358:33 127360:0 127374:35 " +
	"127375:0 127377:35 127387:0 127405:32 127462:19 127488:0 127489:35 127490:33 127491:32 127504:0 127514:35 " +
	"127515:0 127535:35 127536:0 127538:35 127543:33 127544:35 127547:0 127548:32 127552:0 127561:32 127568:35 " +
	"127570:32 127744:35 127777:33 127778:32 127780:33 127789:35 127798:33 127799:35 127869:33 127870:35 127877:43 " +
	"127878:35 127892:32 127894:33 127896:32 127897:33 127900:32 127902:33 127904:35 127938:43 127941:35 127943:43 " +
	"127944:35 127946:43 127947:41 127949:33 127951:35 127956:33 127968:35 127985:32 127987:33 127988:35 127989:33 " +
	"127990:32 127991:33 127992:35 127995:23 128000:35 128063:33 128064:35 128065:33 128066:43 128068:35 128070:43 " +
	"128081:35 128102:43 128106:35 128110:43 128111:35 128112:43 128121:35 128124:43 128125:35 128129:43 128132:35 " +
	"128133:43 128136:35 128170:43 128171:35 128253:33 128254:32 128255:35 128318:0 128326:32 128329:33 128331:35 " +
	"128335:32 128336:35 128360:32 128367:33 128369:32 128371:33 128372:41 128374:33 128378:43 128379:32 128391:33 " +
	"128392:32 128394:33 128398:32 128400:41 128401:32 128405:43 128407:32 128420:35 128421:33 128422:32 128424:33 " +
	"128425:32 128433:33 128435:32 128444:33 128445:32 128450:33 128453:32 128465:33 128468:32 128476:33 128479:32 " +
	"128481:33 128482:32 128483:33 128484:32 128488:33 128489:32 128495:33 128496:32 128499:33 128500:32 128506:33 " +
	"128507:35 128581:43 128584:35 128587:43 128592:0 128640:35 128675:43 128676:35 128692:43 128695:35 128704:43 " +
	"128705:35 128710:32 128715:33 128716:43 128717:33 128720:35 128723:32 128736:33 128742:32 128745:33 128746:32 " +
	"128747:35 128749:32 128752:33 128753:32 128755:33 128756:35 128762:32 128768:0 128884:32 128896:0 128981:32 " +
	"129024:0 129036:32 129040:0 129096:32 129104:0 129114:32 129120:0 129160:32 129168:0 129198:32 129280:0 " +
	"129292:32 129296:35 129304:43 129309:35 129310:43 129312:35 129318:43 129319:35 129328:43 129338:35 129339:0 " +
	"129340:35 129341:43 129343:32 129344:35 129350:0 129351:35 129393:32 129395:35 129399:32 129402:35 129403:32 " +
	"129404:35 129443:32 129456:51 129460:35 129461:43 129463:35 129464:43 129466:32 129472:35 129475:32 129488:35 " +
	"129489:43 129502:35 129536:32 131070:0 917536:16 917632:0 "
