/* more cases than the first table of the compiler holds */
void out(int x);
static int sw(int x) {
    switch (x) {
    case 163: x++;
    case 475: return 2;
    case -4723: return 3;
    case -342732013: return 4;
    case -4848: return 5;
    case 481: x++;
    case 484: return 7;
    case -4901: return 8;
    case 691655123: return 9;
    case -4881: return 10;
    case -980504310: x++;
    case 7: return 12;
    case 112: return 13;
    case 658: return 14;
    case 595: return 15;
    case -4906: x++;
    case -4808: return 17;
    case 482723311: return 18;
    case 283: return 19;
    case 14: return 20;
    case -230050850: x++;
    case -716014916: return 22;
    case 36: return 23;
    case -4961: return 24;
    case 30: return 25;
    case 253: x++;
    case -4957: return 27;
    case 403: return 28;
    case 22: return 29;
    case -4813: return 30;
    case -988590119: x++;
    case -4921: return 32;
    case -4762: return 33;
    case -4798: return 34;
    case -4742: return 35;
    case -4713: x++;
    case -781011645: return 37;
    case 589: return 38;
    case -687107534: return 39;
    case -4964: return 40;
    case 250: x++;
    case -4802: return 42;
    case 472: return 43;
    case -4900: return 44;
    case 881451079: return 45;
    case 232: x++;
    case -4833: return 47;
    case 43: return 48;
    case -4965: return 49;
    case -4727: return 50;
    case -4728: x++;
    case -4821: return 52;
    case -4807: return 53;
    case -4733: return 54;
    case 10: return 55;
    case 7318097: x++;
    case -4897: return 57;
    case 16: return 58;
    case 628: return 59;
    case -4963: return 60;
    case 544: x++;
    case -4962: return 62;
    case 29: return 63;
    case 463: return 64;
    case -4860: return 65;
    case -4721: x++;
    case 154: return 67;
    case 184: return 68;
    case -4912: return 69;
    case 385: return 70;
    case -4882: x++;
    case 373: return 72;
    case -4960: return 73;
    case 574: return 74;
    case -4880: return 75;
    case -4908: x++;
    case -4799: return 77;
    case 124: return 78;
    case 103: return 79;
    case 400227407: return 80;
    case 20: x++;
    case -4718: return 82;
    case -4846: return 83;
    case 24: return 84;
    case -4937: return 85;
    case -4875: x++;
    case 526: return 87;
    case -4760: return 88;
    case -4954: return 89;
    case -4866: return 90;
    case 478: x++;
    case -352836263: return 92;
    case 166: return 93;
    case 256: return 94;
    case 415: return 95;
    case -971837492: x++;
    case 676: return 97;
    case -4845: return 98;
    case -231965223: return 99;
    case -4942: return 100;
    case 316: x++;
    case -4842: return 102;
    case -4832: return 103;
    case -4748: return 104;
    case 439: return 105;
    case -4862: x++;
    case 127: return 107;
    case -4843: return 108;
    case -4794: return 109;
    case -4891: return 110;
    case -4778: x++;
    case -609869514: return 112;
    case -4982: return 113;
    case 505: return 114;
    case -4929: return 115;
    case -4732: x++;
    case -4820: return 117;
    case -4714: return 118;
    case 919295641: return 119;
    case -4941: return 120;
    case 115: x++;
    case -4777: return 122;
    case 274: return 123;
    case -4801: return 124;
    case 56: return 125;
    case 37: x++;
    case -4981: return 127;
    case 646: return 128;
    case -4966: return 129;
    case 610: return 130;
    case -177033813: x++;
    case 41: return 132;
    case 529: return 133;
    case 39: return 134;
    case 15: return 135;
    case 40: x++;
    case 580: return 137;
    case 382: return 138;
    case -4985: return 139;
    case -572888428: return 140;
    case -4904: x++;
    case -4852: return 142;
    case 232529314: return 143;
    case -4783: return 144;
    case -756892037: return 145;
    case 226: x++;
    case 535: return 147;
    case -4980: return 148;
    case -4741: return 149;
    case -4890: return 150;
    case 588920084: x++;
    case 100: return 152;
    case 514: return 153;
    case -399816178: return 154;
    case -4997: return 155;
    case -4708: x++;
    case -44722625: return 157;
    case -4927: return 158;
    case -4838: return 159;
    case 523: return 160;
    case -4863: x++;
    case -4973: return 162;
    case 346: return 163;
    case -433468162: return 164;
    case -449853697: return 165;
    case 279855051: x++;
    case -4758: return 167;
    case 35: return 168;
    case -4949: return 169;
    case -4828: return 170;
    case -4840: x++;
    case -4910: return 172;
    case 28: return 173;
    case -4805: return 174;
    case -4839: return 175;
    case 193: x++;
    case -4756: return 177;
    case 241: return 178;
    case -4945: return 179;
    case 304: return 180;
    case 59: x++;
    case -274372004: return 182;
    case -236888779: return 183;
    case 980677840: return 184;
    case 17: return 185;
    case -4776: x++;
    case 160: return 187;
    case -727915469: return 188;
    case 211: return 189;
    case 559: return 190;
    case 804633855: x++;
    case -4775: return 192;
    case -4739: return 193;
    case -4724: return 194;
    case 25: return 195;
    case -4936: x++;
    case -4976: return 197;
    case 757754189: return 198;
    case 513265449: return 199;
    case -4993: return 200;
    case 295168855: x++;
    case -4809: return 202;
    case -4834: return 203;
    case 268: return 204;
    case -4853: return 205;
    case 814367901: x++;
    case 247: return 207;
    case -4979: return 208;
    case 361: return 209;
    case 541: return 210;
    case -4983: x++;
    case -4994: return 212;
    case 157: return 213;
    case 644382882: return 214;
    case -4978: return 215;
    case -4972: x++;
    case -4734: return 217;
    case 550: return 218;
    case 553: return 219;
    case -224350523: return 220;
    case -4858: x++;
    case 34: return 222;
    case -4815: return 223;
    case -657252561: return 224;
    case 175: return 225;
    case 577: x++;
    case 694: return 227;
    case -4725: return 228;
    case 517: return 229;
    case -4772: return 230;
    case -451436004: x++;
    case 755353794: return 232;
    case 326986382: return 233;
    case -4970: return 234;
    case 379: return 235;
    case -4930: x++;
    case -4711: return 237;
    case 673: return 238;
    case 457: return 239;
    case -608995496: return 240;
    case 190: x++;
    case -4946: return 242;
    case -4950: return 243;
    case -4765: return 244;
    case -4969: return 245;
    case -131785060: x++;
    case -4952: return 247;
    case 655: return 248;
    case 571: return 249;
    case -560239339: return 250;
    case 495550152: x++;
    case -643612096: return 252;
    case -4811: return 253;
    case -4753: return 254;
    case 487: return 255;
    case 49: x++;
    case -4894: return 257;
    case -888645988: return 258;
    case 0: return 259;
    case 583: return 260;
    case -4869: x++;
    case -4836: return 262;
    case -4878: return 263;
    case -4800: return 264;
    case 38: return 265;
    case -4804: x++;
    case 466: return 267;
    case -4938: return 268;
    case -4948: return 269;
    case -4751: return 270;
    case -4934: x++;
    case -4761: return 272;
    case -4920: return 273;
    case -4810: return 274;
    case -4991: return 275;
    case 26: x++;
    case -4998: return 277;
    case 424: return 278;
    case 343745360: return 279;
    case 436: return 280;
    case 568: x++;
    case 31: return 282;
    case -4907: return 283;
    case 343: return 284;
    case -4729: return 285;
    case -961200268: x++;
    case 121: return 287;
    case -4864: return 288;
    case 601: return 289;
    case -577205475: return 290;
    case -4925: x++;
    case 370: return 292;
    case 322: return 293;
    case -4707: return 294;
    case -4784: return 295;
    case -643826004: x++;
    case 667: return 297;
    case -534576303: return 298;
    case 934669085: return 299;
    case -4857: return 300;
    case 483142283: x++;
    case 661279829: return 302;
    case -4992: return 303;
    case 409: return 304;
    case 139: return 305;
    case 631: x++;
    case -201579841: return 307;
    case -4956: return 308;
    case 613: return 309;
    case -108994616: return 310;
    case -621784998: x++;
    case -4819: return 312;
    case 688: return 313;
    case -4747: return 314;
    case 520: return 315;
    case 460: x++;
    case 711860139: return 317;
    case 167717556: return 318;
    case -358355720: return 319;
    case 862854222: return 320;
    case -4951: x++;
    case 556: return 322;
    case -642477306: return 323;
    case 807131032: return 324;
    case -4769: return 325;
    case -4851: x++;
    case -4990: return 327;
    case 508: return 328;
    case 394: return 329;
    case 433: return 330;
    case 292: x++;
    case 53: return 332;
    case -4984: return 333;
    case 54: return 334;
    case -4909: return 335;
    case -4827: x++;
    case -4737: return 337;
    case 27: return 338;
    case 616: return 339;
    case 242359718: return 340;
    case -4702: x++;
    case -4913: return 342;
    case 592975436: return 343;
    case -4830: return 344;
    case 9: return 345;
    case -4968: x++;
    case 42: return 347;
    case 23: return 348;
    case -4871: return 349;
    case -4822: return 350;
    case -4736: x++;
    case -4745: return 352;
    case 310: return 353;
    case -4774: return 354;
    case 118: return 355;
    case -4850: x++;
    case 151: return 357;
    case -950896589: return 358;
    case -4971: return 359;
    case 328: return 360;
    case 19: x++;
    case 181: return 362;
    case -4717: return 363;
    case -4835: return 364;
    case -4785: return 365;
    case -4939: x++;
    case -992734810: return 367;
    case 33: return 368;
    case -82963: return 369;
    case 707665179: return 370;
    case -4719: x++;
    case 469: return 372;
    case 199: return 373;
    case -4831: return 374;
    case -845527772: return 375;
    case 538: x++;
    case 6: return 377;
    case 451: return 378;
    case 172: return 379;
    case 664: return 380;
    case 133: x++;
    case -4795: return 382;
    case 643: return 383;
    case -4915: return 384;
    case 562: return 385;
    case -937711753: x++;
    case 652: return 387;
    case 12: return 388;
    case 430: return 389;
    case -4738: return 390;
    case -4803: x++;
    case 592: return 392;
    case 205: return 393;
    case 142: return 394;
    case 46: return 395;
    case 670: x++;
    case 565: return 397;
    case -4989: return 398;
    case -4931: return 399;
    case -4818: return 400;
    case 179110135: x++;
    case 376: return 402;
    case 44: return 403;
    case -4826: return 404;
    case -4944: return 405;
    case -4928: x++;
    case -4782: return 407;
    case -4796: return 408;
    case 136: return 409;
    case -953678322: return 410;
    case 421: x++;
    case -4999: return 412;
    case 32: return 413;
    case -663164346: return 414;
    case 265: return 415;
    case -4943: x++;
    case -4841: return 417;
    case -4750: return 418;
    case -4731: return 419;
    case -123502282: return 420;
    case -858217869: x++;
    case 14768378: return 422;
    case 355: return 423;
    case -4922: return 424;
    case 873481408: return 425;
    case -4911: x++;
    case 634: return 427;
    case -877591431: return 428;
    case 682: return 429;
    case -4940: return 430;
    case -4814: x++;
    case 622: return 432;
    case 11: return 433;
    case 679: return 434;
    case -4764: return 435;
    case 223: x++;
    case -4987: return 437;
    case -4872: return 438;
    case -4874: return 439;
    case -4706: return 440;
    case -4823: x++;
    case 697: return 442;
    case -4816: return 443;
    case 604: return 444;
    case -4847: return 445;
    case -4849: x++;
    case -4876: return 447;
    case 217: return 448;
    case -4746: return 449;
    case 178: return 450;
    case 229: x++;
    case -4792: return 452;
    case 289: return 453;
    case 598: return 454;
    case -4902: return 455;
    case 610172544: x++;
    case 220: return 457;
    case 337: return 458;
    case -4730: return 459;
    case 187: return 460;
    case 52: x++;
    case 334: return 462;
    case -334370413: return 463;
    case -4757: return 464;
    case -5000: return 465;
    case -4967: x++;
    case -4824: return 467;
    case 364: return 468;
    case -4873: return 469;
    case -4763: return 470;
    case 445: x++;
    case -4996: return 472;
    case -4829: return 473;
    case -4879: return 474;
    case -4793: return 475;
    case -4740: x++;
    case -4780: return 477;
    case 48: return 478;
    case 319: return 479;
    case -4854: return 480;
    case -27571608: x++;
    case 51: return 482;
    case -4888: return 483;
    case 607: return 484;
    case -4771: return 485;
    case 637: x++;
    case -4806: return 487;
    case -4789: return 488;
    case 570205072: return 489;
    case -321839457: return 490;
    case -4914: x++;
    case -4754: return 492;
    case -4787: return 493;
    case -701999243: return 494;
    case 295: return 495;
    case 340: x++;
    case 493: return 497;
    case 367: return 498;
    case 33408623: return 499;
    case -182328601: return 500;
    case 666358331: x++;
    case 502: return 502;
    case 130: return 503;
    case -4926: return 504;
    case 277: return 505;
    case -4861: x++;
    case -4889: return 507;
    case -996188520: return 508;
    case -4877: return 509;
    case 202: return 510;
    case -4701: x++;
    case 157973579: return 512;
    case -4859: return 513;
    case -4995: return 514;
    case 21: return 515;
    case -4709: x++;
    case 244: return 517;
    case 57: return 518;
    case -465163493: return 519;
    case -4870: return 520;
    case 298: x++;
    case 412: return 522;
    case 455852709: return 523;
    case -4955: return 524;
    case -4932: return 525;
    case -213624828: x++;
    case -4899: return 527;
    case -4837: return 528;
    case 262: return 529;
    case -378721874: return 530;
    case 586: x++;
    case -4844: return 532;
    case 967836688: return 533;
    case 169: return 534;
    case -4905: return 535;
    case -4868: x++;
    case -603202493: return 537;
    case -4791: return 538;
    case -4759: return 539;
    case 649: return 540;
    case 400: x++;
    case -4893: return 542;
    case 58: return 543;
    case 393662250: return 544;
    case -4779: return 545;
    case 280: x++;
    case 2: return 547;
    case -4865: return 548;
    case -4898: return 549;
    case 442: return 550;
    case -4923: x++;
    case 406: return 552;
    case 685: return 553;
    case 5: return 554;
    case 196: return 555;
    case -4892: x++;
    case -4710: return 557;
    case 50: return 558;
    case -4715: return 559;
    case 511: return 560;
    case -4712: x++;
    case -4703: return 562;
    case 352: return 563;
    case -4773: return 564;
    case 238: return 565;
    case 619: x++;
    case -4735: return 567;
    case 32392418: return 568;
    case 496: return 569;
    case 271: return 570;
    case -860113536: x++;
    case -4886: return 572;
    case 519722965: return 573;
    case -4768: return 574;
    case -4797: return 575;
    case 307: x++;
    case -4781: return 577;
    case 532: return 578;
    case 4: return 579;
    case 455629858: return 580;
    case -470488876: x++;
    case -4704: return 582;
    case -100575356: return 583;
    case 1: return 584;
    case 358: return 585;
    case 499: x++;
    case 397: return 587;
    case -4790: return 588;
    case 325: return 589;
    case -4977: return 590;
    case -4884: x++;
    case -4722: return 592;
    case 349: return 593;
    case -4885: return 594;
    case 448: return 595;
    case 18: x++;
    case -4953: return 597;
    case -4918: return 598;
    case 45: return 599;
    case 259: return 600;
    case -4770: x++;
    case -4788: return 602;
    case 286: return 603;
    case -4743: return 604;
    case 313: return 605;
    case 138251922: x++;
    case 418: return 607;
    case -4895: return 608;
    case 208: return 609;
    case -4924: return 610;
    case -4767: x++;
    case 106: return 612;
    case -163689736: return 613;
    case 337671202: return 614;
    case 13: return 615;
    case 148: x++;
    case -4896: return 617;
    case -4959: return 618;
    case 55: return 619;
    case -4933: return 620;
    case 547: x++;
    case -4935: return 622;
    case -4856: return 623;
    case -4726: return 624;
    case 331: return 625;
    case -537257716: x++;
    case -191761426: return 627;
    case -4919: return 628;
    case 109: return 629;
    case 214: return 630;
    case 806536466: x++;
    case 864972416: return 632;
    case 640: return 633;
    case -4825: return 634;
    case -550195843: return 635;
    case 47: x++;
    case 454: return 637;
    case 661: return 638;
    case -4986: return 639;
    case -287347916: return 640;
    case -4903: x++;
    case 301: return 642;
    case -4752: return 643;
    case -4916: return 644;
    case 325969189: return 645;
    case -4988: x++;
    case -4887: return 647;
    case -4755: return 648;
    case -4744: return 649;
    case -4749: return 650;
    case -4974: x++;
    case 490: return 652;
    case -4786: return 653;
    case 636222395: return 654;
    case -4917: return 655;
    case 3: x++;
    case 691: return 657;
    case 391: return 658;
    case -4720: return 659;
    case -4855: return 660;
    case -4975: x++;
    case 145: return 662;
    case -464566356: return 663;
    case -4766: return 664;
    case 8: return 665;
    case 625: x++;
    case -4958: return 667;
    case 871327445: return 668;
    case -4812: return 669;
    case 427: return 670;
    case -4705: x++;
    case 388: return 672;
    case -4716: return 673;
    case 235: return 674;
    case -4817: return 675;
    case -4947: x++;
    case -4867: return 677;
    case 258728775: return 678;
    case -4883: return 679;
    case -326438819: return 680;
    default: return -x;
    }
    return x;
}
static int usw(unsigned x) {
    switch (x) {
    case 0u: return 100;
    case 1u: return 101;
    case 2u: return 102;
    case 3u: return 103;
    case 4u: return 104;
    case 5u: return 105;
    case 2147483647u: return 106;
    case 2147483648u: return 107;
    case 2147483649u: return 108;
    case 2147483650u: return 109;
    case 2147483651u: return 110;
    case 2147483652u: return 111;
    case 4294967280u: return 112;
    case 4294967288u: return 113;
    case 4294967289u: return 114;
    case 4294967290u: return 115;
    case 4294967291u: return 116;
    case 4294967292u: return 117;
    case 4294967293u: return 118;
    case 4294967294u: return 119;
    case 4294967295u: return 120;
    }
    return -1;
}
static int csw(char c) { switch (c) { case 'a': return 1; case -1: return 2; case -128: return 3; case 127: return 4; case 'b': return 5; case 'c': return 6; case 'd': return 7; } return 0; }
static int ucsw(unsigned char c) { switch (c) { case 0: return 1; case 255: return 2; case 128: return 3; case 127: return 4; case 1: return 5; case 2: return 6; case 3: return 7; } return 0; }
static int v[] = { -996188520, -992734810, -988590119, -980504310, -971837492, -961200268, -953678322, -950896589, -937711753, -888645988, -877591431, -860113536, -858217869, -845527772, -781011645, -756892037, -727915469, -716014916, -701999243, -687107534, -663164346, -657252561, -643826004, -643612096, -642477306, -621784998, -609869514, -608995496, -603202493, -577205475, -572888428, -560239339, -550195843, -537257716, -534576303, -470488876, -465163493, -464566356, -451436004, -449853697, -433468162, -399816178, -378721874, -358355720, -352836263, -342732013, -334370413, -326438819, -321839457, -287347916, -274372004, -236888779, -231965223, -230050850, -224350523, -213624828, -201579841, -191761426, -182328601, -177033813, -163689736, -131785060, -123502282, -108994616, -100575356, -44722625, -27571608, -82963, -5000, -4999, -4998, -4997, -4996, -4995, -4994, -4993, -4992, -4991, -4990, -4989, -4988, -4987, -4986, -4985, -4984, -4983, -4982, -4981, -4980, -4979, -4978, -4977, -4976, -4975, -4974, -4973, -4972, -4971, -4970, -4969, -4968, -4967, -4966, -4965, -4964, -4963, -4962, -4961, -4960, -4959, -4958, -4957, -4956, -4955, -4954, -4953, -4952, -4951, -4950, -4949, -4948, -4947, -4946, -4945, -4944, -4943, -4942, -4941, -4940, -4939, -4938, -4937, -4936, -4935, -4934, -4933, -4932, -4931, -4930, -4929, -4928, -4927, -4926, -4925, -4924, -4923, -4922, -4921, -4920, -4919, -4918, -4917, -4916, -4915, -4914, -4913, -4912, -4911, -4910, -4909, -4908, -4907, -4906, -4905, -4904, -4903, -4902, -4901, -4900, -4899, -4898, -4897, -4896, -4895, -4894, -4893, -4892, -4891, -4890, -4889, -4888, -4887, -4886, -4885, -4884, -4883, -4882, -4881, -4880, -4879, -4878, -4877, -4876, -4875, -4874, -4873, -4872, -4871, -4870, -4869, -4868, -4867, -4866, -4865, -4864, -4863, -4862, -4861, -4860, -4859, -4858, -4857, -4856, -4855, -4854, -4853, -4852, -4851, -4850, -4849, -4848, -4847, -4846, -4845, -4844, -4843, -4842, -4841, -4840, -4839, -4838, -4837, -4836, -4835, -4834, -4833, -4832, -4831, -4830, -4829, -4828, -4827, -4826, -4825, -4824, -4823, -4822, -4821, -4820, -4819, -4818, -4817, -4816, -4815, -4814, -4813, -4812, -4811, -4810, -4809, -4808, -4807, -4806, -4805, -4804, -4803, -4802, -4801, -4800, -4799, -4798, -4797, -4796, -4795, -4794, -4793, -4792, -4791, -4790, -4789, -4788, -4787, -4786, -4785, -4784, -4783, -4782, -4781, -4780, -4779, -4778, -4777, -4776, -4775, -4774, -4773, -4772, -4771, -4770, -4769, -4768, -4767, -4766, -4765, -4764, -4763, -4762, -4761, -4760, -4759, -4758, -4757, -4756, -4755, -4754, -4753, -4752, -4751, -4750, -4749, -4748, -4747, -4746, -4745, -4744, -4743, -4742, -4741, -4740, -4739, -4738, -4737, -4736, -4735, -4734, -4733, -4732, -4731, -4730, -4729, -4728, -4727, -4726, -4725, -4724, -4723, -4722, -4721, -4720, -4719, -4718, -4717, -4716, -4715, -4714, -4713, -4712, -4711, -4710, -4709, -4708, -4707, -4706, -4705, -4704, -4703, -4702, -4701, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 100, 103, 106, 109, 112, 115, 118, 121, 124, 127, 130, 133, 136, 139, 142, 145, 148, 151, 154, 157, 160, 163, 166, 169, 172, 175, 178, 181, 184, 187, 190, 193, 196, 199, 202, 205, 208, 211, 214, 217, 220, 223, 226, 229, 232, 235, 238, 241, 244, 247, 250, 253, 256, 259, 262, 265, 268, 271, 274, 277, 280, 283, 286, 289, 292, 295, 298, 301, 304, 307, 310, 313, 316, 319, 322, 325, 328, 331, 334, 337, 340, 343, 346, 349, 352, 355, 358, 361, 364, 367, 370, 373, 376, 379, 382, 385, 388, 391, 394, 397, 400, 403, 406, 409, 412, 415, 418, 421, 424, 427, 430, 433, 436, 439, 442, 445, 448, 451, 454, 457, 460, 463, 466, 469, 472, 475, 478, 481, 484, 487, 490, 493, 496, 499, 502, 505, 508, 511, 514, 517, 520, 523, 526, 529, 532, 535, 538, 541, 544, 547, 550, 553, 556, 559, 562, 565, 568, 571, 574, 577, 580, 583, 586, 589, 592, 595, 598, 601, 604, 607, 610, 613, 616, 619, 622, 625, 628, 631, 634, 637, 640, 643, 646, 649, 652, 655, 658, 661, 664, 667, 670, 673, 676, 679, 682, 685, 688, 691, 694, 697, 7318097, 14768378, 32392418, 33408623, 138251922, 157973579, 167717556, 179110135, 232529314, 242359718, 258728775, 279855051, 295168855, 325969189, 326986382, 337671202, 343745360, 393662250, 400227407, 455629858, 455852709, 482723311, 483142283, 495550152, 513265449, 519722965, 570205072, 588920084, 592975436, 610172544, 636222395, 644382882, 661279829, 666358331, 691655123, 707665179, 711860139, 755353794, 757754189, 804633855, 806536466, 807131032, 814367901, 862854222, 864972416, 871327445, 873481408, 881451079, 919295641, 934669085, 967836688, 980677840, -6000, -4701, -4700, 60, 61, 99, 102, 698, 699, 700, 2147483647, -2147483647 };
int test(int command, int arg0) {
    int i, s = 0;
    for (i = 0; i < sizeof v / sizeof v[0]; i++) { s = s * 31 + sw(v[i]); s = s * 31 + sw(v[i] + 1); s = s * 31 + sw(v[i] - 1); if (i % 16 == 0) out(s); }
    for (i = -12; i < 12; i++) { out(usw(i)); out(usw(i + 0x80000000u)); out(usw((unsigned)i + 0x7fffffffu)); }
    for (i = -300; i < 300; i++) { s = s * 7 + csw((char)i); s = s * 7 + ucsw((unsigned char)i); }
    out(s);
    return s;
}
