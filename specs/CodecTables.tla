---------------------------- MODULE CodecTables ----------------------------
EXTENDS Integers
(* Generated by tools/gen_codectables.py: character tables, from sources independent of lib-common. *)
TabB1 == << <<173,173>>, <<847,847>>, <<6150,6150>>, <<6155,6157>>, <<8203,8205>>, <<8288,8288>>, <<65024,65039>>, <<65279,65279>> >>
TabProhibited == << <<128,160>>, <<832,833>>, <<1757,1757>>, <<1807,1807>>, <<5760,5760>>, <<6158,6158>>, <<8192,8202>>, <<8206,8207>>, <<8232,8239>>, <<8287,8287>>, <<8289,8291>>, <<8298,8303>>, <<12272,12283>>, <<12288,12288>>, <<55296,63743>>, <<64976,65007>>, <<65529,65535>>, <<119155,119162>>, <<131070,131071>>, <<196606,196607>>, <<262142,262143>>, <<327678,327679>>, <<393214,393215>>, <<458750,458751>>, <<524286,524287>>, <<589822,589823>>, <<655358,655359>>, <<720894,720895>>, <<786430,786431>>, <<851966,851967>>, <<917502,917503>>, <<917505,917505>>, <<917536,917631>>, <<983038,1114111>> >>
TabUnassigned == << <<545,545>>, <<564,591>>, <<686,687>>, <<751,767>>, <<848,863>>, <<880,883>>, <<886,889>>, <<891,893>>, <<895,899>>, <<907,907>>, <<909,909>>, <<930,930>>, <<975,975>>, <<1015,1023>>, <<1159,1159>>, <<1231,1231>>, <<1270,1271>>, <<1274,1279>>, <<1296,1328>>, <<1367,1368>>, <<1376,1376>>, <<1416,1416>>, <<1419,1424>>, <<1442,1442>>, <<1466,1466>>, <<1477,1487>>, <<1515,1519>>, <<1525,1547>>, <<1549,1562>>, <<1564,1566>>, <<1568,1568>>, <<1595,1599>>, <<1622,1631>>, <<1774,1775>>, <<1791,1791>>, <<1806,1806>>, <<1837,1839>>, <<1867,1919>>, <<1970,2304>>, <<2308,2308>>, <<2362,2363>>, <<2382,2383>>, <<2389,2391>>, <<2417,2432>>, <<2436,2436>>, <<2445,2446>>, <<2449,2450>>, <<2473,2473>>, <<2481,2481>>, <<2483,2485>>, <<2490,2491>>, <<2493,2493>>, <<2501,2502>>, <<2505,2506>>, <<2510,2518>>, <<2520,2523>>, <<2526,2526>>, <<2532,2533>>, <<2555,2561>>, <<2563,2564>>, <<2571,2574>>, <<2577,2578>>, <<2601,2601>>, <<2609,2609>>, <<2612,2612>>, <<2615,2615>>, <<2618,2619>>, <<2621,2621>>, <<2627,2630>>, <<2633,2634>>, <<2638,2648>>, <<2653,2653>>, <<2655,2661>>, <<2677,2688>>, <<2692,2692>>, <<2700,2700>>, <<2702,2702>>, <<2706,2706>>, <<2729,2729>>, <<2737,2737>>, <<2740,2740>>, <<2746,2747>>, <<2758,2758>>, <<2762,2762>>, <<2766,2767>>, <<2769,2783>>, <<2785,2789>>, <<2800,2816>>, <<2820,2820>>, <<2829,2830>>, <<2833,2834>>, <<2857,2857>>, <<2865,2865>>, <<2868,2869>>, <<2874,2875>>, <<2884,2886>>, <<2889,2890>>, <<2894,2901>>, <<2904,2907>>, <<2910,2910>>, <<2914,2917>>, <<2929,2945>>, <<2948,2948>>, <<2955,2957>>, <<2961,2961>>, <<2966,2968>>, <<2971,2971>>, <<2973,2973>>, <<2976,2978>>, <<2981,2983>>, <<2987,2989>>, <<2998,2998>>, <<3002,3005>>, <<3011,3013>>, <<3017,3017>>, <<3022,3030>>, <<3032,3046>>, <<3059,3072>>, <<3076,3076>>, <<3085,3085>>, <<3089,3089>>, <<3113,3113>>, <<3124,3124>>, <<3130,3133>>, <<3141,3141>>, <<3145,3145>>, <<3150,3156>>, <<3159,3167>>, <<3170,3173>>, <<3184,3201>>, <<3204,3204>>, <<3213,3213>>, <<3217,3217>>, <<3241,3241>>, <<3252,3252>>, <<3258,3261>>, <<3269,3269>>, <<3273,3273>>, <<3278,3284>>, <<3287,3293>>, <<3295,3295>>, <<3298,3301>>, <<3312,3329>>, <<3332,3332>>, <<3341,3341>>, <<3345,3345>>, <<3369,3369>>, <<3386,3389>>, <<3396,3397>>, <<3401,3401>>, <<3406,3414>>, <<3416,3423>>, <<3426,3429>>, <<3440,3457>>, <<3460,3460>>, <<3479,3481>>, <<3506,3506>>, <<3516,3516>>, <<3518,3519>>, <<3527,3529>>, <<3531,3534>>, <<3541,3541>>, <<3543,3543>>, <<3552,3569>>, <<3573,3584>>, <<3643,3646>>, <<3676,3712>>, <<3715,3715>>, <<3717,3718>>, <<3721,3721>>, <<3723,3724>>, <<3726,3731>>, <<3736,3736>>, <<3744,3744>>, <<3748,3748>>, <<3750,3750>>, <<3752,3753>>, <<3756,3756>>, <<3770,3770>>, <<3774,3775>>, <<3781,3781>>, <<3783,3783>>, <<3790,3791>>, <<3802,3803>>, <<3806,3839>>, <<3912,3912>>, <<3947,3952>>, <<3980,3983>>, <<3992,3992>>, <<4029,4029>>, <<4045,4046>>, <<4048,4095>>, <<4130,4130>>, <<4136,4136>>, <<4139,4139>>, <<4147,4149>>, <<4154,4159>>, <<4186,4255>>, <<4294,4303>>, <<4345,4346>>, <<4348,4351>>, <<4442,4446>>, <<4515,4519>>, <<4602,4607>>, <<4615,4615>>, <<4679,4679>>, <<4681,4681>>, <<4686,4687>>, <<4695,4695>>, <<4697,4697>>, <<4702,4703>>, <<4743,4743>>, <<4745,4745>>, <<4750,4751>>, <<4783,4783>>, <<4785,4785>>, <<4790,4791>>, <<4799,4799>>, <<4801,4801>>, <<4806,4807>>, <<4815,4815>>, <<4823,4823>>, <<4847,4847>>, <<4879,4879>>, <<4881,4881>>, <<4886,4887>>, <<4895,4895>>, <<4935,4935>>, <<4955,4960>>, <<4989,5023>>, <<5109,5120>>, <<5751,5759>>, <<5789,5791>>, <<5873,5887>>, <<5901,5901>>, <<5909,5919>>, <<5943,5951>>, <<5972,5983>>, <<5997,5997>>, <<6001,6001>>, <<6004,6015>>, <<6109,6111>>, <<6122,6143>>, <<6159,6159>>, <<6170,6175>>, <<6264,6271>>, <<6314,7679>>, <<7836,7839>>, <<7930,7935>>, <<7958,7959>>, <<7966,7967>>, <<8006,8007>>, <<8014,8015>>, <<8024,8024>>, <<8026,8026>>, <<8028,8028>>, <<8030,8030>>, <<8062,8063>>, <<8117,8117>>, <<8133,8133>>, <<8148,8149>>, <<8156,8156>>, <<8176,8177>>, <<8181,8181>>, <<8191,8191>>, <<8275,8278>>, <<8280,8286>>, <<8292,8297>>, <<8306,8307>>, <<8335,8351>>, <<8370,8399>>, <<8427,8447>>, <<8507,8508>>, <<8524,8530>>, <<8580,8591>>, <<9167,9215>>, <<9255,9279>>, <<9291,9311>>, <<9471,9471>>, <<9748,9749>>, <<9752,9752>>, <<9854,9855>>, <<9866,9984>>, <<9989,9989>>, <<9994,9995>>, <<10024,10024>>, <<10060,10060>>, <<10062,10062>>, <<10067,10069>>, <<10071,10071>>, <<10079,10080>>, <<10133,10135>>, <<10160,10160>>, <<10175,10191>>, <<10220,10223>>, <<11008,11903>>, <<11930,11930>>, <<12020,12031>>, <<12246,12271>>, <<12284,12287>>, <<12352,12352>>, <<12439,12440>>, <<12544,12548>>, <<12589,12592>>, <<12687,12687>>, <<12728,12783>>, <<12829,12831>>, <<12868,12880>>, <<12924,12926>>, <<13004,13007>>, <<13055,13055>>, <<13175,13178>>, <<13278,13279>>, <<13311,13311>>, <<19894,19967>>, <<40870,40959>>, <<42125,42127>>, <<42183,44031>>, <<55204,55295>>, <<64046,64047>>, <<64107,64255>>, <<64263,64274>>, <<64280,64284>>, <<64311,64311>>, <<64317,64317>>, <<64319,64319>>, <<64322,64322>>, <<64325,64325>>, <<64434,64466>>, <<64832,64847>>, <<64912,64913>>, <<64968,64975>>, <<65021,65023>>, <<65040,65055>>, <<65060,65071>>, <<65095,65096>>, <<65107,65107>>, <<65127,65127>>, <<65132,65135>>, <<65141,65141>>, <<65277,65278>>, <<65280,65280>>, <<65471,65473>>, <<65480,65481>>, <<65488,65489>>, <<65496,65497>>, <<65501,65503>>, <<65511,65511>>, <<65519,65528>>, <<65536,66303>>, <<66335,66335>>, <<66340,66351>>, <<66379,66559>>, <<66598,66599>>, <<66638,118783>>, <<119030,119039>>, <<119079,119081>>, <<119262,119807>>, <<119893,119893>>, <<119965,119965>>, <<119968,119969>>, <<119971,119972>>, <<119975,119976>>, <<119981,119981>>, <<119994,119994>>, <<119996,119996>>, <<120001,120001>>, <<120004,120004>>, <<120070,120070>>, <<120075,120076>>, <<120085,120085>>, <<120093,120093>>, <<120122,120122>>, <<120127,120127>>, <<120133,120133>>, <<120135,120137>>, <<120145,120145>>, <<120484,120487>>, <<120778,120781>>, <<120832,131069>>, <<173783,194559>>, <<195102,196605>>, <<196608,262141>>, <<262144,327677>>, <<327680,393213>>, <<393216,458749>>, <<458752,524285>>, <<524288,589821>>, <<589824,655357>>, <<655360,720893>>, <<720896,786429>>, <<786432,851965>>, <<851968,917501>>, <<917504,917504>>, <<917506,917535>>, <<917632,983037>> >>
TabUpper == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 247, 216, 217, 218, 219, 220, 221, 222, 376, 256, 256, 258, 258, 260, 260, 262, 262, 264, 264, 266, 266, 268, 268, 270, 270, 272, 272, 274, 274, 276, 276, 278, 278, 280, 280, 282, 282, 284, 284, 286, 286, 288, 288, 290, 290, 292, 292, 294, 294, 296, 296, 298, 298, 300, 300, 302, 302, 304, 73, 306, 306, 308, 308, 310, 310, 312, 313, 313, 315, 315, 317, 317, 319, 319, 321, 321, 323, 323, 325, 325, 327, 327, 329, 330, 330, 332, 332, 334, 334, 336, 336, 338, 338, 340, 340, 342, 342, 344, 344, 346, 346, 348, 348, 350, 350, 352, 352, 354, 354, 356, 356, 358, 358, 360, 360, 362, 362, 364, 364, 366, 366, 368, 368, 370, 370, 372, 372, 374, 374, 376, 377, 377, 379, 379, 381, 381, 83, 579, 385, 386, 386, 388, 388, 390, 391, 391, 393, 394, 395, 395, 397, 398, 399, 400, 401, 401, 403, 404, 502, 406, 407, 408, 408, 573, 411, 412, 413, 544, 415, 416, 416, 418, 418, 420, 420, 422, 423, 423, 425, 426, 427, 428, 428, 430, 431, 431, 433, 434, 435, 435, 437, 437, 439, 440, 440, 442, 443, 444, 444, 446, 503, 448, 449, 450, 451, 452, 452, 452, 455, 455, 455, 458, 458, 458, 461, 461, 463, 463, 465, 465, 467, 467, 469, 469, 471, 471, 473, 473, 475, 475, 398, 478, 478, 480, 480, 482, 482, 484, 484, 486, 486, 488, 488, 490, 490, 492, 492, 494, 494, 496, 497, 497, 497, 500, 500, 502, 503, 504, 504, 506, 506, 508, 508, 510, 510 >>
TabLower == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 215, 248, 249, 250, 251, 252, 253, 254, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 257, 257, 259, 259, 261, 261, 263, 263, 265, 265, 267, 267, 269, 269, 271, 271, 273, 273, 275, 275, 277, 277, 279, 279, 281, 281, 283, 283, 285, 285, 287, 287, 289, 289, 291, 291, 293, 293, 295, 295, 297, 297, 299, 299, 301, 301, 303, 303, 105, 305, 307, 307, 309, 309, 311, 311, 312, 314, 314, 316, 316, 318, 318, 320, 320, 322, 322, 324, 324, 326, 326, 328, 328, 329, 331, 331, 333, 333, 335, 335, 337, 337, 339, 339, 341, 341, 343, 343, 345, 345, 347, 347, 349, 349, 351, 351, 353, 353, 355, 355, 357, 357, 359, 359, 361, 361, 363, 363, 365, 365, 367, 367, 369, 369, 371, 371, 373, 373, 375, 375, 255, 378, 378, 380, 380, 382, 382, 383, 384, 595, 387, 387, 389, 389, 596, 392, 392, 598, 599, 396, 396, 397, 477, 601, 603, 402, 402, 608, 611, 405, 617, 616, 409, 409, 410, 411, 623, 626, 414, 629, 417, 417, 419, 419, 421, 421, 640, 424, 424, 643, 426, 427, 429, 429, 648, 432, 432, 650, 651, 436, 436, 438, 438, 658, 441, 441, 442, 443, 445, 445, 446, 447, 448, 449, 450, 451, 454, 454, 454, 457, 457, 457, 460, 460, 460, 462, 462, 464, 464, 466, 466, 468, 468, 470, 470, 472, 472, 474, 474, 476, 476, 477, 479, 479, 481, 481, 483, 483, 485, 485, 487, 487, 489, 489, 491, 491, 493, 493, 495, 495, 496, 499, 499, 499, 501, 501, 405, 447, 505, 505, 507, 507, 509, 509, 511, 511 >>
TabCs == << <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>, <<14>>, <<15>>, <<16>>, <<17>>, <<18>>, <<19>>, <<20>>, <<21>>, <<22>>, <<23>>, <<24>>, <<25>>, <<26>>, <<27>>, <<28>>, <<29>>, <<30>>, <<31>>, <<32>>, <<33>>, <<34>>, <<35>>, <<36>>, <<37>>, <<38>>, <<39>>, <<40>>, <<41>>, <<42>>, <<43>>, <<44>>, <<45>>, <<46>>, <<47>>, <<48>>, <<49>>, <<50>>, <<51>>, <<52>>, <<53>>, <<54>>, <<55>>, <<56>>, <<57>>, <<58>>, <<59>>, <<60>>, <<61>>, <<62>>, <<63>>, <<64>>, <<65>>, <<66>>, <<67>>, <<68>>, <<69>>, <<70>>, <<71>>, <<72>>, <<73>>, <<74>>, <<75>>, <<76>>, <<77>>, <<78>>, <<79>>, <<80>>, <<81>>, <<82>>, <<83>>, <<84>>, <<85>>, <<86>>, <<87>>, <<88>>, <<89>>, <<90>>, <<91>>, <<92>>, <<93>>, <<94>>, <<95>>, <<96>>, <<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>, <<105>>, <<106>>, <<107>>, <<108>>, <<109>>, <<110>>, <<111>>, <<112>>, <<113>>, <<114>>, <<115>>, <<116>>, <<117>>, <<118>>, <<119>>, <<120>>, <<121>>, <<122>>, <<123>>, <<124>>, <<125>>, <<126>>, <<127>>, <<128>>, <<129>>, <<130>>, <<131>>, <<132>>, <<133>>, <<134>>, <<135>>, <<136>>, <<137>>, <<138>>, <<139>>, <<140>>, <<141>>, <<142>>, <<143>>, <<144>>, <<145>>, <<146>>, <<147>>, <<148>>, <<149>>, <<150>>, <<151>>, <<152>>, <<153>>, <<154>>, <<155>>, <<156>>, <<157>>, <<158>>, <<159>>, <<160>>, <<161>>, <<162>>, <<163>>, <<164>>, <<165>>, <<166>>, <<167>>, <<168>>, <<169>>, <<170>>, <<171>>, <<172>>, <<173>>, <<174>>, <<175>>, <<176>>, <<177>>, <<178>>, <<179>>, <<180>>, <<181>>, <<182>>, <<183>>, <<184>>, <<185>>, <<186>>, <<187>>, <<188>>, <<189>>, <<190>>, <<191>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65,69>>, <<67>>, <<69>>, <<69>>, <<69>>, <<69>>, <<73>>, <<73>>, <<73>>, <<73>>, <<208>>, <<78>>, <<79>>, <<79>>, <<79>>, <<79>>, <<79>>, <<215>>, <<79>>, <<85>>, <<85>>, <<85>>, <<85>>, <<89>>, <<222>>, <<115,115>>, <<97>>, <<97>>, <<97>>, <<97>>, <<97>>, <<97>>, <<97,101>>, <<99>>, <<101>>, <<101>>, <<101>>, <<101>>, <<105>>, <<105>>, <<105>>, <<105>>, <<240>>, <<110>>, <<111>>, <<111>>, <<111>>, <<111>>, <<111>>, <<247>>, <<111>>, <<117>>, <<117>>, <<117>>, <<117>>, <<121>>, <<254>>, <<121>>, <<65>>, <<97>>, <<65>>, <<97>>, <<65>>, <<97>>, <<67>>, <<99>>, <<67>>, <<99>>, <<67>>, <<99>>, <<67>>, <<99>>, <<68>>, <<100>>, <<68>>, <<100>>, <<69>>, <<101>>, <<69>>, <<101>>, <<69>>, <<101>>, <<69>>, <<101>>, <<69>>, <<101>>, <<71>>, <<103>>, <<71>>, <<103>>, <<71>>, <<103>>, <<71>>, <<103>>, <<72>>, <<104>>, <<72>>, <<104>>, <<73>>, <<105>>, <<73>>, <<105>>, <<73>>, <<105>>, <<73>>, <<105>>, <<73>>, <<105>>, <<73,74>>, <<105,106>>, <<74>>, <<106>>, <<75>>, <<107>>, <<312>>, <<76>>, <<108>>, <<76>>, <<108>>, <<76>>, <<108>>, <<76>>, <<108>>, <<76>>, <<108>>, <<78>>, <<110>>, <<78>>, <<110>>, <<78>>, <<110>>, <<110>>, <<78>>, <<110>>, <<79>>, <<111>>, <<79>>, <<111>>, <<79>>, <<111>>, <<79,69>>, <<111,101>>, <<82>>, <<114>>, <<82>>, <<114>>, <<82>>, <<114>>, <<83>>, <<115>>, <<83>>, <<115>>, <<83>>, <<115>>, <<83>>, <<115>>, <<84>>, <<116>>, <<84>>, <<116>>, <<84>>, <<116>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<87>>, <<119>>, <<89>>, <<121>>, <<89>>, <<90>>, <<122>>, <<90>>, <<122>>, <<90>>, <<122>>, <<115>>, <<98>>, <<66>>, <<386>>, <<387>>, <<388>>, <<389>>, <<390>>, <<67>>, <<99>>, <<68>>, <<68>>, <<395>>, <<396>>, <<397>>, <<398>>, <<399>>, <<400>>, <<401>>, <<402>>, <<71>>, <<404>>, <<405>>, <<406>>, <<407>>, <<408>>, <<409>>, <<410>>, <<411>>, <<412>>, <<413>>, <<414>>, <<415>>, <<79>>, <<111>>, <<418>>, <<419>>, <<420>>, <<421>>, <<422>>, <<423>>, <<424>>, <<425>>, <<426>>, <<427>>, <<428>>, <<429>>, <<430>>, <<431>>, <<432>>, <<433>>, <<434>>, <<435>>, <<436>>, <<90>>, <<122>>, <<439>>, <<440>>, <<441>>, <<442>>, <<443>>, <<444>>, <<445>>, <<446>>, <<447>>, <<448>>, <<449>>, <<450>>, <<451>>, <<68,90>>, <<68,122>>, <<100,122>>, <<76,74>>, <<76,106>>, <<108,106>>, <<78,74>>, <<78,106>>, <<110,106>>, <<65>>, <<97>>, <<73>>, <<105>>, <<79>>, <<111>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<85>>, <<117>>, <<477>>, <<65>>, <<97>>, <<65>>, <<97>>, <<65,69>>, <<97,101>>, <<71>>, <<103>>, <<71>>, <<103>>, <<75>>, <<107>>, <<79>>, <<111>>, <<79>>, <<111>>, <<494>>, <<495>>, <<106>>, <<68,90>>, <<68,122>>, <<100,122>>, <<71>>, <<103>>, <<502>>, <<503>>, <<78>>, <<110>>, <<65>>, <<97>>, <<65,69>>, <<97,101>>, <<79>>, <<111>> >>
TabCi == << <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>, <<14>>, <<15>>, <<16>>, <<17>>, <<18>>, <<19>>, <<20>>, <<21>>, <<22>>, <<23>>, <<24>>, <<25>>, <<26>>, <<27>>, <<28>>, <<29>>, <<30>>, <<31>>, <<32>>, <<33>>, <<34>>, <<35>>, <<36>>, <<37>>, <<38>>, <<39>>, <<40>>, <<41>>, <<42>>, <<43>>, <<44>>, <<45>>, <<46>>, <<47>>, <<48>>, <<49>>, <<50>>, <<51>>, <<52>>, <<53>>, <<54>>, <<55>>, <<56>>, <<57>>, <<58>>, <<59>>, <<60>>, <<61>>, <<62>>, <<63>>, <<64>>, <<65>>, <<66>>, <<67>>, <<68>>, <<69>>, <<70>>, <<71>>, <<72>>, <<73>>, <<74>>, <<75>>, <<76>>, <<77>>, <<78>>, <<79>>, <<80>>, <<81>>, <<82>>, <<83>>, <<84>>, <<85>>, <<86>>, <<87>>, <<88>>, <<89>>, <<90>>, <<91>>, <<92>>, <<93>>, <<94>>, <<95>>, <<96>>, <<65>>, <<66>>, <<67>>, <<68>>, <<69>>, <<70>>, <<71>>, <<72>>, <<73>>, <<74>>, <<75>>, <<76>>, <<77>>, <<78>>, <<79>>, <<80>>, <<81>>, <<82>>, <<83>>, <<84>>, <<85>>, <<86>>, <<87>>, <<88>>, <<89>>, <<90>>, <<123>>, <<124>>, <<125>>, <<126>>, <<127>>, <<128>>, <<129>>, <<130>>, <<131>>, <<132>>, <<133>>, <<134>>, <<135>>, <<136>>, <<137>>, <<138>>, <<139>>, <<140>>, <<141>>, <<142>>, <<143>>, <<144>>, <<145>>, <<146>>, <<147>>, <<148>>, <<149>>, <<150>>, <<151>>, <<152>>, <<153>>, <<154>>, <<155>>, <<156>>, <<157>>, <<158>>, <<159>>, <<160>>, <<161>>, <<162>>, <<163>>, <<164>>, <<165>>, <<166>>, <<167>>, <<168>>, <<169>>, <<170>>, <<171>>, <<172>>, <<173>>, <<174>>, <<175>>, <<176>>, <<177>>, <<178>>, <<179>>, <<180>>, <<181>>, <<182>>, <<183>>, <<184>>, <<185>>, <<186>>, <<187>>, <<188>>, <<189>>, <<190>>, <<191>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65,69>>, <<67>>, <<69>>, <<69>>, <<69>>, <<69>>, <<73>>, <<73>>, <<73>>, <<73>>, <<208>>, <<78>>, <<79>>, <<79>>, <<79>>, <<79>>, <<79>>, <<215>>, <<79>>, <<85>>, <<85>>, <<85>>, <<85>>, <<89>>, <<222>>, <<83,83>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65,69>>, <<67>>, <<69>>, <<69>>, <<69>>, <<69>>, <<73>>, <<73>>, <<73>>, <<73>>, <<208>>, <<78>>, <<79>>, <<79>>, <<79>>, <<79>>, <<79>>, <<247>>, <<79>>, <<85>>, <<85>>, <<85>>, <<85>>, <<89>>, <<222>>, <<89>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65>>, <<67>>, <<67>>, <<67>>, <<67>>, <<67>>, <<67>>, <<67>>, <<67>>, <<68>>, <<68>>, <<68>>, <<68>>, <<69>>, <<69>>, <<69>>, <<69>>, <<69>>, <<69>>, <<69>>, <<69>>, <<69>>, <<69>>, <<71>>, <<71>>, <<71>>, <<71>>, <<71>>, <<71>>, <<71>>, <<71>>, <<72>>, <<72>>, <<72>>, <<72>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73>>, <<73,74>>, <<73,74>>, <<74>>, <<74>>, <<75>>, <<75>>, <<312>>, <<76>>, <<76>>, <<76>>, <<76>>, <<76>>, <<76>>, <<76>>, <<76>>, <<76>>, <<76>>, <<78>>, <<78>>, <<78>>, <<78>>, <<78>>, <<78>>, <<78>>, <<78>>, <<78>>, <<79>>, <<79>>, <<79>>, <<79>>, <<79>>, <<79>>, <<79,69>>, <<79,69>>, <<82>>, <<82>>, <<82>>, <<82>>, <<82>>, <<82>>, <<83>>, <<83>>, <<83>>, <<83>>, <<83>>, <<83>>, <<83>>, <<83>>, <<84>>, <<84>>, <<84>>, <<84>>, <<84>>, <<84>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<87>>, <<87>>, <<89>>, <<89>>, <<89>>, <<90>>, <<90>>, <<90>>, <<90>>, <<90>>, <<90>>, <<83>>, <<66>>, <<66>>, <<386>>, <<386>>, <<388>>, <<388>>, <<390>>, <<67>>, <<67>>, <<68>>, <<68>>, <<395>>, <<395>>, <<397>>, <<398>>, <<399>>, <<400>>, <<401>>, <<401>>, <<71>>, <<404>>, <<502>>, <<406>>, <<407>>, <<408>>, <<408>>, <<573>>, <<411>>, <<412>>, <<413>>, <<544>>, <<415>>, <<79>>, <<79>>, <<418>>, <<418>>, <<420>>, <<420>>, <<422>>, <<423>>, <<423>>, <<425>>, <<426>>, <<427>>, <<428>>, <<428>>, <<430>>, <<431>>, <<431>>, <<433>>, <<434>>, <<435>>, <<435>>, <<90>>, <<90>>, <<439>>, <<440>>, <<440>>, <<442>>, <<443>>, <<444>>, <<444>>, <<446>>, <<503>>, <<448>>, <<449>>, <<450>>, <<451>>, <<68,90>>, <<68,90>>, <<68,90>>, <<76,74>>, <<76,74>>, <<76,74>>, <<78,74>>, <<78,74>>, <<78,74>>, <<65>>, <<65>>, <<73>>, <<73>>, <<79>>, <<79>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<85>>, <<398>>, <<65>>, <<65>>, <<65>>, <<65>>, <<65,69>>, <<65,69>>, <<71>>, <<71>>, <<71>>, <<71>>, <<75>>, <<75>>, <<79>>, <<79>>, <<79>>, <<79>>, <<494>>, <<494>>, <<74>>, <<68,90>>, <<68,90>>, <<68,90>>, <<71>>, <<71>>, <<502>>, <<503>>, <<78>>, <<78>>, <<65>>, <<65>>, <<65,69>>, <<65,69>>, <<79>>, <<79>> >>
TabGsm == << 64, 163, 36, 165, 232, 233, 249, 236, 242, 199, 10, 216, 248, 13, 197, 229, 916, 95, 934, 915, 923, 937, 928, 936, 931, 920, 926, -1, 198, 230, 223, 201, 32, 33, 34, 35, 164, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 161, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 196, 214, 209, 220, 167, 191, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 228, 246, 241, 252, 224, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 12, -1, -1, -1, -1, -1, -1, -1, -1, -1, 94, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 123, 125, -1, -1, -1, -1, -1, 92, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1, 124, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1 >>
TabToGsm == << -1, -1, -1, -1, -1, -1, -1, -1, -1, 32, 10, -1, 6922, 13, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 32, 33, 34, 35, 2, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 0, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 6972, 6959, 6974, 6932, 17, 39, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 6952, 6976, 6953, 6973, -1, 7013, -1, 44, 102, 34, -1, -1, -1, 6932, -1, 83, 60, 20293, -1, 90, -1, -1, 39, 39, 34, 34, -1, 45, 45, 6973, 29805, 115, 62, 28517, -1, 122, 89, 32, 64, 99, 1, 36, 3, 6976, 95, 34, 99, 97, 34, 45, 45, 114, 45, -1, -1, 50, 51, 39, 117, -1, 46, -1, 49, 111, 34, -1, -1, -1, 96, 65, 65, 65, 65, 91, 14, 28, 9, 69, 31, 69, 69, 73, 73, 73, 73, 68, 93, 79, 79, 79, 79, 92, 120, 11, 85, 85, 85, 94, 89, -1, 30, 127, 97, 97, 97, 123, 15, 29, 99, 4, 5, 101, 101, 7, 105, 105, 105, 100, 125, 8, 111, 111, 111, 124, 47, 12, 6, 117, 117, 126, 121, -1, 121 >>
TabCp1252 == << 8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143, 144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376 >>
TabLatin9 == << 160, 161, 162, 163, 8364, 165, 352, 167, 353, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 381, 181, 182, 183, 382, 185, 186, 187, 338, 339, 376, 191 >>
=============================================================================
