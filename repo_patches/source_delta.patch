From 62ac60449feb6a4b329edf004ce2e3ca66de6eb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 01/45] fix: compact header form l means Content-Length only

'l' was also accepted as Expires, Max-Forwards and Min-Expires, so one
'l: 5' header set all four fields.
---
 sip/msg_parse.go | 2873 ++++++++++++++++++++++------------------------
 sip/sip.rl       |    6 +-
 2 files changed, 1353 insertions(+), 1526 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..e9be06a 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 765
+const msg_first_final int = 758
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 765:
-		goto st_case_765
+	case 758:
+		goto st_case_758
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 766:
-		goto st_case_766
+	case 759:
+		goto st_case_759
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 767:
-		goto st_case_767
+	case 760:
+		goto st_case_760
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 768:
-		goto st_case_768
+	case 761:
+		goto st_case_761
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 769:
-		goto st_case_769
+	case 762:
+		goto st_case_762
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 770:
-		goto st_case_770
+	case 763:
+		goto st_case_763
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 771:
-		goto st_case_771
+	case 764:
+		goto st_case_764
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,34 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 772:
-		goto st_case_772
+	case 765:
+		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
 	case 249:
 		goto st_case_249
-	case 773:
-		goto st_case_773
+	case 766:
+		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 774:
-		goto st_case_774
+	case 767:
+		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
+	case 768:
+		goto st_case_768
+	case 769:
+		goto st_case_769
+	case 770:
+		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,8 +632,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 778:
-		goto st_case_778
+	case 771:
+		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
@@ -658,8 +658,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 779:
-		goto st_case_779
+	case 772:
+		goto st_case_772
 	case 271:
 		goto st_case_271
 	case 272:
@@ -672,8 +672,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 780:
-		goto st_case_780
+	case 773:
+		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -690,8 +690,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 781:
-		goto st_case_781
+	case 774:
+		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1638,20 +1638,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_756
 	case 757:
 		goto st_case_757
-	case 758:
-		goto st_case_758
-	case 759:
-		goto st_case_759
-	case 760:
-		goto st_case_760
-	case 761:
-		goto st_case_761
-	case 762:
-		goto st_case_762
-	case 763:
-		goto st_case_763
-	case 764:
-		goto st_case_764
 	}
 	goto st_out
 	st_case_1:
@@ -1698,7 +1684,7 @@ tr416:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1693
+//line msg_parse.go:1679
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1700,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1709
+//line msg_parse.go:1695
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1747,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1756
+//line msg_parse.go:1742
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1763,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1772
+//line msg_parse.go:1758
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1780,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1789
+//line msg_parse.go:1775
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1846,7 +1832,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1841
+//line msg_parse.go:1827
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1874,7 +1860,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1869
+//line msg_parse.go:1855
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1900,7 +1886,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1895
+//line msg_parse.go:1881
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1908,13 +1894,13 @@ tr42:
 tr16:
 //line sip.rl:257
  {goto st280 } 
-	goto st765
-	st765:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof758
 		}
-	st_case_765:
-//line msg_parse.go:1909
+	st_case_758:
+//line msg_parse.go:1895
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1913,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1922
+//line msg_parse.go:1908
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2064,7 +2050,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2059
+//line msg_parse.go:2045
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2092,7 +2078,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2087
+//line msg_parse.go:2073
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2120,7 +2106,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2115
+//line msg_parse.go:2101
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2136,7 +2122,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2131
+//line msg_parse.go:2117
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2152,7 +2138,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2147
+//line msg_parse.go:2133
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2246,7 +2232,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2241
+//line msg_parse.go:2227
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2320,7 +2306,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2315
+//line msg_parse.go:2301
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2345,7 +2331,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2340
+//line msg_parse.go:2326
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2382,7 +2368,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2377
+//line msg_parse.go:2363
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2410,7 +2396,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2405
+//line msg_parse.go:2391
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2438,7 +2424,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2433
+//line msg_parse.go:2419
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2466,7 +2452,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2461
+//line msg_parse.go:2447
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2494,7 +2480,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2489
+//line msg_parse.go:2475
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2548,7 +2534,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2543
+//line msg_parse.go:2529
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2683,7 +2669,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2678
+//line msg_parse.go:2664
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2713,7 +2699,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2708
+//line msg_parse.go:2694
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2955,7 +2941,7 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2950
+//line msg_parse.go:2936
 		if data[p] == 10 {
 			goto tr65
 		}
@@ -2963,13 +2949,13 @@ tr51:
 tr65:
 //line sip.rl:257
  {goto st280 } 
-	goto st766
-	st766:
+	goto st759
+	st759:
 		if p++; p == pe {
-			goto _test_eof766
+			goto _test_eof759
 		}
-	st_case_766:
-//line msg_parse.go:2964
+	st_case_759:
+//line msg_parse.go:2950
 		goto st0
 tr52:
 //line sip.rl:228
@@ -2982,7 +2968,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2977
+//line msg_parse.go:2963
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3085,7 +3071,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3080
+//line msg_parse.go:3066
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3141,7 +3127,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3136
+//line msg_parse.go:3122
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3173,7 +3159,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3168
+//line msg_parse.go:3154
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3210,7 +3196,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3205
+//line msg_parse.go:3191
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3238,7 +3224,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3233
+//line msg_parse.go:3219
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3266,7 +3252,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3261
+//line msg_parse.go:3247
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3294,7 +3280,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3289
+//line msg_parse.go:3275
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3322,7 +3308,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3317
+//line msg_parse.go:3303
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3350,7 +3336,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3345
+//line msg_parse.go:3331
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3367,7 +3353,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3362
+//line msg_parse.go:3348
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3591,7 +3577,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3586
+//line msg_parse.go:3572
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3652,7 +3638,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3647
+//line msg_parse.go:3633
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3686,7 +3672,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3681
+//line msg_parse.go:3667
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3735,7 +3721,7 @@ tr106:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st767
+	goto st760
 tr110:
 //line sip.rl:167
 
@@ -3752,7 +3738,7 @@ tr110:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st767
+	goto st760
 tr122:
 //line sip.rl:167
 
@@ -3766,13 +3752,13 @@ tr122:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st767
-	st767:
+	goto st760
+	st760:
 		if p++; p == pe {
-			goto _test_eof767
+			goto _test_eof760
 		}
-	st_case_767:
-//line msg_parse.go:3767
+	st_case_760:
+//line msg_parse.go:3753
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3818,7 +3804,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3813
+//line msg_parse.go:3799
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3889,7 +3875,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3884
+//line msg_parse.go:3870
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,7 +3938,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3947
+//line msg_parse.go:3933
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4075,7 +4061,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4070
+//line msg_parse.go:4056
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4152,7 +4138,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4147
+//line msg_parse.go:4133
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4208,7 +4194,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4203
+//line msg_parse.go:4189
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4242,7 +4228,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4237
+//line msg_parse.go:4223
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4279,7 +4265,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4274
+//line msg_parse.go:4260
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4307,7 +4293,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4302
+//line msg_parse.go:4288
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4335,7 +4321,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4330
+//line msg_parse.go:4316
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4363,7 +4349,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4358
+//line msg_parse.go:4344
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4391,7 +4377,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4386
+//line msg_parse.go:4372
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4419,7 +4405,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4414
+//line msg_parse.go:4400
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4436,7 +4422,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4431
+//line msg_parse.go:4417
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4522,7 +4508,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4517
+//line msg_parse.go:4503
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4606,7 +4592,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4601
+//line msg_parse.go:4587
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4661,7 +4647,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4656
+//line msg_parse.go:4642
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4691,7 +4677,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4686
+//line msg_parse.go:4672
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4749,7 +4735,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4744
+//line msg_parse.go:4730
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4804,7 +4790,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4799
+//line msg_parse.go:4785
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4834,7 +4820,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4829
+//line msg_parse.go:4815
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4892,7 +4878,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4887
+//line msg_parse.go:4873
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4950,7 +4936,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4945
+//line msg_parse.go:4931
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4997,7 +4983,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4992
+//line msg_parse.go:4978
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5050,7 +5036,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5045
+//line msg_parse.go:5031
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5084,7 +5070,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5079
+//line msg_parse.go:5065
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5129,7 +5115,7 @@ tr184:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st768
+	goto st761
 tr193:
 //line sip.rl:72
 
@@ -5142,7 +5128,7 @@ tr193:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st768
+	goto st761
 tr199:
 //line sip.rl:141
 
@@ -5152,13 +5138,13 @@ tr199:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st768
-	st768:
+	goto st761
+	st761:
 		if p++; p == pe {
-			goto _test_eof768
+			goto _test_eof761
 		}
-	st_case_768:
-//line msg_parse.go:5153
+	st_case_761:
+//line msg_parse.go:5139
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5204,7 +5190,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5199
+//line msg_parse.go:5185
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5235,7 +5221,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5230
+//line msg_parse.go:5216
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5297,7 +5283,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5292
+//line msg_parse.go:5278
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5405,7 +5391,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5400
+//line msg_parse.go:5386
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5457,7 +5443,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5452
+//line msg_parse.go:5438
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5524,7 +5510,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5519
+//line msg_parse.go:5505
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5555,7 +5541,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5550
+//line msg_parse.go:5536
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5591,7 +5577,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5586
+//line msg_parse.go:5572
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5713,7 +5699,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5708
+//line msg_parse.go:5694
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5818,7 +5804,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5813
+//line msg_parse.go:5799
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5902,7 +5888,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5897
+//line msg_parse.go:5883
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5963,7 +5949,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5958
+//line msg_parse.go:5944
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5997,7 +5983,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5992
+//line msg_parse.go:5978
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6042,7 +6028,7 @@ tr230:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st769
+	goto st762
 tr234:
 //line sip.rl:210
 
@@ -6055,7 +6041,7 @@ tr234:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st769
+	goto st762
 tr246:
 //line sip.rl:210
 
@@ -6069,13 +6055,13 @@ tr246:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st769
-	st769:
+	goto st762
+	st762:
 		if p++; p == pe {
-			goto _test_eof769
+			goto _test_eof762
 		}
-	st_case_769:
-//line msg_parse.go:6070
+	st_case_762:
+//line msg_parse.go:6056
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6121,7 +6107,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6116
+//line msg_parse.go:6102
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6192,7 +6178,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6187
+//line msg_parse.go:6173
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,7 +6241,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6250
+//line msg_parse.go:6236
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6378,7 +6364,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6373
+//line msg_parse.go:6359
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6455,7 +6441,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6450
+//line msg_parse.go:6436
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6511,7 +6497,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6506
+//line msg_parse.go:6492
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6545,7 +6531,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6540
+//line msg_parse.go:6526
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6582,7 +6568,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6577
+//line msg_parse.go:6563
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6610,7 +6596,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6605
+//line msg_parse.go:6591
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6638,7 +6624,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6633
+//line msg_parse.go:6619
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6666,7 +6652,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6661
+//line msg_parse.go:6647
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6694,7 +6680,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6689
+//line msg_parse.go:6675
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6722,7 +6708,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6717
+//line msg_parse.go:6703
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6739,7 +6725,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6734
+//line msg_parse.go:6720
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6825,7 +6811,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6820
+//line msg_parse.go:6806
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6926,7 +6912,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6921
+//line msg_parse.go:6907
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6966,7 +6952,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6961
+//line msg_parse.go:6947
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6987,7 +6973,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6982
+//line msg_parse.go:6968
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7084,7 +7070,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7079
+//line msg_parse.go:7065
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7152,7 +7138,7 @@ tr285:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st770
+	goto st763
 tr289:
 //line sip.rl:72
 
@@ -7161,7 +7147,7 @@ tr289:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st770
+	goto st763
 tr293:
 //line sip.rl:214
 
@@ -7171,13 +7157,13 @@ tr293:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st770
-	st770:
+	goto st763
+	st763:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof763
 		}
-	st_case_770:
-//line msg_parse.go:7172
+	st_case_763:
+//line msg_parse.go:7158
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7391,7 +7377,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7386
+//line msg_parse.go:7372
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,7 +7419,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7428
+//line msg_parse.go:7414
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7495,7 +7481,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7490
+//line msg_parse.go:7476
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7559,7 +7545,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7554
+//line msg_parse.go:7540
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7591,7 +7577,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7586
+//line msg_parse.go:7572
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7651,7 +7637,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7646
+//line msg_parse.go:7632
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7719,7 +7705,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7714
+//line msg_parse.go:7700
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7775,7 +7761,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7770
+//line msg_parse.go:7756
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7805,7 +7791,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7800
+//line msg_parse.go:7786
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7842,7 +7828,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7837
+//line msg_parse.go:7823
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7870,7 +7856,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7865
+//line msg_parse.go:7851
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7898,7 +7884,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7893
+//line msg_parse.go:7879
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7926,7 +7912,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7921
+//line msg_parse.go:7907
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7954,7 +7940,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7949
+//line msg_parse.go:7935
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7982,7 +7968,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7977
+//line msg_parse.go:7963
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7999,7 +7985,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7994
+//line msg_parse.go:7980
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8141,7 +8127,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8136
+//line msg_parse.go:8122
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8207,7 +8193,7 @@ tr345:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st771
+	goto st764
 tr349:
 //line sip.rl:72
 
@@ -8216,7 +8202,7 @@ tr349:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st771
+	goto st764
 tr375:
 //line sip.rl:214
 
@@ -8226,13 +8212,13 @@ tr375:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st771
-	st771:
+	goto st764
+	st764:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof764
 		}
-	st_case_771:
-//line msg_parse.go:8227
+	st_case_764:
+//line msg_parse.go:8213
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8343,7 +8329,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8338
+//line msg_parse.go:8324
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8388,7 +8374,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8383
+//line msg_parse.go:8369
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8454,7 +8440,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8449
+//line msg_parse.go:8435
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8499,13 +8485,13 @@ tr361:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st772
-	st772:
+	goto st765
+	st765:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof765
 		}
-	st_case_772:
-//line msg_parse.go:8500
+	st_case_765:
+//line msg_parse.go:8486
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8544,7 +8530,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8539
+//line msg_parse.go:8525
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8591,7 +8577,7 @@ tr356:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st773
+	goto st766
 tr366:
 //line sip.rl:72
 
@@ -8600,13 +8586,13 @@ tr366:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st773
-	st773:
+	goto st766
+	st766:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof766
 		}
-	st_case_773:
-//line msg_parse.go:8601
+	st_case_766:
+//line msg_parse.go:8587
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8663,7 +8649,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8658
+//line msg_parse.go:8644
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8729,7 +8715,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8724
+//line msg_parse.go:8710
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8768,13 +8754,13 @@ tr371:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st774
-	st774:
+	goto st767
+	st767:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof767
 		}
-	st_case_774:
-//line msg_parse.go:8769
+	st_case_767:
+//line msg_parse.go:8755
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8813,7 +8799,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8808
+//line msg_parse.go:8794
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8859,13 +8845,13 @@ tr367:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st775
-	st775:
+	goto st768
+	st768:
 		if p++; p == pe {
-			goto _test_eof775
+			goto _test_eof768
 		}
-	st_case_775:
-//line msg_parse.go:8860
+	st_case_768:
+//line msg_parse.go:8846
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8938,13 +8924,13 @@ tr357:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st776
-	st776:
+	goto st769
+	st769:
 		if p++; p == pe {
-			goto _test_eof776
+			goto _test_eof769
 		}
-	st_case_776:
-//line msg_parse.go:8939
+	st_case_769:
+//line msg_parse.go:8925
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9017,7 +9003,7 @@ tr358:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st777
+	goto st770
 tr368:
 //line sip.rl:205
 
@@ -9031,13 +9017,13 @@ tr368:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st777
-	st777:
+	goto st770
+	st770:
 		if p++; p == pe {
-			goto _test_eof777
+			goto _test_eof770
 		}
-	st_case_777:
-//line msg_parse.go:9032
+	st_case_770:
+//line msg_parse.go:9018
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9054,7 +9040,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9049
+//line msg_parse.go:9035
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9116,7 +9102,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9111
+//line msg_parse.go:9097
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9228,7 +9214,7 @@ tr377:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr382:
 //line sip.rl:189
 
@@ -9241,7 +9227,7 @@ tr382:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr386:
 //line sip.rl:189
 
@@ -9254,13 +9240,13 @@ tr386:
 
 //line sip.rl:255
  {goto st229 } 
-	goto st778
-	st778:
+	goto st771
+	st771:
 		if p++; p == pe {
-			goto _test_eof778
+			goto _test_eof771
 		}
-	st_case_778:
-//line msg_parse.go:9255
+	st_case_771:
+//line msg_parse.go:9241
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9338,7 +9324,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9333
+//line msg_parse.go:9319
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9449,7 +9435,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9444
+//line msg_parse.go:9430
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9503,7 +9489,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9498
+//line msg_parse.go:9484
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9519,7 +9505,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9514
+//line msg_parse.go:9500
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9535,7 +9521,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9530
+//line msg_parse.go:9516
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9551,7 +9537,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9546
+//line msg_parse.go:9532
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9567,7 +9553,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9562
+//line msg_parse.go:9548
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9583,7 +9569,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9578
+//line msg_parse.go:9564
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9600,13 +9586,13 @@ tr403:
 }
 //line sip.rl:257
  {goto st280 } 
-	goto st779
-	st779:
+	goto st772
+	st772:
 		if p++; p == pe {
-			goto _test_eof779
+			goto _test_eof772
 		}
-	st_case_779:
-//line msg_parse.go:9601
+	st_case_772:
+//line msg_parse.go:9587
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9619,7 +9605,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9614
+//line msg_parse.go:9600
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9729,7 +9715,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9724
+//line msg_parse.go:9710
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9750,7 +9736,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9745
+//line msg_parse.go:9731
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9787,13 +9773,13 @@ value=nil
 
 //line sip.rl:258
  {goto st263 } 
-	goto st780
-	st780:
+	goto st773
+	st773:
 		if p++; p == pe {
-			goto _test_eof780
+			goto _test_eof773
 		}
-	st_case_780:
-//line msg_parse.go:9788
+	st_case_773:
+//line msg_parse.go:9774
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9850,7 +9836,7 @@ value=nil
 		case 126:
 			goto tr414
 		case 269:
-			goto st764
+			goto st757
 		}
 		switch {
 		case _widec < 48:
@@ -9891,7 +9877,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9886
+//line msg_parse.go:9872
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9910,25 +9896,25 @@ tr414:
 		case 75:
 			goto st504
 		case 76:
-			goto st505
+			goto st434
 		case 77:
-			goto st512
+			goto st505
 		case 79:
-			goto st556
+			goto st549
 		case 80:
-			goto st568
+			goto st561
 		case 82:
-			goto st626
+			goto st619
 		case 83:
-			goto st686
+			goto st679
 		case 84:
-			goto st704
+			goto st697
 		case 85:
-			goto st714
+			goto st707
 		case 86:
-			goto st734
+			goto st727
 		case 87:
-			goto st742
+			goto st735
 		case 97:
 			goto st282
 		case 98:
@@ -9946,25 +9932,25 @@ tr414:
 		case 107:
 			goto st504
 		case 108:
-			goto st505
+			goto st434
 		case 109:
-			goto st512
+			goto st505
 		case 111:
-			goto st556
+			goto st549
 		case 112:
-			goto st568
+			goto st561
 		case 114:
-			goto st626
+			goto st619
 		case 115:
-			goto st686
+			goto st679
 		case 116:
-			goto st704
+			goto st697
 		case 117:
-			goto st714
+			goto st707
 		case 118:
-			goto st734
+			goto st727
 		case 119:
-			goto st742
+			goto st735
 		}
 		goto tr416
 	st282:
@@ -10049,97 +10035,97 @@ tr616:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr651:
+tr650:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr664:
+tr663:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr669:
+tr668:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr698:
+tr697:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr700:
+tr699:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr739:
+tr731:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr767:
+tr759:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr797:
+tr789:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr816:
+tr808:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr826:
+tr818:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr834:
+tr826:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr836:
+tr828:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr886:
+tr878:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr892:
+tr884:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr902:
+tr894:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr909:
+tr901:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr917:
+tr909:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr941:
+tr933:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr943:
+tr935:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st283
-tr956:
+tr948:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr966:
+tr958:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr983:
+tr975:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr999:
+tr991:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10148,7 +10134,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10143
+//line msg_parse.go:10129
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10214,97 +10200,97 @@ tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr652:
+tr651:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr665:
+tr664:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr670:
+tr669:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr699:
+tr698:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr701:
+tr700:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr740:
+tr732:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr768:
+tr760:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr798:
+tr790:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr817:
+tr809:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr827:
+tr819:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr835:
+tr827:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr837:
+tr829:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr887:
+tr879:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr893:
+tr885:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr903:
+tr895:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr910:
+tr902:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr918:
+tr910:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr942:
+tr934:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr944:
+tr936:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st284
-tr957:
+tr949:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr967:
+tr959:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr984:
+tr976:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr1000:
+tr992:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10313,7 +10299,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10294
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10343,7 +10329,7 @@ value=&msg.WWWAuthenticate
 tr559:
 //line sip.rl:257
  {goto st280 } 
-	goto st781
+	goto st774
 tr442:
 //line sip.rl:72
 
@@ -10352,7 +10338,7 @@ tr442:
 
 //line sip.rl:258
  {goto st263 } 
-	goto st781
+	goto st774
 tr541:
 //line sip.rl:72
 
@@ -10361,7 +10347,7 @@ tr541:
 
 //line sip.rl:256
  {goto st34 } 
-	goto st781
+	goto st774
 tr576:
 //line sip.rl:534
 value=nil
@@ -10372,8 +10358,8 @@ value=nil
 
 //line sip.rl:252
  {goto st256 } 
-	goto st781
-tr971:
+	goto st774
+tr963:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10385,19 +10371,19 @@ tr971:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st781
-tr1001:
+	goto st774
+tr993:
 //line sip.rl:76
 
-	{p++; cs = 781; goto _out }
+	{p++; cs = 774; goto _out }
 
-	goto st781
-	st781:
+	goto st774
+	st774:
 		if p++; p == pe {
-			goto _test_eof781
+			goto _test_eof774
 		}
-	st_case_781:
-//line msg_parse.go:10392
+	st_case_774:
+//line msg_parse.go:10378
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11637,7 +11623,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11632
+//line msg_parse.go:11618
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11781,7 +11767,7 @@ tr557:
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr643:
+tr642:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11792,7 +11778,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11787
+//line msg_parse.go:11773
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -11984,27 +11970,27 @@ tr572:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr683:
+tr682:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr788:
+tr780:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr855:
+tr847:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr879:
+tr871:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr907:
+tr899:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr930:
+tr922:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12013,7 +11999,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12008
+//line msg_parse.go:11994
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12027,27 +12013,27 @@ tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr684:
+tr683:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr789:
+tr781:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr856:
+tr848:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr880:
+tr872:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr908:
+tr900:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr931:
+tr923:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12056,7 +12042,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12051
+//line msg_parse.go:12037
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12604,10 +12590,10 @@ addrp=lastAddr(&msg.To)
 			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
-tr624:
+tr623:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -12615,7 +12601,7 @@ clen=0
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
-tr626:
+tr625:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -12626,7 +12612,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12621
+//line msg_parse.go:12607
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12638,7 +12624,7 @@ tr626:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr625
 		}
 		goto st0
 	st438:
@@ -12674,7 +12660,7 @@ tr626:
 			goto st440
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
 	st441:
@@ -12800,10 +12786,10 @@ tr626:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
-tr637:
+tr636:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12814,7 +12800,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12809
+//line msg_parse.go:12795
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12831,7 +12817,7 @@ tr637:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st451:
@@ -12852,13 +12838,13 @@ tr637:
 		case 32:
 			goto st451
 		case 33:
-			goto tr641
+			goto tr640
 		case 37:
-			goto tr641
+			goto tr640
 		case 39:
-			goto tr641
+			goto tr640
 		case 126:
-			goto tr641
+			goto tr640
 		case 525:
 			goto st453
 		}
@@ -12867,25 +12853,25 @@ tr637:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr640
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr640
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr640
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr640
 			}
 		default:
-			goto tr641
+			goto tr640
 		}
 		goto st0
-tr641:
+tr640:
 //line sip.rl:80
 
 	mark = p
@@ -12896,7 +12882,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12891
+//line msg_parse.go:12877
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12914,7 +12900,7 @@ tr641:
 		case 126:
 			goto st452
 		case 269:
-			goto tr643
+			goto tr642
 		}
 		switch {
 		case _widec < 48:
@@ -12971,35 +12957,35 @@ tr641:
 		case 32:
 			goto st455
 		case 33:
-			goto tr641
+			goto tr640
 		case 37:
-			goto tr641
+			goto tr640
 		case 39:
-			goto tr641
+			goto tr640
 		case 126:
-			goto tr641
+			goto tr640
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr640
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr640
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr640
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr640
 			}
 		default:
-			goto tr641
+			goto tr640
 		}
 		goto st0
 	st456:
@@ -13035,7 +13021,7 @@ tr641:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st459:
@@ -13081,11 +13067,11 @@ tr641:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr651
+			goto tr650
 		case 32:
-			goto tr651
+			goto tr650
 		case 58:
-			goto tr652
+			goto tr651
 		}
 		goto tr416
 	st463:
@@ -13214,11 +13200,11 @@ tr641:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto tr663
 		case 32:
-			goto tr664
+			goto tr663
 		case 58:
-			goto tr665
+			goto tr664
 		}
 		goto tr416
 	st473:
@@ -13264,11 +13250,11 @@ tr641:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr668
 		case 32:
-			goto tr669
+			goto tr668
 		case 58:
-			goto tr670
+			goto tr669
 		}
 		goto tr416
 	st477:
@@ -13380,10 +13366,10 @@ tr641:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr677
 		}
 		goto st0
-tr678:
+tr677:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13391,7 +13377,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
-tr680:
+tr679:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13402,7 +13388,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13397
+//line msg_parse.go:13383
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13414,7 +13400,7 @@ tr680:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr679
 		}
 		goto st0
 	st486:
@@ -13450,7 +13436,7 @@ tr680:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto tr677
 		}
 		goto st0
 	st489:
@@ -13460,11 +13446,11 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr682
 		case 32:
-			goto tr683
+			goto tr682
 		case 58:
-			goto tr684
+			goto tr683
 		case 82:
 			goto st490
 		case 114:
@@ -13502,11 +13488,11 @@ tr680:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr682
 		case 32:
-			goto tr683
+			goto tr682
 		case 58:
-			goto tr684
+			goto tr683
 		}
 		goto tr416
 	st493:
@@ -13636,11 +13622,11 @@ tr680:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr698
+			goto tr697
 		case 32:
-			goto tr698
+			goto tr697
 		case 58:
-			goto tr699
+			goto tr698
 		}
 		goto tr416
 	st504:
@@ -13650,11 +13636,11 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr699
 		case 32:
-			goto tr700
+			goto tr699
 		case 58:
-			goto tr701
+			goto tr700
 		}
 		goto tr416
 	st505:
@@ -13664,11 +13650,19 @@ tr680:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto st506
+			goto tr572
 		case 32:
-			goto st506
+			goto tr572
 		case 58:
-			goto st507
+			goto tr573
+		case 65:
+			goto st506
+		case 73:
+			goto st523
+		case 97:
+			goto st506
+		case 105:
+			goto st523
 		}
 		goto tr416
 	st506:
@@ -13677,158 +13671,79 @@ tr680:
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
-			goto st506
-		case 32:
-			goto st506
-		case 58:
+		case 88:
+			goto st507
+		case 120:
 			goto st507
 		}
-		goto st0
+		goto tr416
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st507
-		case 32:
-			goto st507
-		case 525:
-			goto st509
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr704
+		if data[p] == 45 {
+			goto st508
 		}
-		goto st0
-tr704:
-//line sip.rl:493
-clen=0
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st508
-tr706:
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st508
+		goto tr416
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13753
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr706
+		switch data[p] {
+		case 70:
+			goto st509
+		case 102:
+			goto st509
 		}
-		goto st0
+		goto tr416
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		if data[p] == 10 {
+		switch data[p] {
+		case 79:
+			goto st510
+		case 111:
 			goto st510
 		}
-		goto st0
+		goto tr416
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st511
-		case 32:
+		case 114:
 			goto st511
 		}
-		goto st0
+		goto tr416
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 9:
-			goto st511
-		case 32:
-			goto st511
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr704
+		case 87:
+			goto st512
+		case 119:
+			goto st512
 		}
-		goto st0
+		goto tr416
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 9:
-			goto tr572
-		case 32:
-			goto tr572
-		case 58:
-			goto tr573
 		case 65:
 			goto st513
-		case 73:
-			goto st530
 		case 97:
 			goto st513
-		case 105:
-			goto st530
 		}
 		goto tr416
 	st513:
@@ -13837,9 +13752,9 @@ tr706:
 		}
 	st_case_513:
 		switch data[p] {
-		case 88:
+		case 82:
 			goto st514
-		case 120:
+		case 114:
 			goto st514
 		}
 		goto tr416
@@ -13848,7 +13763,10 @@ tr706:
 			goto _test_eof514
 		}
 	st_case_514:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st515
+		case 100:
 			goto st515
 		}
 		goto tr416
@@ -13858,9 +13776,9 @@ tr706:
 		}
 	st_case_515:
 		switch data[p] {
-		case 70:
+		case 83:
 			goto st516
-		case 102:
+		case 115:
 			goto st516
 		}
 		goto tr416
@@ -13870,10 +13788,12 @@ tr706:
 		}
 	st_case_516:
 		switch data[p] {
-		case 79:
+		case 9:
 			goto st517
-		case 111:
+		case 32:
 			goto st517
+		case 58:
+			goto st518
 		}
 		goto tr416
 	st517:
@@ -13882,84 +13802,122 @@ tr706:
 		}
 	st_case_517:
 		switch data[p] {
-		case 82:
-			goto st518
-		case 114:
+		case 9:
+			goto st517
+		case 32:
+			goto st517
+		case 58:
 			goto st518
 		}
-		goto tr416
+		goto st0
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
-		switch data[p] {
-		case 87:
-			goto st519
-		case 119:
-			goto st519
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 525:
+			goto st520
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr715
+		}
+		goto st0
+tr715:
+//line sip.rl:496
+msg.MaxForwards=0
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st519
+tr717:
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st519
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-		switch data[p] {
-		case 65:
-			goto st520
-		case 97:
-			goto st520
+//line msg_parse.go:13848
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr717
+		}
+		goto st0
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
-		switch data[p] {
-		case 82:
-			goto st521
-		case 114:
+		if data[p] == 10 {
 			goto st521
 		}
-		goto tr416
+		goto st0
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st522
-		case 100:
+		case 32:
 			goto st522
 		}
-		goto tr416
+		goto st0
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 83:
-			goto st523
-		case 115:
-			goto st523
+		case 9:
+			goto st522
+		case 32:
+			goto st522
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr715
+		}
+		goto st0
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
+		case 77:
 			goto st524
-		case 32:
+		case 78:
+			goto st534
+		case 109:
 			goto st524
-		case 58:
-			goto st525
+		case 110:
+			goto st534
 		}
 		goto tr416
 	st524:
@@ -13968,122 +13926,79 @@ tr706:
 		}
 	st_case_524:
 		switch data[p] {
-		case 9:
-			goto st524
-		case 32:
-			goto st524
-		case 58:
+		case 69:
+			goto st525
+		case 101:
 			goto st525
 		}
-		goto st0
+		goto tr416
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st525
-		case 32:
-			goto st525
-		case 525:
-			goto st527
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr723
+		if data[p] == 45 {
+			goto st526
 		}
-		goto st0
-tr723:
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st526
-tr725:
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st526
+		goto tr416
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14014
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+		switch data[p] {
+		case 86:
+			goto st527
+		case 118:
+			goto st527
 		}
-		goto st0
+		goto tr416
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st528
+		case 101:
 			goto st528
 		}
-		goto st0
+		goto tr416
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st529
-		case 32:
+		case 114:
 			goto st529
 		}
-		goto st0
+		goto tr416
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 9:
-			goto st529
-		case 32:
-			goto st529
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr723
+		case 83:
+			goto st530
+		case 115:
+			goto st530
 		}
-		goto st0
+		goto tr416
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 77:
+		case 73:
 			goto st531
-		case 78:
-			goto st541
-		case 109:
+		case 105:
 			goto st531
-		case 110:
-			goto st541
 		}
 		goto tr416
 	st531:
@@ -14092,9 +14007,9 @@ tr725:
 		}
 	st_case_531:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st532
-		case 101:
+		case 111:
 			goto st532
 		}
 		goto tr416
@@ -14103,7 +14018,10 @@ tr725:
 			goto _test_eof532
 		}
 	st_case_532:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st533
+		case 110:
 			goto st533
 		}
 		goto tr416
@@ -14113,10 +14031,12 @@ tr725:
 		}
 	st_case_533:
 		switch data[p] {
-		case 86:
-			goto st534
-		case 118:
-			goto st534
+		case 9:
+			goto tr731
+		case 32:
+			goto tr731
+		case 58:
+			goto tr732
 		}
 		goto tr416
 	st534:
@@ -14124,10 +14044,7 @@ tr725:
 			goto _test_eof534
 		}
 	st_case_534:
-		switch data[p] {
-		case 69:
-			goto st535
-		case 101:
+		if data[p] == 45 {
 			goto st535
 		}
 		goto tr416
@@ -14137,9 +14054,9 @@ tr725:
 		}
 	st_case_535:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st536
-		case 114:
+		case 101:
 			goto st536
 		}
 		goto tr416
@@ -14149,9 +14066,9 @@ tr725:
 		}
 	st_case_536:
 		switch data[p] {
-		case 83:
+		case 88:
 			goto st537
-		case 115:
+		case 120:
 			goto st537
 		}
 		goto tr416
@@ -14161,9 +14078,9 @@ tr725:
 		}
 	st_case_537:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st538
-		case 105:
+		case 112:
 			goto st538
 		}
 		goto tr416
@@ -14173,9 +14090,9 @@ tr725:
 		}
 	st_case_538:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st539
-		case 111:
+		case 105:
 			goto st539
 		}
 		goto tr416
@@ -14185,9 +14102,9 @@ tr725:
 		}
 	st_case_539:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st540
-		case 110:
+		case 114:
 			goto st540
 		}
 		goto tr416
@@ -14197,12 +14114,10 @@ tr725:
 		}
 	st_case_540:
 		switch data[p] {
-		case 9:
-			goto tr739
-		case 32:
-			goto tr739
-		case 58:
-			goto tr740
+		case 69:
+			goto st541
+		case 101:
+			goto st541
 		}
 		goto tr416
 	st541:
@@ -14210,7 +14125,10 @@ tr725:
 			goto _test_eof541
 		}
 	st_case_541:
-		if data[p] == 45 {
+		switch data[p] {
+		case 83:
+			goto st542
+		case 115:
 			goto st542
 		}
 		goto tr416
@@ -14220,10 +14138,12 @@ tr725:
 		}
 	st_case_542:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st543
-		case 101:
+		case 32:
 			goto st543
+		case 58:
+			goto st544
 		}
 		goto tr416
 	st543:
@@ -14232,72 +14152,108 @@ tr725:
 		}
 	st_case_543:
 		switch data[p] {
-		case 88:
-			goto st544
-		case 120:
+		case 9:
+			goto st543
+		case 32:
+			goto st543
+		case 58:
 			goto st544
 		}
-		goto tr416
+		goto st0
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		switch data[p] {
-		case 80:
-			goto st545
-		case 112:
-			goto st545
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 525:
+			goto st546
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr743
+		}
+		goto st0
+tr743:
+//line sip.rl:497
+msg.MinExpires=0
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st545
+tr745:
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st545
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		switch data[p] {
-		case 73:
-			goto st546
-		case 105:
-			goto st546
+//line msg_parse.go:14198
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr745
+		}
+		goto st0
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		switch data[p] {
-		case 82:
-			goto st547
-		case 114:
+		if data[p] == 10 {
 			goto st547
 		}
-		goto tr416
+		goto st0
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st548
-		case 101:
+		case 32:
 			goto st548
 		}
-		goto tr416
+		goto st0
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 83:
-			goto st549
-		case 115:
-			goto st549
+		case 9:
+			goto st548
+		case 32:
+			goto st548
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr743
+		}
+		goto st0
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
@@ -14305,11 +14261,15 @@ tr725:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto st550
+			goto tr668
 		case 32:
-			goto st550
+			goto tr668
 		case 58:
-			goto st551
+			goto tr669
+		case 82:
+			goto st550
+		case 114:
+			goto st550
 		}
 		goto tr416
 	st550:
@@ -14318,123 +14278,81 @@ tr725:
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto st550
-		case 32:
-			goto st550
-		case 58:
+		case 71:
+			goto st551
+		case 103:
 			goto st551
 		}
-		goto st0
+		goto tr416
 	st551:
-		if p++; p == pe {
-			goto _test_eof551
-		}
-	st_case_551:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st551
-		case 32:
-			goto st551
-		case 525:
-			goto st553
+		if p++; p == pe {
+			goto _test_eof551
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr751
+	st_case_551:
+		switch data[p] {
+		case 65:
+			goto st552
+		case 97:
+			goto st552
 		}
-		goto st0
-tr751:
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st552
-tr753:
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st552
+		goto tr416
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14364
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr753
+		switch data[p] {
+		case 78:
+			goto st553
+		case 110:
+			goto st553
 		}
-		goto st0
+		goto tr416
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st554
+		case 105:
 			goto st554
 		}
-		goto st0
+		goto tr416
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 9:
+		case 90:
 			goto st555
-		case 32:
+		case 122:
 			goto st555
 		}
-		goto st0
+		goto tr416
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 9:
-			goto st555
-		case 32:
-			goto st555
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr751
+		case 65:
+			goto st556
+		case 97:
+			goto st556
 		}
-		goto st0
+		goto tr416
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 9:
-			goto tr669
-		case 32:
-			goto tr669
-		case 58:
-			goto tr670
-		case 82:
+		case 84:
 			goto st557
-		case 114:
+		case 116:
 			goto st557
 		}
 		goto tr416
@@ -14444,9 +14362,9 @@ tr753:
 		}
 	st_case_557:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st558
-		case 103:
+		case 105:
 			goto st558
 		}
 		goto tr416
@@ -14456,9 +14374,9 @@ tr753:
 		}
 	st_case_558:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st559
-		case 97:
+		case 111:
 			goto st559
 		}
 		goto tr416
@@ -14480,10 +14398,12 @@ tr753:
 		}
 	st_case_560:
 		switch data[p] {
-		case 73:
-			goto st561
-		case 105:
-			goto st561
+		case 9:
+			goto tr759
+		case 32:
+			goto tr759
+		case 58:
+			goto tr760
 		}
 		goto tr416
 	st561:
@@ -14492,10 +14412,12 @@ tr753:
 		}
 	st_case_561:
 		switch data[p] {
-		case 90:
-			goto st562
-		case 122:
+		case 45:
 			goto st562
+		case 82:
+			goto st580
+		case 114:
+			goto st580
 		}
 		goto tr416
 	st562:
@@ -14516,9 +14438,9 @@ tr753:
 		}
 	st_case_563:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st564
-		case 116:
+		case 115:
 			goto st564
 		}
 		goto tr416
@@ -14528,9 +14450,9 @@ tr753:
 		}
 	st_case_564:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st565
-		case 105:
+		case 115:
 			goto st565
 		}
 		goto tr416
@@ -14540,9 +14462,9 @@ tr753:
 		}
 	st_case_565:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st566
-		case 111:
+		case 101:
 			goto st566
 		}
 		goto tr416
@@ -14552,9 +14474,9 @@ tr753:
 		}
 	st_case_566:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st567
-		case 110:
+		case 114:
 			goto st567
 		}
 		goto tr416
@@ -14564,12 +14486,10 @@ tr753:
 		}
 	st_case_567:
 		switch data[p] {
-		case 9:
-			goto tr767
-		case 32:
-			goto tr767
-		case 58:
-			goto tr768
+		case 84:
+			goto st568
+		case 116:
+			goto st568
 		}
 		goto tr416
 	st568:
@@ -14578,12 +14498,10 @@ tr753:
 		}
 	st_case_568:
 		switch data[p] {
-		case 45:
+		case 69:
+			goto st569
+		case 101:
 			goto st569
-		case 82:
-			goto st587
-		case 114:
-			goto st587
 		}
 		goto tr416
 	st569:
@@ -14592,9 +14510,9 @@ tr753:
 		}
 	st_case_569:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st570
-		case 97:
+		case 100:
 			goto st570
 		}
 		goto tr416
@@ -14603,10 +14521,7 @@ tr753:
 			goto _test_eof570
 		}
 	st_case_570:
-		switch data[p] {
-		case 83:
-			goto st571
-		case 115:
+		if data[p] == 45 {
 			goto st571
 		}
 		goto tr416
@@ -14616,9 +14531,9 @@ tr753:
 		}
 	st_case_571:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st572
-		case 115:
+		case 105:
 			goto st572
 		}
 		goto tr416
@@ -14628,9 +14543,9 @@ tr753:
 		}
 	st_case_572:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st573
-		case 101:
+		case 100:
 			goto st573
 		}
 		goto tr416
@@ -14640,9 +14555,9 @@ tr753:
 		}
 	st_case_573:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st574
-		case 114:
+		case 101:
 			goto st574
 		}
 		goto tr416
@@ -14652,9 +14567,9 @@ tr753:
 		}
 	st_case_574:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st575
-		case 116:
+		case 110:
 			goto st575
 		}
 		goto tr416
@@ -14664,9 +14579,9 @@ tr753:
 		}
 	st_case_575:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st576
-		case 101:
+		case 116:
 			goto st576
 		}
 		goto tr416
@@ -14676,9 +14591,9 @@ tr753:
 		}
 	st_case_576:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st577
-		case 100:
+		case 105:
 			goto st577
 		}
 		goto tr416
@@ -14687,7 +14602,10 @@ tr753:
 			goto _test_eof577
 		}
 	st_case_577:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st578
+		case 116:
 			goto st578
 		}
 		goto tr416
@@ -14697,9 +14615,9 @@ tr753:
 		}
 	st_case_578:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st579
-		case 105:
+		case 121:
 			goto st579
 		}
 		goto tr416
@@ -14709,10 +14627,12 @@ tr753:
 		}
 	st_case_579:
 		switch data[p] {
-		case 68:
-			goto st580
-		case 100:
-			goto st580
+		case 9:
+			goto tr780
+		case 32:
+			goto tr780
+		case 58:
+			goto tr781
 		}
 		goto tr416
 	st580:
@@ -14721,10 +14641,14 @@ tr753:
 		}
 	st_case_580:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st581
-		case 101:
+		case 79:
+			goto st587
+		case 105:
 			goto st581
+		case 111:
+			goto st587
 		}
 		goto tr416
 	st581:
@@ -14733,9 +14657,9 @@ tr753:
 		}
 	st_case_581:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st582
-		case 110:
+		case 111:
 			goto st582
 		}
 		goto tr416
@@ -14745,9 +14669,9 @@ tr753:
 		}
 	st_case_582:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st583
-		case 116:
+		case 114:
 			goto st583
 		}
 		goto tr416
@@ -14794,11 +14718,11 @@ tr753:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr788
+			goto tr789
 		case 32:
-			goto tr788
-		case 58:
 			goto tr789
+		case 58:
+			goto tr790
 		}
 		goto tr416
 	st587:
@@ -14807,14 +14731,10 @@ tr753:
 		}
 	st_case_587:
 		switch data[p] {
-		case 73:
+		case 88:
 			goto st588
-		case 79:
-			goto st594
-		case 105:
+		case 120:
 			goto st588
-		case 111:
-			goto st594
 		}
 		goto tr416
 	st588:
@@ -14823,9 +14743,9 @@ tr753:
 		}
 	st_case_588:
 		switch data[p] {
-		case 79:
+		case 89:
 			goto st589
-		case 111:
+		case 121:
 			goto st589
 		}
 		goto tr416
@@ -14834,10 +14754,7 @@ tr753:
 			goto _test_eof589
 		}
 	st_case_589:
-		switch data[p] {
-		case 82:
-			goto st590
-		case 114:
+		if data[p] == 45 {
 			goto st590
 		}
 		goto tr416
@@ -14847,10 +14764,14 @@ tr753:
 		}
 	st_case_590:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st591
-		case 105:
+		case 82:
+			goto st612
+		case 97:
 			goto st591
+		case 114:
+			goto st612
 		}
 		goto tr416
 	st591:
@@ -14859,9 +14780,9 @@ tr753:
 		}
 	st_case_591:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st592
-		case 116:
+		case 117:
 			goto st592
 		}
 		goto tr416
@@ -14871,9 +14792,9 @@ tr753:
 		}
 	st_case_592:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st593
-		case 121:
+		case 116:
 			goto st593
 		}
 		goto tr416
@@ -14883,12 +14804,10 @@ tr753:
 		}
 	st_case_593:
 		switch data[p] {
-		case 9:
-			goto tr797
-		case 32:
-			goto tr797
-		case 58:
-			goto tr798
+		case 72:
+			goto st594
+		case 104:
+			goto st594
 		}
 		goto tr416
 	st594:
@@ -14897,10 +14816,14 @@ tr753:
 		}
 	st_case_594:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st595
-		case 120:
+		case 79:
+			goto st603
+		case 101:
 			goto st595
+		case 111:
+			goto st603
 		}
 		goto tr416
 	st595:
@@ -14909,9 +14832,9 @@ tr753:
 		}
 	st_case_595:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st596
-		case 121:
+		case 110:
 			goto st596
 		}
 		goto tr416
@@ -14920,7 +14843,10 @@ tr753:
 			goto _test_eof596
 		}
 	st_case_596:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st597
+		case 116:
 			goto st597
 		}
 		goto tr416
@@ -14930,14 +14856,10 @@ tr753:
 		}
 	st_case_597:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st598
-		case 82:
-			goto st619
-		case 97:
+		case 105:
 			goto st598
-		case 114:
-			goto st619
 		}
 		goto tr416
 	st598:
@@ -14946,9 +14868,9 @@ tr753:
 		}
 	st_case_598:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st599
-		case 117:
+		case 99:
 			goto st599
 		}
 		goto tr416
@@ -14958,9 +14880,9 @@ tr753:
 		}
 	st_case_599:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st600
-		case 116:
+		case 97:
 			goto st600
 		}
 		goto tr416
@@ -14970,9 +14892,9 @@ tr753:
 		}
 	st_case_600:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st601
-		case 104:
+		case 116:
 			goto st601
 		}
 		goto tr416
@@ -14984,12 +14906,8 @@ tr753:
 		switch data[p] {
 		case 69:
 			goto st602
-		case 79:
-			goto st610
 		case 101:
 			goto st602
-		case 111:
-			goto st610
 		}
 		goto tr416
 	st602:
@@ -14998,10 +14916,12 @@ tr753:
 		}
 	st_case_602:
 		switch data[p] {
-		case 78:
-			goto st603
-		case 110:
-			goto st603
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
 		goto tr416
 	st603:
@@ -15010,9 +14930,9 @@ tr753:
 		}
 	st_case_603:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st604
-		case 116:
+		case 114:
 			goto st604
 		}
 		goto tr416
@@ -15034,9 +14954,9 @@ tr753:
 		}
 	st_case_605:
 		switch data[p] {
-		case 67:
+		case 90:
 			goto st606
-		case 99:
+		case 122:
 			goto st606
 		}
 		goto tr416
@@ -15070,9 +14990,9 @@ tr753:
 		}
 	st_case_608:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st609
-		case 101:
+		case 105:
 			goto st609
 		}
 		goto tr416
@@ -15082,12 +15002,10 @@ tr753:
 		}
 	st_case_609:
 		switch data[p] {
-		case 9:
-			goto tr816
-		case 32:
-			goto tr816
-		case 58:
-			goto tr817
+		case 79:
+			goto st610
+		case 111:
+			goto st610
 		}
 		goto tr416
 	st610:
@@ -15096,9 +15014,9 @@ tr753:
 		}
 	st_case_610:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st611
-		case 114:
+		case 110:
 			goto st611
 		}
 		goto tr416
@@ -15108,10 +15026,12 @@ tr753:
 		}
 	st_case_611:
 		switch data[p] {
-		case 73:
-			goto st612
-		case 105:
-			goto st612
+		case 9:
+			goto tr818
+		case 32:
+			goto tr818
+		case 58:
+			goto tr819
 		}
 		goto tr416
 	st612:
@@ -15120,9 +15040,9 @@ tr753:
 		}
 	st_case_612:
 		switch data[p] {
-		case 90:
+		case 69:
 			goto st613
-		case 122:
+		case 101:
 			goto st613
 		}
 		goto tr416
@@ -15132,9 +15052,9 @@ tr753:
 		}
 	st_case_613:
 		switch data[p] {
-		case 65:
+		case 81:
 			goto st614
-		case 97:
+		case 113:
 			goto st614
 		}
 		goto tr416
@@ -15144,9 +15064,9 @@ tr753:
 		}
 	st_case_614:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st615
-		case 116:
+		case 117:
 			goto st615
 		}
 		goto tr416
@@ -15168,9 +15088,9 @@ tr753:
 		}
 	st_case_616:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st617
-		case 111:
+		case 114:
 			goto st617
 		}
 		goto tr416
@@ -15180,9 +15100,9 @@ tr753:
 		}
 	st_case_617:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st618
-		case 110:
+		case 101:
 			goto st618
 		}
 		goto tr416
@@ -15206,10 +15126,20 @@ tr753:
 		}
 	st_case_619:
 		switch data[p] {
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		case 69:
 			goto st620
+		case 79:
+			goto st675
 		case 101:
 			goto st620
+		case 111:
+			goto st675
 		}
 		goto tr416
 	st620:
@@ -15218,10 +15148,30 @@ tr753:
 		}
 	st_case_620:
 		switch data[p] {
+		case 67:
+			goto st621
+		case 70:
+			goto st631
+		case 77:
+			goto st642
+		case 80:
+			goto st655
 		case 81:
+			goto st661
+		case 84:
+			goto st666
+		case 99:
 			goto st621
+		case 102:
+			goto st631
+		case 109:
+			goto st642
+		case 112:
+			goto st655
 		case 113:
-			goto st621
+			goto st661
+		case 116:
+			goto st666
 		}
 		goto tr416
 	st621:
@@ -15230,9 +15180,9 @@ tr753:
 		}
 	st_case_621:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st622
-		case 117:
+		case 111:
 			goto st622
 		}
 		goto tr416
@@ -15242,9 +15192,9 @@ tr753:
 		}
 	st_case_622:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st623
-		case 105:
+		case 114:
 			goto st623
 		}
 		goto tr416
@@ -15254,9 +15204,9 @@ tr753:
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st624
-		case 114:
+		case 100:
 			goto st624
 		}
 		goto tr416
@@ -15265,10 +15215,7 @@ tr753:
 			goto _test_eof624
 		}
 	st_case_624:
-		switch data[p] {
-		case 69:
-			goto st625
-		case 101:
+		if data[p] == 45 {
 			goto st625
 		}
 		goto tr416
@@ -15278,12 +15225,10 @@ tr753:
 		}
 	st_case_625:
 		switch data[p] {
-		case 9:
-			goto tr834
-		case 32:
-			goto tr834
-		case 58:
-			goto tr835
+		case 82:
+			goto st626
+		case 114:
+			goto st626
 		}
 		goto tr416
 	st626:
@@ -15292,20 +15237,10 @@ tr753:
 		}
 	st_case_626:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
-		case 69:
-			goto st627
 		case 79:
-			goto st682
-		case 101:
 			goto st627
 		case 111:
-			goto st682
+			goto st627
 		}
 		goto tr416
 	st627:
@@ -15314,30 +15249,10 @@ tr753:
 		}
 	st_case_627:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st628
-		case 70:
-			goto st638
-		case 77:
-			goto st649
-		case 80:
-			goto st662
-		case 81:
-			goto st668
-		case 84:
-			goto st673
-		case 99:
+		case 117:
 			goto st628
-		case 102:
-			goto st638
-		case 109:
-			goto st649
-		case 112:
-			goto st662
-		case 113:
-			goto st668
-		case 116:
-			goto st673
 		}
 		goto tr416
 	st628:
@@ -15346,9 +15261,9 @@ tr753:
 		}
 	st_case_628:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st629
-		case 111:
+		case 116:
 			goto st629
 		}
 		goto tr416
@@ -15358,9 +15273,9 @@ tr753:
 		}
 	st_case_629:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st630
-		case 114:
+		case 101:
 			goto st630
 		}
 		goto tr416
@@ -15370,10 +15285,12 @@ tr753:
 		}
 	st_case_630:
 		switch data[p] {
-		case 68:
-			goto st631
-		case 100:
-			goto st631
+		case 9:
+			goto tr847
+		case 32:
+			goto tr847
+		case 58:
+			goto tr848
 		}
 		goto tr416
 	st631:
@@ -15381,7 +15298,10 @@ tr753:
 			goto _test_eof631
 		}
 	st_case_631:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st632
+		case 101:
 			goto st632
 		}
 		goto tr416
@@ -15403,10 +15323,12 @@ tr753:
 		}
 	st_case_633:
 		switch data[p] {
-		case 79:
-			goto st634
-		case 111:
+		case 45:
 			goto st634
+		case 82:
+			goto st637
+		case 114:
+			goto st637
 		}
 		goto tr416
 	st634:
@@ -15415,9 +15337,9 @@ tr753:
 		}
 	st_case_634:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st635
-		case 117:
+		case 116:
 			goto st635
 		}
 		goto tr416
@@ -15427,9 +15349,9 @@ tr753:
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st636
-		case 116:
+		case 111:
 			goto st636
 		}
 		goto tr416
@@ -15439,10 +15361,12 @@ tr753:
 		}
 	st_case_636:
 		switch data[p] {
-		case 69:
-			goto st637
-		case 101:
-			goto st637
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		}
 		goto tr416
 	st637:
@@ -15451,12 +15375,10 @@ tr753:
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr855
-		case 32:
-			goto tr855
-		case 58:
-			goto tr856
+		case 69:
+			goto st638
+		case 101:
+			goto st638
 		}
 		goto tr416
 	st638:
@@ -15465,9 +15387,9 @@ tr753:
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st639
-		case 101:
+		case 100:
 			goto st639
 		}
 		goto tr416
@@ -15476,10 +15398,7 @@ tr753:
 			goto _test_eof639
 		}
 	st_case_639:
-		switch data[p] {
-		case 82:
-			goto st640
-		case 114:
+		if data[p] == 45 {
 			goto st640
 		}
 		goto tr416
@@ -15489,12 +15408,10 @@ tr753:
 		}
 	st_case_640:
 		switch data[p] {
-		case 45:
+		case 66:
+			goto st641
+		case 98:
 			goto st641
-		case 82:
-			goto st644
-		case 114:
-			goto st644
 		}
 		goto tr416
 	st641:
@@ -15503,10 +15420,10 @@ tr753:
 		}
 	st_case_641:
 		switch data[p] {
-		case 84:
-			goto st642
-		case 116:
-			goto st642
+		case 89:
+			goto st363
+		case 121:
+			goto st363
 		}
 		goto tr416
 	st642:
@@ -15527,12 +15444,10 @@ tr753:
 		}
 	st_case_643:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
+		case 84:
+			goto st644
+		case 116:
+			goto st644
 		}
 		goto tr416
 	st644:
@@ -15552,10 +15467,7 @@ tr753:
 			goto _test_eof645
 		}
 	st_case_645:
-		switch data[p] {
-		case 68:
-			goto st646
-		case 100:
+		if data[p] == 45 {
 			goto st646
 		}
 		goto tr416
@@ -15564,7 +15476,10 @@ tr753:
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st647
+		case 112:
 			goto st647
 		}
 		goto tr416
@@ -15574,9 +15489,9 @@ tr753:
 		}
 	st_case_647:
 		switch data[p] {
-		case 66:
+		case 65:
 			goto st648
-		case 98:
+		case 97:
 			goto st648
 		}
 		goto tr416
@@ -15586,10 +15501,10 @@ tr753:
 		}
 	st_case_648:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 82:
+			goto st649
+		case 114:
+			goto st649
 		}
 		goto tr416
 	st649:
@@ -15598,9 +15513,9 @@ tr753:
 		}
 	st_case_649:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st650
-		case 111:
+		case 116:
 			goto st650
 		}
 		goto tr416
@@ -15610,9 +15525,9 @@ tr753:
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st651
-		case 116:
+		case 121:
 			goto st651
 		}
 		goto tr416
@@ -15621,10 +15536,7 @@ tr753:
 			goto _test_eof651
 		}
 	st_case_651:
-		switch data[p] {
-		case 69:
-			goto st652
-		case 101:
+		if data[p] == 45 {
 			goto st652
 		}
 		goto tr416
@@ -15633,7 +15545,10 @@ tr753:
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st653
+		case 105:
 			goto st653
 		}
 		goto tr416
@@ -15643,9 +15558,9 @@ tr753:
 		}
 	st_case_653:
 		switch data[p] {
-		case 80:
+		case 68:
 			goto st654
-		case 112:
+		case 100:
 			goto st654
 		}
 		goto tr416
@@ -15655,10 +15570,12 @@ tr753:
 		}
 	st_case_654:
 		switch data[p] {
-		case 65:
-			goto st655
-		case 97:
-			goto st655
+		case 9:
+			goto tr871
+		case 32:
+			goto tr871
+		case 58:
+			goto tr872
 		}
 		goto tr416
 	st655:
@@ -15667,9 +15584,9 @@ tr753:
 		}
 	st_case_655:
 		switch data[p] {
-		case 82:
+		case 76:
 			goto st656
-		case 114:
+		case 108:
 			goto st656
 		}
 		goto tr416
@@ -15679,9 +15596,9 @@ tr753:
 		}
 	st_case_656:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st657
-		case 116:
+		case 121:
 			goto st657
 		}
 		goto tr416
@@ -15690,10 +15607,7 @@ tr753:
 			goto _test_eof657
 		}
 	st_case_657:
-		switch data[p] {
-		case 89:
-			goto st658
-		case 121:
+		if data[p] == 45 {
 			goto st658
 		}
 		goto tr416
@@ -15702,7 +15616,10 @@ tr753:
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st659
+		case 116:
 			goto st659
 		}
 		goto tr416
@@ -15712,9 +15629,9 @@ tr753:
 		}
 	st_case_659:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st660
-		case 105:
+		case 111:
 			goto st660
 		}
 		goto tr416
@@ -15724,10 +15641,12 @@ tr753:
 		}
 	st_case_660:
 		switch data[p] {
-		case 68:
-			goto st661
-		case 100:
-			goto st661
+		case 9:
+			goto tr878
+		case 32:
+			goto tr878
+		case 58:
+			goto tr879
 		}
 		goto tr416
 	st661:
@@ -15736,12 +15655,10 @@ tr753:
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr879
-		case 32:
-			goto tr879
-		case 58:
-			goto tr880
+		case 85:
+			goto st662
+		case 117:
+			goto st662
 		}
 		goto tr416
 	st662:
@@ -15750,9 +15667,9 @@ tr753:
 		}
 	st_case_662:
 		switch data[p] {
-		case 76:
+		case 73:
 			goto st663
-		case 108:
+		case 105:
 			goto st663
 		}
 		goto tr416
@@ -15762,9 +15679,9 @@ tr753:
 		}
 	st_case_663:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st664
-		case 121:
+		case 114:
 			goto st664
 		}
 		goto tr416
@@ -15773,7 +15690,10 @@ tr753:
 			goto _test_eof664
 		}
 	st_case_664:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st665
+		case 101:
 			goto st665
 		}
 		goto tr416
@@ -15783,10 +15703,12 @@ tr753:
 		}
 	st_case_665:
 		switch data[p] {
-		case 84:
-			goto st666
-		case 116:
-			goto st666
+		case 9:
+			goto tr884
+		case 32:
+			goto tr884
+		case 58:
+			goto tr885
 		}
 		goto tr416
 	st666:
@@ -15795,9 +15717,9 @@ tr753:
 		}
 	st_case_666:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st667
-		case 111:
+		case 114:
 			goto st667
 		}
 		goto tr416
@@ -15807,12 +15729,10 @@ tr753:
 		}
 	st_case_667:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 89:
+			goto st668
+		case 121:
+			goto st668
 		}
 		goto tr416
 	st668:
@@ -15820,10 +15740,7 @@ tr753:
 			goto _test_eof668
 		}
 	st_case_668:
-		switch data[p] {
-		case 85:
-			goto st669
-		case 117:
+		if data[p] == 45 {
 			goto st669
 		}
 		goto tr416
@@ -15833,9 +15750,9 @@ tr753:
 		}
 	st_case_669:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st670
-		case 105:
+		case 97:
 			goto st670
 		}
 		goto tr416
@@ -15845,9 +15762,9 @@ tr753:
 		}
 	st_case_670:
 		switch data[p] {
-		case 82:
+		case 70:
 			goto st671
-		case 114:
+		case 102:
 			goto st671
 		}
 		goto tr416
@@ -15857,9 +15774,9 @@ tr753:
 		}
 	st_case_671:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st672
-		case 101:
+		case 116:
 			goto st672
 		}
 		goto tr416
@@ -15869,12 +15786,10 @@ tr753:
 		}
 	st_case_672:
 		switch data[p] {
-		case 9:
-			goto tr892
-		case 32:
-			goto tr892
-		case 58:
-			goto tr893
+		case 69:
+			goto st673
+		case 101:
+			goto st673
 		}
 		goto tr416
 	st673:
@@ -15895,10 +15810,12 @@ tr753:
 		}
 	st_case_674:
 		switch data[p] {
-		case 89:
-			goto st675
-		case 121:
-			goto st675
+		case 9:
+			goto tr894
+		case 32:
+			goto tr894
+		case 58:
+			goto tr895
 		}
 		goto tr416
 	st675:
@@ -15906,7 +15823,10 @@ tr753:
 			goto _test_eof675
 		}
 	st_case_675:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st676
+		case 117:
 			goto st676
 		}
 		goto tr416
@@ -15916,9 +15836,9 @@ tr753:
 		}
 	st_case_676:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st677
-		case 97:
+		case 116:
 			goto st677
 		}
 		goto tr416
@@ -15928,9 +15848,9 @@ tr753:
 		}
 	st_case_677:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st678
-		case 102:
+		case 101:
 			goto st678
 		}
 		goto tr416
@@ -15940,10 +15860,12 @@ tr753:
 		}
 	st_case_678:
 		switch data[p] {
-		case 84:
-			goto st679
-		case 116:
-			goto st679
+		case 9:
+			goto tr899
+		case 32:
+			goto tr899
+		case 58:
+			goto tr900
 		}
 		goto tr416
 	st679:
@@ -15952,10 +15874,20 @@ tr753:
 		}
 	st_case_679:
 		switch data[p] {
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		case 69:
 			goto st680
+		case 85:
+			goto st685
 		case 101:
 			goto st680
+		case 117:
+			goto st685
 		}
 		goto tr416
 	st680:
@@ -15976,12 +15908,10 @@ tr753:
 		}
 	st_case_681:
 		switch data[p] {
-		case 9:
-			goto tr902
-		case 32:
-			goto tr902
-		case 58:
-			goto tr903
+		case 86:
+			goto st682
+		case 118:
+			goto st682
 		}
 		goto tr416
 	st682:
@@ -15990,9 +15920,9 @@ tr753:
 		}
 	st_case_682:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st683
-		case 117:
+		case 101:
 			goto st683
 		}
 		goto tr416
@@ -16002,9 +15932,9 @@ tr753:
 		}
 	st_case_683:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st684
-		case 116:
+		case 114:
 			goto st684
 		}
 		goto tr416
@@ -16014,10 +15944,12 @@ tr753:
 		}
 	st_case_684:
 		switch data[p] {
-		case 69:
-			goto st685
-		case 101:
-			goto st685
+		case 9:
+			goto tr909
+		case 32:
+			goto tr909
+		case 58:
+			goto tr910
 		}
 		goto tr416
 	st685:
@@ -16026,12 +15958,14 @@ tr753:
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr907
-		case 32:
-			goto tr907
-		case 58:
-			goto tr908
+		case 66:
+			goto st686
+		case 80:
+			goto st691
+		case 98:
+			goto st686
+		case 112:
+			goto st691
 		}
 		goto tr416
 	st686:
@@ -16040,20 +15974,10 @@ tr753:
 		}
 	st_case_686:
 		switch data[p] {
-		case 9:
-			goto tr909
-		case 32:
-			goto tr909
-		case 58:
-			goto tr910
-		case 69:
+		case 74:
 			goto st687
-		case 85:
-			goto st692
-		case 101:
+		case 106:
 			goto st687
-		case 117:
-			goto st692
 		}
 		goto tr416
 	st687:
@@ -16062,9 +15986,9 @@ tr753:
 		}
 	st_case_687:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st688
-		case 114:
+		case 101:
 			goto st688
 		}
 		goto tr416
@@ -16074,9 +15998,9 @@ tr753:
 		}
 	st_case_688:
 		switch data[p] {
-		case 86:
+		case 67:
 			goto st689
-		case 118:
+		case 99:
 			goto st689
 		}
 		goto tr416
@@ -16086,9 +16010,9 @@ tr753:
 		}
 	st_case_689:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st690
-		case 101:
+		case 116:
 			goto st690
 		}
 		goto tr416
@@ -16098,10 +16022,12 @@ tr753:
 		}
 	st_case_690:
 		switch data[p] {
-		case 82:
-			goto st691
-		case 114:
-			goto st691
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		}
 		goto tr416
 	st691:
@@ -16110,12 +16036,10 @@ tr753:
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr917
-		case 32:
-			goto tr917
-		case 58:
-			goto tr918
+		case 80:
+			goto st692
+		case 112:
+			goto st692
 		}
 		goto tr416
 	st692:
@@ -16124,14 +16048,10 @@ tr753:
 		}
 	st_case_692:
 		switch data[p] {
-		case 66:
+		case 79:
 			goto st693
-		case 80:
-			goto st698
-		case 98:
+		case 111:
 			goto st693
-		case 112:
-			goto st698
 		}
 		goto tr416
 	st693:
@@ -16140,9 +16060,9 @@ tr753:
 		}
 	st_case_693:
 		switch data[p] {
-		case 74:
+		case 82:
 			goto st694
-		case 106:
+		case 114:
 			goto st694
 		}
 		goto tr416
@@ -16152,9 +16072,9 @@ tr753:
 		}
 	st_case_694:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st695
-		case 101:
+		case 116:
 			goto st695
 		}
 		goto tr416
@@ -16164,9 +16084,9 @@ tr753:
 		}
 	st_case_695:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st696
-		case 99:
+		case 101:
 			goto st696
 		}
 		goto tr416
@@ -16176,10 +16096,10 @@ tr753:
 		}
 	st_case_696:
 		switch data[p] {
-		case 84:
-			goto st697
-		case 116:
-			goto st697
+		case 68:
+			goto st504
+		case 100:
+			goto st504
 		}
 		goto tr416
 	st697:
@@ -16189,11 +16109,19 @@ tr753:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr922
 		case 32:
-			goto tr909
+			goto tr922
 		case 58:
-			goto tr910
+			goto tr923
+		case 73:
+			goto st698
+		case 79:
+			goto st706
+		case 105:
+			goto st698
+		case 111:
+			goto st706
 		}
 		goto tr416
 	st698:
@@ -16202,9 +16130,9 @@ tr753:
 		}
 	st_case_698:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st699
-		case 112:
+		case 109:
 			goto st699
 		}
 		goto tr416
@@ -16214,9 +16142,9 @@ tr753:
 		}
 	st_case_699:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st700
-		case 111:
+		case 101:
 			goto st700
 		}
 		goto tr416
@@ -16226,9 +16154,9 @@ tr753:
 		}
 	st_case_700:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st701
-		case 114:
+		case 115:
 			goto st701
 		}
 		goto tr416
@@ -16250,9 +16178,9 @@ tr753:
 		}
 	st_case_702:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st703
-		case 101:
+		case 97:
 			goto st703
 		}
 		goto tr416
@@ -16262,10 +16190,10 @@ tr753:
 		}
 	st_case_703:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 77:
+			goto st704
+		case 109:
+			goto st704
 		}
 		goto tr416
 	st704:
@@ -16274,20 +16202,10 @@ tr753:
 		}
 	st_case_704:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
-		case 73:
+		case 80:
 			goto st705
-		case 79:
-			goto st713
-		case 105:
+		case 112:
 			goto st705
-		case 111:
-			goto st713
 		}
 		goto tr416
 	st705:
@@ -16296,10 +16214,12 @@ tr753:
 		}
 	st_case_705:
 		switch data[p] {
-		case 77:
-			goto st706
-		case 109:
-			goto st706
+		case 9:
+			goto tr933
+		case 32:
+			goto tr933
+		case 58:
+			goto tr934
 		}
 		goto tr416
 	st706:
@@ -16308,10 +16228,12 @@ tr753:
 		}
 	st_case_706:
 		switch data[p] {
-		case 69:
-			goto st707
-		case 101:
-			goto st707
+		case 9:
+			goto tr922
+		case 32:
+			goto tr922
+		case 58:
+			goto tr923
 		}
 		goto tr416
 	st707:
@@ -16320,10 +16242,20 @@ tr753:
 		}
 	st_case_707:
 		switch data[p] {
+		case 9:
+			goto tr935
+		case 32:
+			goto tr935
+		case 58:
+			goto tr936
+		case 78:
+			goto st708
 		case 83:
+			goto st718
+		case 110:
 			goto st708
 		case 115:
-			goto st708
+			goto st718
 		}
 		goto tr416
 	st708:
@@ -16332,9 +16264,9 @@ tr753:
 		}
 	st_case_708:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st709
-		case 116:
+		case 115:
 			goto st709
 		}
 		goto tr416
@@ -16344,9 +16276,9 @@ tr753:
 		}
 	st_case_709:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st710
-		case 97:
+		case 117:
 			goto st710
 		}
 		goto tr416
@@ -16356,9 +16288,9 @@ tr753:
 		}
 	st_case_710:
 		switch data[p] {
-		case 77:
+		case 80:
 			goto st711
-		case 109:
+		case 112:
 			goto st711
 		}
 		goto tr416
@@ -16380,12 +16312,10 @@ tr753:
 		}
 	st_case_712:
 		switch data[p] {
-		case 9:
-			goto tr941
-		case 32:
-			goto tr941
-		case 58:
-			goto tr942
+		case 79:
+			goto st713
+		case 111:
+			goto st713
 		}
 		goto tr416
 	st713:
@@ -16394,12 +16324,10 @@ tr753:
 		}
 	st_case_713:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
+		case 82:
+			goto st714
+		case 114:
+			goto st714
 		}
 		goto tr416
 	st714:
@@ -16408,20 +16336,10 @@ tr753:
 		}
 	st_case_714:
 		switch data[p] {
-		case 9:
-			goto tr943
-		case 32:
-			goto tr943
-		case 58:
-			goto tr944
-		case 78:
+		case 84:
 			goto st715
-		case 83:
-			goto st725
-		case 110:
+		case 116:
 			goto st715
-		case 115:
-			goto st725
 		}
 		goto tr416
 	st715:
@@ -16430,9 +16348,9 @@ tr753:
 		}
 	st_case_715:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st716
-		case 115:
+		case 101:
 			goto st716
 		}
 		goto tr416
@@ -16442,9 +16360,9 @@ tr753:
 		}
 	st_case_716:
 		switch data[p] {
-		case 85:
+		case 68:
 			goto st717
-		case 117:
+		case 100:
 			goto st717
 		}
 		goto tr416
@@ -16454,10 +16372,12 @@ tr753:
 		}
 	st_case_717:
 		switch data[p] {
-		case 80:
-			goto st718
-		case 112:
-			goto st718
+		case 9:
+			goto tr948
+		case 32:
+			goto tr948
+		case 58:
+			goto tr949
 		}
 		goto tr416
 	st718:
@@ -16466,9 +16386,9 @@ tr753:
 		}
 	st_case_718:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st719
-		case 112:
+		case 101:
 			goto st719
 		}
 		goto tr416
@@ -16478,9 +16398,9 @@ tr753:
 		}
 	st_case_719:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st720
-		case 111:
+		case 114:
 			goto st720
 		}
 		goto tr416
@@ -16489,10 +16409,7 @@ tr753:
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		if data[p] == 45 {
 			goto st721
 		}
 		goto tr416
@@ -16502,9 +16419,9 @@ tr753:
 		}
 	st_case_721:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st722
-		case 116:
+		case 97:
 			goto st722
 		}
 		goto tr416
@@ -16514,9 +16431,9 @@ tr753:
 		}
 	st_case_722:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st723
-		case 101:
+		case 103:
 			goto st723
 		}
 		goto tr416
@@ -16526,9 +16443,9 @@ tr753:
 		}
 	st_case_723:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st724
-		case 100:
+		case 101:
 			goto st724
 		}
 		goto tr416
@@ -16538,12 +16455,10 @@ tr753:
 		}
 	st_case_724:
 		switch data[p] {
-		case 9:
-			goto tr956
-		case 32:
-			goto tr956
-		case 58:
-			goto tr957
+		case 78:
+			goto st725
+		case 110:
+			goto st725
 		}
 		goto tr416
 	st725:
@@ -16552,9 +16467,9 @@ tr753:
 		}
 	st_case_725:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st726
-		case 101:
+		case 116:
 			goto st726
 		}
 		goto tr416
@@ -16564,10 +16479,12 @@ tr753:
 		}
 	st_case_726:
 		switch data[p] {
-		case 82:
-			goto st727
-		case 114:
-			goto st727
+		case 9:
+			goto tr958
+		case 32:
+			goto tr958
+		case 58:
+			goto tr959
 		}
 		goto tr416
 	st727:
@@ -16575,8 +16492,17 @@ tr753:
 			goto _test_eof727
 		}
 	st_case_727:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st728
+		case 32:
 			goto st728
+		case 58:
+			goto st729
+		case 73:
+			goto st733
+		case 105:
+			goto st733
 		}
 		goto tr416
 	st728:
@@ -16585,72 +16511,88 @@ tr753:
 		}
 	st_case_728:
 		switch data[p] {
-		case 65:
-			goto st729
-		case 97:
+		case 9:
+			goto st728
+		case 32:
+			goto st728
+		case 58:
 			goto st729
 		}
-		goto tr416
+		goto st0
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
-		switch data[p] {
-		case 71:
-			goto st730
-		case 103:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 269:
+			goto tr963
+		case 525:
 			goto st730
 		}
-		goto tr416
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr963
+			}
+		default:
+			goto tr963
+		}
+		goto st0
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		switch data[p] {
-		case 69:
-			goto st731
-		case 101:
+		if data[p] == 10 {
 			goto st731
 		}
-		goto tr416
+		goto st0
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st732
-		case 110:
+		case 32:
 			goto st732
 		}
-		goto tr416
+		goto st0
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 84:
-			goto st733
-		case 116:
-			goto st733
+		case 9:
+			goto st732
+		case 32:
+			goto st732
 		}
-		goto tr416
+		goto tr963
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
-	st_case_733:
-		switch data[p] {
-		case 9:
-			goto tr966
-		case 32:
-			goto tr966
-		case 58:
-			goto tr967
+	st_case_733:
+		switch data[p] {
+		case 65:
+			goto st734
+		case 97:
+			goto st734
 		}
 		goto tr416
 	st734:
@@ -16660,15 +16602,11 @@ tr753:
 	st_case_734:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto st728
 		case 32:
-			goto st735
+			goto st728
 		case 58:
-			goto st736
-		case 73:
-			goto st740
-		case 105:
-			goto st740
+			goto st729
 		}
 		goto tr416
 	st735:
@@ -16677,87 +16615,73 @@ tr753:
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st735
-		case 32:
-			goto st735
-		case 58:
+		case 65:
+			goto st736
+		case 87:
+			goto st742
+		case 97:
 			goto st736
+		case 119:
+			goto st742
 		}
-		goto st0
+		goto tr416
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st736
-		case 32:
-			goto st736
-		case 269:
-			goto tr971
-		case 525:
+		switch data[p] {
+		case 82:
+			goto st737
+		case 114:
 			goto st737
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr971
-			}
-		default:
-			goto tr971
-		}
-		goto st0
+		goto tr416
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st738
+		case 110:
 			goto st738
 		}
-		goto st0
+		goto tr416
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st739
-		case 32:
+		case 105:
 			goto st739
 		}
-		goto st0
+		goto tr416
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 9:
-			goto st739
-		case 32:
-			goto st739
+		case 78:
+			goto st740
+		case 110:
+			goto st740
 		}
-		goto tr971
+		goto tr416
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st741
-		case 97:
+		case 103:
 			goto st741
 		}
 		goto tr416
@@ -16768,11 +16692,11 @@ tr753:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto tr975
 		case 32:
-			goto st735
+			goto tr975
 		case 58:
-			goto st736
+			goto tr976
 		}
 		goto tr416
 	st742:
@@ -16781,14 +16705,10 @@ tr753:
 		}
 	st_case_742:
 		switch data[p] {
-		case 65:
-			goto st743
 		case 87:
-			goto st749
-		case 97:
 			goto st743
 		case 119:
-			goto st749
+			goto st743
 		}
 		goto tr416
 	st743:
@@ -16796,10 +16716,7 @@ tr753:
 			goto _test_eof743
 		}
 	st_case_743:
-		switch data[p] {
-		case 82:
-			goto st744
-		case 114:
+		if data[p] == 45 {
 			goto st744
 		}
 		goto tr416
@@ -16809,9 +16726,9 @@ tr753:
 		}
 	st_case_744:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st745
-		case 110:
+		case 97:
 			goto st745
 		}
 		goto tr416
@@ -16821,9 +16738,9 @@ tr753:
 		}
 	st_case_745:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st746
-		case 105:
+		case 117:
 			goto st746
 		}
 		goto tr416
@@ -16833,9 +16750,9 @@ tr753:
 		}
 	st_case_746:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st747
-		case 110:
+		case 116:
 			goto st747
 		}
 		goto tr416
@@ -16845,9 +16762,9 @@ tr753:
 		}
 	st_case_747:
 		switch data[p] {
-		case 71:
+		case 72:
 			goto st748
-		case 103:
+		case 104:
 			goto st748
 		}
 		goto tr416
@@ -16857,12 +16774,10 @@ tr753:
 		}
 	st_case_748:
 		switch data[p] {
-		case 9:
-			goto tr983
-		case 32:
-			goto tr983
-		case 58:
-			goto tr984
+		case 69:
+			goto st749
+		case 101:
+			goto st749
 		}
 		goto tr416
 	st749:
@@ -16871,9 +16786,9 @@ tr753:
 		}
 	st_case_749:
 		switch data[p] {
-		case 87:
+		case 78:
 			goto st750
-		case 119:
+		case 110:
 			goto st750
 		}
 		goto tr416
@@ -16882,7 +16797,10 @@ tr753:
 			goto _test_eof750
 		}
 	st_case_750:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st751
+		case 116:
 			goto st751
 		}
 		goto tr416
@@ -16892,9 +16810,9 @@ tr753:
 		}
 	st_case_751:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st752
-		case 97:
+		case 105:
 			goto st752
 		}
 		goto tr416
@@ -16904,9 +16822,9 @@ tr753:
 		}
 	st_case_752:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st753
-		case 117:
+		case 99:
 			goto st753
 		}
 		goto tr416
@@ -16916,9 +16834,9 @@ tr753:
 		}
 	st_case_753:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st754
-		case 116:
+		case 97:
 			goto st754
 		}
 		goto tr416
@@ -16928,9 +16846,9 @@ tr753:
 		}
 	st_case_754:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st755
-		case 104:
+		case 116:
 			goto st755
 		}
 		goto tr416
@@ -16951,106 +16869,22 @@ tr753:
 			goto _test_eof756
 		}
 	st_case_756:
-		switch data[p] {
-		case 78:
-			goto st757
-		case 110:
-			goto st757
-		}
-		goto tr416
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
-		switch data[p] {
-		case 84:
-			goto st758
-		case 116:
-			goto st758
-		}
-		goto tr416
-	st758:
-		if p++; p == pe {
-			goto _test_eof758
-		}
-	st_case_758:
-		switch data[p] {
-		case 73:
-			goto st759
-		case 105:
-			goto st759
-		}
-		goto tr416
-	st759:
-		if p++; p == pe {
-			goto _test_eof759
-		}
-	st_case_759:
-		switch data[p] {
-		case 67:
-			goto st760
-		case 99:
-			goto st760
-		}
-		goto tr416
-	st760:
-		if p++; p == pe {
-			goto _test_eof760
-		}
-	st_case_760:
-		switch data[p] {
-		case 65:
-			goto st761
-		case 97:
-			goto st761
-		}
-		goto tr416
-	st761:
-		if p++; p == pe {
-			goto _test_eof761
-		}
-	st_case_761:
-		switch data[p] {
-		case 84:
-			goto st762
-		case 116:
-			goto st762
-		}
-		goto tr416
-	st762:
-		if p++; p == pe {
-			goto _test_eof762
-		}
-	st_case_762:
-		switch data[p] {
-		case 69:
-			goto st763
-		case 101:
-			goto st763
-		}
-		goto tr416
-	st763:
-		if p++; p == pe {
-			goto _test_eof763
-		}
-	st_case_763:
 		switch data[p] {
 		case 9:
-			goto tr999
+			goto tr991
 		case 32:
-			goto tr999
+			goto tr991
 		case 58:
-			goto tr1000
+			goto tr992
 		}
 		goto tr416
-	st764:
+	st757:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof757
 		}
-	st_case_764:
+	st_case_757:
 		if data[p] == 10 {
-			goto tr1001
+			goto tr993
 		}
 		goto st0
 	st_out:
@@ -17066,7 +16900,7 @@ tr753:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -17098,7 +16932,7 @@ tr753:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
+	_test_eof759: cs = 759; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -17126,7 +16960,7 @@ tr753:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
+	_test_eof760: cs = 760; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17170,7 +17004,7 @@ tr753:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
+	_test_eof761: cs = 761; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17213,7 +17047,7 @@ tr753:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
+	_test_eof762: cs = 762; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17253,7 +17087,7 @@ tr753:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
+	_test_eof763: cs = 763; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17293,7 +17127,7 @@ tr753:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof764: cs = 764; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17306,25 +17140,25 @@ tr753:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
+	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
+	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
+	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
+	_test_eof768: cs = 768; goto _test_eof
+	_test_eof769: cs = 769; goto _test_eof
+	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof778: cs = 778; goto _test_eof
+	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
@@ -17337,14 +17171,14 @@ tr753:
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof779: cs = 779; goto _test_eof
+	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof780: cs = 780; goto _test_eof
+	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
@@ -17353,7 +17187,7 @@ tr753:
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof781: cs = 781; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17827,25 +17661,18 @@ tr753:
 	_test_eof755: cs = 755; goto _test_eof
 	_test_eof756: cs = 756; goto _test_eof
 	_test_eof757: cs = 757; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
+		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:171
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17840
+//line msg_parse.go:17667
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..646ffa4 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -492,9 +492,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From 6371c8cea59517b56ea6338ba1711ff8dc76ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 02/45] fix: write Via port and IPv6 host so that they parse
 back

Port 5060 was omitted (read back as 0), port 0 was written as ':0', and
an IPv6 host was written without brackets, which does not parse.
---
 sip/via.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index 231ef9b..58b3cc9 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,8 +53,14 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if util.IsIPv6(via.Host) {
+		b.WriteByte('[')
+		b.WriteString(via.Host)
+		b.WriteByte(']')
+	} else {
+		b.WriteString(via.Host)
+	}
+	if via.Port != 0 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From e48a0dee3c89d821340db62e6fbc0c3214d924fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 03/45] fix: write Retry-After under its real name and write
 Accept-Contact

---
 sip/msg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..de346b9 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
@@ -399,7 +405,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 155646f90332f87f6b8e80b6cb8ef5113fb70282 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 04/45] fix: reject numbers that do not fit instead of wrapping
 them

Ports, versions, CSeq, Content-Length, Expires, Max-Forwards and
Min-Expires wrapped around silently (port 65537 became 1), and the
digits of a repeated CSeq header were concatenated.
---
 sip/msg_parse.go | 456 ++++++++++++++++++++++++-----------------------
 sip/sip.rl       |  18 +-
 sip/uri_parse.go |   4 +-
 sip/uri_parse.rl |   2 +-
 sip/util.go      |  33 ++++
 5 files changed, 277 insertions(+), 236 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index e9be06a..5b9f7b1 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1824,7 +1824,7 @@ tr7:
 tr12:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	if msg.VersionMajor, err = appendDigit8(msg.VersionMajor, data[p]); err != nil { return nil, err }
 
 	goto st10
 	st10:
@@ -1852,7 +1852,7 @@ tr12:
 tr14:
 //line sip.rl:120
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	if msg.VersionMinor, err = appendDigit8(msg.VersionMinor, data[p]); err != nil { return nil, err }
 
 	goto st12
 	st12:
@@ -2042,7 +2042,7 @@ tr2:
 tr20:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	if msg.VersionMajor, err = appendDigit8(msg.VersionMajor, data[p]); err != nil { return nil, err }
 
 	goto st18
 	st18:
@@ -2070,7 +2070,7 @@ tr20:
 tr22:
 //line sip.rl:120
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	if msg.VersionMinor, err = appendDigit8(msg.VersionMinor, data[p]); err != nil { return nil, err }
 
 	goto st20
 	st20:
@@ -5213,7 +5213,7 @@ tr175:
 tr188:
 //line sip.rl:163
 
-	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
+	if via.Port, err = appendDigit16(via.Port, data[p]); err != nil { return nil, err }
 
 	goto st119
 	st119:
@@ -10035,97 +10035,97 @@ tr616:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr650:
+tr651:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr663:
+tr664:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr668:
+tr669:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr697:
+tr698:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr699:
+tr700:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr731:
+tr732:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr759:
+tr760:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr789:
+tr790:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr808:
+tr809:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr818:
+tr819:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr826:
+tr827:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr828:
+tr829:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr878:
+tr879:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr884:
+tr885:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr894:
+tr895:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr901:
+tr902:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr909:
+tr910:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr933:
+tr934:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr935:
+tr936:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st283
-tr948:
+tr949:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr958:
+tr959:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr975:
+tr976:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr991:
+tr992:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10200,97 +10200,97 @@ tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr651:
+tr652:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr664:
+tr665:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr669:
+tr670:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr698:
+tr699:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr700:
+tr701:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr732:
+tr733:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr760:
+tr761:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr790:
+tr791:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr809:
+tr810:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr819:
+tr820:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr827:
+tr828:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr829:
+tr830:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr879:
+tr880:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr885:
+tr886:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr895:
+tr896:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr902:
+tr903:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr910:
+tr911:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr934:
+tr935:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr936:
+tr937:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st284
-tr949:
+tr950:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr959:
+tr960:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr976:
+tr977:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr992:
+tr993:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10359,7 +10359,7 @@ value=nil
 //line sip.rl:252
  {goto st256 } 
 	goto st774
-tr963:
+tr964:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10372,7 +10372,7 @@ tr963:
 //line sip.rl:259
  {goto st103 } 
 	goto st774
-tr993:
+tr994:
 //line sip.rl:76
 
 	{p++; cs = 774; goto _out }
@@ -11767,7 +11767,7 @@ tr557:
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr642:
+tr643:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11970,27 +11970,27 @@ tr572:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr682:
+tr683:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr780:
+tr781:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr847:
+tr848:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr871:
+tr872:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr899:
+tr900:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr922:
+tr923:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12013,27 +12013,27 @@ tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr683:
+tr684:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr781:
+tr782:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr848:
+tr849:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr872:
+tr873:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr900:
+tr901:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr923:
+tr924:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12598,13 +12598,13 @@ tr623:
 clen=0
 //line sip.rl:224
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	if clen, err = appendDigit(clen, data[p]); err != nil { return nil, err }
 
 	goto st437
 tr625:
 //line sip.rl:224
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	if clen, err = appendDigit(clen, data[p]); err != nil { return nil, err }
 
 	goto st437
 	st437:
@@ -12790,9 +12790,17 @@ tr625:
 		}
 		goto st0
 tr636:
+//line sip.rl:494
+msg.CSeq=0
+//line sip.rl:232
+
+	if msg.CSeq, err = appendDigit(msg.CSeq, data[p]); err != nil { return nil, err }
+
+	goto st450
+tr639:
 //line sip.rl:232
 
-	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+	if msg.CSeq, err = appendDigit(msg.CSeq, data[p]); err != nil { return nil, err }
 
 	goto st450
 	st450:
@@ -12800,7 +12808,7 @@ tr636:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12795
+//line msg_parse.go:12803
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12817,7 +12825,7 @@ tr636:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr636
+			goto tr639
 		}
 		goto st0
 	st451:
@@ -12838,13 +12846,13 @@ tr636:
 		case 32:
 			goto st451
 		case 33:
-			goto tr640
+			goto tr641
 		case 37:
-			goto tr640
+			goto tr641
 		case 39:
-			goto tr640
+			goto tr641
 		case 126:
-			goto tr640
+			goto tr641
 		case 525:
 			goto st453
 		}
@@ -12853,25 +12861,25 @@ tr636:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr640
+					goto tr641
 				}
 			case _widec >= 42:
-				goto tr640
+				goto tr641
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr640
+					goto tr641
 				}
 			case _widec >= 65:
-				goto tr640
+				goto tr641
 			}
 		default:
-			goto tr640
+			goto tr641
 		}
 		goto st0
-tr640:
+tr641:
 //line sip.rl:80
 
 	mark = p
@@ -12882,7 +12890,7 @@ tr640:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12877
+//line msg_parse.go:12885
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12900,7 +12908,7 @@ tr640:
 		case 126:
 			goto st452
 		case 269:
-			goto tr642
+			goto tr643
 		}
 		switch {
 		case _widec < 48:
@@ -12957,35 +12965,35 @@ tr640:
 		case 32:
 			goto st455
 		case 33:
-			goto tr640
+			goto tr641
 		case 37:
-			goto tr640
+			goto tr641
 		case 39:
-			goto tr640
+			goto tr641
 		case 126:
-			goto tr640
+			goto tr641
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr640
+					goto tr641
 				}
 			case data[p] >= 42:
-				goto tr640
+				goto tr641
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr640
+					goto tr641
 				}
 			case data[p] >= 65:
-				goto tr640
+				goto tr641
 			}
 		default:
-			goto tr640
+			goto tr641
 		}
 		goto st0
 	st456:
@@ -13067,11 +13075,11 @@ tr640:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr650
+			goto tr651
 		case 32:
-			goto tr650
-		case 58:
 			goto tr651
+		case 58:
+			goto tr652
 		}
 		goto tr416
 	st463:
@@ -13200,11 +13208,11 @@ tr640:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr663
+			goto tr664
 		case 32:
-			goto tr663
-		case 58:
 			goto tr664
+		case 58:
+			goto tr665
 		}
 		goto tr416
 	st473:
@@ -13250,11 +13258,11 @@ tr640:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr668
+			goto tr669
 		case 32:
-			goto tr668
-		case 58:
 			goto tr669
+		case 58:
+			goto tr670
 		}
 		goto tr416
 	st477:
@@ -13366,21 +13374,21 @@ tr640:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr677
+			goto tr678
 		}
 		goto st0
-tr677:
+tr678:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
 
 	goto st485
-tr679:
+tr680:
 //line sip.rl:240
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
 
 	goto st485
 	st485:
@@ -13388,7 +13396,7 @@ tr679:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13383
+//line msg_parse.go:13391
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13400,7 +13408,7 @@ tr679:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+			goto tr680
 		}
 		goto st0
 	st486:
@@ -13436,7 +13444,7 @@ tr679:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr677
+			goto tr678
 		}
 		goto st0
 	st489:
@@ -13446,11 +13454,11 @@ tr679:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr682
+			goto tr683
 		case 32:
-			goto tr682
-		case 58:
 			goto tr683
+		case 58:
+			goto tr684
 		case 82:
 			goto st490
 		case 114:
@@ -13488,11 +13496,11 @@ tr679:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr682
+			goto tr683
 		case 32:
-			goto tr682
-		case 58:
 			goto tr683
+		case 58:
+			goto tr684
 		}
 		goto tr416
 	st493:
@@ -13622,11 +13630,11 @@ tr679:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr697
+			goto tr698
 		case 32:
-			goto tr697
-		case 58:
 			goto tr698
+		case 58:
+			goto tr699
 		}
 		goto tr416
 	st504:
@@ -13636,11 +13644,11 @@ tr679:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr699
+			goto tr700
 		case 32:
-			goto tr699
-		case 58:
 			goto tr700
+		case 58:
+			goto tr701
 		}
 		goto tr416
 	st505:
@@ -13831,21 +13839,21 @@ tr679:
 			goto st520
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr715
+			goto tr716
 		}
 		goto st0
-tr715:
+tr716:
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
 	goto st519
-tr717:
+tr718:
 //line sip.rl:244
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
 	goto st519
 	st519:
@@ -13853,7 +13861,7 @@ tr717:
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13848
+//line msg_parse.go:13856
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13865,7 +13873,7 @@ tr717:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+			goto tr718
 		}
 		goto st0
 	st520:
@@ -13901,7 +13909,7 @@ tr717:
 			goto st522
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr715
+			goto tr716
 		}
 		goto st0
 	st523:
@@ -14032,11 +14040,11 @@ tr717:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto tr731
+			goto tr732
 		case 32:
-			goto tr731
-		case 58:
 			goto tr732
+		case 58:
+			goto tr733
 		}
 		goto tr416
 	st534:
@@ -14181,21 +14189,21 @@ tr717:
 			goto st546
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr743
+			goto tr744
 		}
 		goto st0
-tr743:
+tr744:
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
 
 	goto st545
-tr745:
+tr746:
 //line sip.rl:248
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
 
 	goto st545
 	st545:
@@ -14203,7 +14211,7 @@ tr745:
 			goto _test_eof545
 		}
 	st_case_545:
-//line msg_parse.go:14198
+//line msg_parse.go:14206
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14215,7 +14223,7 @@ tr745:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr745
+			goto tr746
 		}
 		goto st0
 	st546:
@@ -14251,7 +14259,7 @@ tr745:
 			goto st548
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr743
+			goto tr744
 		}
 		goto st0
 	st549:
@@ -14261,11 +14269,11 @@ tr745:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto tr668
+			goto tr669
 		case 32:
-			goto tr668
-		case 58:
 			goto tr669
+		case 58:
+			goto tr670
 		case 82:
 			goto st550
 		case 114:
@@ -14399,11 +14407,11 @@ tr745:
 	st_case_560:
 		switch data[p] {
 		case 9:
-			goto tr759
+			goto tr760
 		case 32:
-			goto tr759
-		case 58:
 			goto tr760
+		case 58:
+			goto tr761
 		}
 		goto tr416
 	st561:
@@ -14628,11 +14636,11 @@ tr745:
 	st_case_579:
 		switch data[p] {
 		case 9:
-			goto tr780
+			goto tr781
 		case 32:
-			goto tr780
-		case 58:
 			goto tr781
+		case 58:
+			goto tr782
 		}
 		goto tr416
 	st580:
@@ -14718,11 +14726,11 @@ tr745:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr789
+			goto tr790
 		case 32:
-			goto tr789
-		case 58:
 			goto tr790
+		case 58:
+			goto tr791
 		}
 		goto tr416
 	st587:
@@ -14917,11 +14925,11 @@ tr745:
 	st_case_602:
 		switch data[p] {
 		case 9:
-			goto tr808
+			goto tr809
 		case 32:
-			goto tr808
-		case 58:
 			goto tr809
+		case 58:
+			goto tr810
 		}
 		goto tr416
 	st603:
@@ -15027,11 +15035,11 @@ tr745:
 	st_case_611:
 		switch data[p] {
 		case 9:
-			goto tr818
+			goto tr819
 		case 32:
-			goto tr818
-		case 58:
 			goto tr819
+		case 58:
+			goto tr820
 		}
 		goto tr416
 	st612:
@@ -15113,11 +15121,11 @@ tr745:
 	st_case_618:
 		switch data[p] {
 		case 9:
-			goto tr826
+			goto tr827
 		case 32:
-			goto tr826
-		case 58:
 			goto tr827
+		case 58:
+			goto tr828
 		}
 		goto tr416
 	st619:
@@ -15127,11 +15135,11 @@ tr745:
 	st_case_619:
 		switch data[p] {
 		case 9:
-			goto tr828
+			goto tr829
 		case 32:
-			goto tr828
-		case 58:
 			goto tr829
+		case 58:
+			goto tr830
 		case 69:
 			goto st620
 		case 79:
@@ -15286,11 +15294,11 @@ tr745:
 	st_case_630:
 		switch data[p] {
 		case 9:
-			goto tr847
+			goto tr848
 		case 32:
-			goto tr847
-		case 58:
 			goto tr848
+		case 58:
+			goto tr849
 		}
 		goto tr416
 	st631:
@@ -15362,11 +15370,11 @@ tr745:
 	st_case_636:
 		switch data[p] {
 		case 9:
-			goto tr828
+			goto tr829
 		case 32:
-			goto tr828
-		case 58:
 			goto tr829
+		case 58:
+			goto tr830
 		}
 		goto tr416
 	st637:
@@ -15571,11 +15579,11 @@ tr745:
 	st_case_654:
 		switch data[p] {
 		case 9:
-			goto tr871
+			goto tr872
 		case 32:
-			goto tr871
-		case 58:
 			goto tr872
+		case 58:
+			goto tr873
 		}
 		goto tr416
 	st655:
@@ -15642,11 +15650,11 @@ tr745:
 	st_case_660:
 		switch data[p] {
 		case 9:
-			goto tr878
+			goto tr879
 		case 32:
-			goto tr878
-		case 58:
 			goto tr879
+		case 58:
+			goto tr880
 		}
 		goto tr416
 	st661:
@@ -15704,11 +15712,11 @@ tr745:
 	st_case_665:
 		switch data[p] {
 		case 9:
-			goto tr884
+			goto tr885
 		case 32:
-			goto tr884
-		case 58:
 			goto tr885
+		case 58:
+			goto tr886
 		}
 		goto tr416
 	st666:
@@ -15811,11 +15819,11 @@ tr745:
 	st_case_674:
 		switch data[p] {
 		case 9:
-			goto tr894
+			goto tr895
 		case 32:
-			goto tr894
-		case 58:
 			goto tr895
+		case 58:
+			goto tr896
 		}
 		goto tr416
 	st675:
@@ -15861,11 +15869,11 @@ tr745:
 	st_case_678:
 		switch data[p] {
 		case 9:
-			goto tr899
+			goto tr900
 		case 32:
-			goto tr899
-		case 58:
 			goto tr900
+		case 58:
+			goto tr901
 		}
 		goto tr416
 	st679:
@@ -15875,11 +15883,11 @@ tr745:
 	st_case_679:
 		switch data[p] {
 		case 9:
-			goto tr901
+			goto tr902
 		case 32:
-			goto tr901
-		case 58:
 			goto tr902
+		case 58:
+			goto tr903
 		case 69:
 			goto st680
 		case 85:
@@ -15945,11 +15953,11 @@ tr745:
 	st_case_684:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		}
 		goto tr416
 	st685:
@@ -16023,11 +16031,11 @@ tr745:
 	st_case_690:
 		switch data[p] {
 		case 9:
-			goto tr901
+			goto tr902
 		case 32:
-			goto tr901
-		case 58:
 			goto tr902
+		case 58:
+			goto tr903
 		}
 		goto tr416
 	st691:
@@ -16109,11 +16117,11 @@ tr745:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr922
+			goto tr923
 		case 32:
-			goto tr922
-		case 58:
 			goto tr923
+		case 58:
+			goto tr924
 		case 73:
 			goto st698
 		case 79:
@@ -16215,11 +16223,11 @@ tr745:
 	st_case_705:
 		switch data[p] {
 		case 9:
-			goto tr933
+			goto tr934
 		case 32:
-			goto tr933
-		case 58:
 			goto tr934
+		case 58:
+			goto tr935
 		}
 		goto tr416
 	st706:
@@ -16229,11 +16237,11 @@ tr745:
 	st_case_706:
 		switch data[p] {
 		case 9:
-			goto tr922
+			goto tr923
 		case 32:
-			goto tr922
-		case 58:
 			goto tr923
+		case 58:
+			goto tr924
 		}
 		goto tr416
 	st707:
@@ -16243,11 +16251,11 @@ tr745:
 	st_case_707:
 		switch data[p] {
 		case 9:
-			goto tr935
+			goto tr936
 		case 32:
-			goto tr935
-		case 58:
 			goto tr936
+		case 58:
+			goto tr937
 		case 78:
 			goto st708
 		case 83:
@@ -16373,11 +16381,11 @@ tr745:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr948
+			goto tr949
 		case 32:
-			goto tr948
-		case 58:
 			goto tr949
+		case 58:
+			goto tr950
 		}
 		goto tr416
 	st718:
@@ -16480,11 +16488,11 @@ tr745:
 	st_case_726:
 		switch data[p] {
 		case 9:
-			goto tr958
+			goto tr959
 		case 32:
-			goto tr958
-		case 58:
 			goto tr959
+		case 58:
+			goto tr960
 		}
 		goto tr416
 	st727:
@@ -16537,17 +16545,17 @@ tr745:
 		case 32:
 			goto st729
 		case 269:
-			goto tr963
+			goto tr964
 		case 525:
 			goto st730
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr963
+				goto tr964
 			}
 		default:
-			goto tr963
+			goto tr964
 		}
 		goto st0
 	st730:
@@ -16582,7 +16590,7 @@ tr745:
 		case 32:
 			goto st732
 		}
-		goto tr963
+		goto tr964
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
@@ -16692,11 +16700,11 @@ tr745:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto tr975
+			goto tr976
 		case 32:
-			goto tr975
-		case 58:
 			goto tr976
+		case 58:
+			goto tr977
 		}
 		goto tr416
 	st742:
@@ -16871,11 +16879,11 @@ tr745:
 	st_case_756:
 		switch data[p] {
 		case 9:
-			goto tr991
+			goto tr992
 		case 32:
-			goto tr991
-		case 58:
 			goto tr992
+		case 58:
+			goto tr993
 		}
 		goto tr416
 	st757:
@@ -16884,7 +16892,7 @@ tr745:
 		}
 	st_case_757:
 		if data[p] == 10 {
-			goto tr993
+			goto tr994
 		}
 		goto st0
 	st_out:
@@ -17672,7 +17680,7 @@ tr745:
 
 	{goto st273 }
 
-//line msg_parse.go:17667
+//line msg_parse.go:17675
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 646ffa4..c9547b5 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -114,11 +114,11 @@ action Method {
 }
 
 action VersionMajor {
-	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
+	if msg.VersionMajor, err = appendDigit8(msg.VersionMajor, fc); err != nil { return nil, err }
 }
 
 action VersionMinor {
-	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
+	if msg.VersionMinor, err = appendDigit8(msg.VersionMinor, fc); err != nil { return nil, err }
 }
 
 action RequestURI {
@@ -161,7 +161,7 @@ action ViaHost {
 }
 
 action ViaPort {
-	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
+	if via.Port, err = appendDigit16(via.Port, fc); err != nil { return nil, err }
 }
 
 action ViaParam {
@@ -222,7 +222,7 @@ action CallID {
 }
 
 action ContentLength {
-	clen = clen * 10 + (int(fc) - 0x30)
+	if clen, err = appendDigit(clen, fc); err != nil { return nil, err }
 }
 
 action ContentType {
@@ -230,7 +230,7 @@ action ContentType {
 }
 
 action CSeq {
-	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
+	if msg.CSeq, err = appendDigit(msg.CSeq, fc); err != nil { return nil, err }
 }
 
 action CSeqMethod {
@@ -238,15 +238,15 @@ action CSeqMethod {
 }
 
 action Expires {
-	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
+	if msg.Expires, err = appendDigit(msg.Expires, fc); err != nil { return nil, err }
 }
 
 action MaxForwards {
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
+	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, fc); err != nil { return nil, err }
 }
 
 action MinExpires {
-	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
+	if msg.MinExpires, err = appendDigit(msg.MinExpires, fc); err != nil { return nil, err }
 }
 
 action goto_addr { fgoto addr; }
@@ -491,7 +491,7 @@ sname    = "Accept"i %{value=&msg.Accept}
 # their own special type of parsing.
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
-         | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
+         | "CSeq"i $!gxh HCOLON (digit+ >{msg.CSeq=0} @CSeq) LWS token >mark %CSeqMethod
          | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
          | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
          | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..033255e 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -694,7 +694,7 @@ tr67:
 tr21:
 //line uri_parse.rl:86
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			if uri.Port, err = appendDigit16(uri.Port, data[p]); err != nil { return nil, err }
 		
 	goto st46
 	st46:
@@ -1719,7 +1719,7 @@ tr90:
 tr46:
 //line uri_parse.rl:86
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			if uri.Port, err = appendDigit16(uri.Port, data[p]); err != nil { return nil, err }
 		
 	goto st53
 	st53:
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..e57b9e2 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -84,7 +84,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		}
 
 		action port {
-			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
+			if uri.Port, err = appendDigit16(uri.Port, fc); err != nil { return nil, err }
 		}
 
 		action b1 {
diff --git a/sip/util.go b/sip/util.go
index ffc91c9..af9b54d 100644
--- a/sip/util.go
+++ b/sip/util.go
@@ -14,6 +14,39 @@
 
 package sip
 
+import (
+	"errors"
+)
+
+const maxInt = int(^uint(0) >> 1)
+
+var errNumberTooBig = errors.New("Number too big in SIP message")
+
+// appendDigit returns n with the decimal digit c appended to it.
+func appendDigit(n int, c byte) (int, error) {
+	d := int(c - '0')
+	if n > (maxInt-d)/10 {
+		return 0, errNumberTooBig
+	}
+	return n*10 + d, nil
+}
+
+func appendDigit16(n uint16, c byte) (uint16, error) {
+	v := uint(n)*10 + uint(c-'0')
+	if v > 0xFFFF {
+		return 0, errNumberTooBig
+	}
+	return uint16(v), nil
+}
+
+func appendDigit8(n uint8, c byte) (uint8, error) {
+	v := uint(n)*10 + uint(c-'0')
+	if v > 0xFF {
+		return 0, errNumberTooBig
+	}
+	return uint8(v), nil
+}
+
 func unhex(b byte) byte {
 	switch {
 	case '0' <= b && b <= '9':
-- 
2.43.0


From 0d893ba0bb91ed1c51d886aa103ac33d8710a022 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 05/45] fix: reject response status codes below 100

'SIP/2.0 000 X' parsed to a message with neither status nor method, and
099 was written back as a two-digit code that does not parse.
---
 sip/msg_parse.go | 2 +-
 sip/sip.rl       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 5b9f7b1..66fd730 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -2091,7 +2091,7 @@ tr22:
 			goto _test_eof21
 		}
 	st_case_21:
-		if 48 <= data[p] && data[p] <= 57 {
+		if 49 <= data[p] && data[p] <= 57 {
 			goto tr24
 		}
 		goto st0
diff --git a/sip/sip.rl b/sip/sip.rl
index c9547b5..9d0414b 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -547,7 +547,7 @@ header  := CRLF @break
 Method          = token >mark %Method;
 SIPVersionNo    = digit+ @VersionMajor "." digit+ @VersionMinor;
 RequestURI      = ^SP+ >mark %RequestURI;
-StatusCode      = ( digit @StatusCode ) {3};
+StatusCode      = ( "1".."9" @StatusCode ) ( digit @StatusCode ) {2};
 ReasonPhrase    = reasonmc+ >start %ReasonPhrase;
 SIPVersion      = "SIP/" SIPVersionNo;
 Request         = Method SP RequestURI SP SIPVersion CRLF @goto_header;
-- 
2.43.0


From e3ef74addd39df7f271ea5d9ab6d1f9a2187c194 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 06/45] fix: escape '&' in URI headers

URI header names and values were escaped with the character set of URI
parameters, so a value holding '&' read back as two headers.
---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..af1e8bc 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -50,9 +50,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From 3d7fd7f5dfa8df7146d55831abd65d23b4b60020 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 07/45] fix: keep the display name when copying an address

---
 sip/addr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..983ef41 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,6 +93,7 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
+	res.Display = addr.Display
 	res.Param = addr.Param
 	res.Next = addr.Next.Copy()
 	return res
-- 
2.43.0


From 79b1914df6514a80f092ce14015af99f038f97bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 08/45] fix: reason phrase of 484

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d4ee56a..d5b47c3 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -165,7 +165,7 @@ var phrases = map[int]string{
 	StatusCallTransactionDoesNotExist:  "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                 "Loop Detected",
 	StatusTooManyHops:                  "Too Many Hops",
-	StatusAddressIncomplete:            "Address StatusIncomplete",
+	StatusAddressIncomplete:            "Address Incomplete",
 	StatusAmbiguous:                    "Ambiguous",
 	StatusBusyHere:                     "Busy Here",
 	StatusRequestTerminated:            "Request Terminated",
-- 
2.43.0


From f122e4ea158a3dfb90fc94de79f16934b5f1ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 09/45] fix: escape the reason phrase when formatting a
 response

The parser decodes %XX in the reason phrase, but it was written back raw:
'%25' did not parse again and '%0d%0a' split the response.
---
 sip/charsets.go |  9 +++++++++
 sip/escape.go   | 41 +++++++++++++++++++++++++++++++++++++++++
 sip/msg.go      |  2 +-
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/sip/charsets.go b/sip/charsets.go
index f8a6706..a6e58ff 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -23,6 +23,7 @@ var (
 	passcMask   [2]uint64
 	paramcMask  [2]uint64
 	headercMask [2]uint64
+	reasoncMask [2]uint64
 )
 
 func tokenc(c byte) bool {
@@ -49,6 +50,10 @@ func headerc(c byte) bool {
 	return charsetContains(&headercMask, c)
 }
 
+func reasonc(c byte) bool {
+	return charsetContains(&reasoncMask, c)
+}
+
 func qdtextesc(c byte) bool {
 	return 0x00 <= c && c <= 0x09 ||
 		0x0B <= c && c <= 0x0C ||
@@ -82,6 +87,10 @@ func init() {
 	charsetAddAlphaNumeric(&headercMask)
 	charsetAddMark(&headercMask)
 	charsetAdd(&headercMask, '[', ']', '/', '?', ':', '+', '$')
+
+	charsetAddAlphaNumeric(&reasoncMask)
+	charsetAddMark(&reasoncMask)
+	charsetAdd(&reasoncMask, ';', '/', '?', ':', '@', '&', '=', '+', '$', ',', ' ', '\t')
 }
 
 func charsetContains(mask *[2]uint64, i byte) bool {
diff --git a/sip/escape.go b/sip/escape.go
index 8d285d8..05df5a3 100644
--- a/sip/escape.go
+++ b/sip/escape.go
@@ -35,3 +35,44 @@ func appendEscaped(b *bytes.Buffer, s []byte, p func(byte) bool) {
 		}
 	}
 }
+
+// appendEscapedUTF8 is like appendEscaped, but leaves UTF-8 sequences alone.
+func appendEscapedUTF8(b *bytes.Buffer, s []byte, p func(byte) bool) {
+	for len(s) > 0 {
+		n := utf8len(s)
+		if n > 0 {
+			b.Write(s[:n])
+		} else {
+			n = 1
+			appendEscaped(b, s[:n], p)
+		}
+		s = s[n:]
+	}
+}
+
+// utf8len returns the length of the multibyte sequence at the start of s, or
+// zero if there isn't one. See UTF8_NONASCII in sip.rl.
+func utf8len(s []byte) int {
+	n := 0
+	switch c := s[0]; {
+	case 0xC0 <= c && c <= 0xDF:
+		n = 2
+	case 0xE0 <= c && c <= 0xEF:
+		n = 3
+	case 0xF0 <= c && c <= 0xF7:
+		n = 4
+	case 0xF8 <= c && c <= 0xFB:
+		n = 5
+	case 0xFC <= c && c <= 0xFD:
+		n = 6
+	}
+	if n == 0 || n > len(s) {
+		return 0
+	}
+	for _, c := range s[1:n] {
+		if c < 0x80 || c > 0xBF {
+			return 0
+		}
+	}
+	return n
+}
diff --git a/sip/msg.go b/sip/msg.go
index de346b9..99847aa 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -155,7 +155,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		appendEscapedUTF8(b, []byte(msg.Phrase), reasonc)
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From 7b21bc7c1d30add840188d623d48c68959e8c00a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 10/45] fix: quote display names and parameter values so that
 they parse back

Non-ASCII text was dropped along with everything after it, a parameter
value with a space was not quoted, outer spaces of a display name were
lost, and a bare line feed was written into the header.
---
 sip/param.go |  2 +-
 sip/quote.go | 45 +++++++++++++++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/sip/param.go b/sip/param.go
index 6cf5465..87fc978 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -49,6 +49,6 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		appendQuotedValue(b, []byte(p.Value))
 	}
 }
diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..8728cff 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -27,13 +27,13 @@ func appendSanitized(b *bytes.Buffer, s []byte, p func(byte) bool) {
 	}
 }
 
-// quote formats an address parameter value or display name.
+// appendQuoted formats an address display name.
 //
 // Quotation marks are only added if necessary. This implementation will
 // truncate on input error.
 func appendQuoted(b *bytes.Buffer, s []byte) {
 	for i := 0; i < len(s); i++ {
-		if !tokenc(s[i]) && s[i] != ' ' {
+		if !tokenc(s[i]) && (s[i] != ' ' || i == 0 || i == len(s)-1) {
 			appendQuoteQuoted(b, s)
 			return
 		}
@@ -41,26 +41,43 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 	b.Write(s)
 }
 
-// quoteQuoted formats an address parameter value or display name with quotes.
+// appendQuotedValue formats a parameter value, which unlike a display name
+// can't have spaces unless it's quoted.
+func appendQuotedValue(b *bytes.Buffer, s []byte) {
+	for i := 0; i < len(s); i++ {
+		if !tokenc(s[i]) {
+			appendQuoteQuoted(b, s)
+			return
+		}
+	}
+	b.Write(s)
+}
+
+// appendQuoteQuoted formats a parameter value or display name with quotes.
 //
 // This implementation will truncate on input error.
 func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 	b.WriteByte('"')
-	for i := 0; i < len(s); i++ {
-		if qdtextc(s[i]) {
-			if s[i] == '\r' {
-				if i+2 >= len(s) || s[i+1] != '\n' ||
-					!(s[i+2] == ' ' || s[i+2] == '\t') {
+	for len(s) > 0 {
+		n := 1
+		if s[0] == '\r' {
+			// Line breaks are only possible as part of a line continuation.
+			if len(s) < 3 || s[1] != '\n' || !(s[2] == ' ' || s[2] == '\t') {
+				break
+			}
+			n = 3
+		} else if !qdtextc(s[0]) || s[0] == '\n' {
+			n = utf8len(s)
+			if n == 0 {
+				if !qdtextesc(s[0]) {
 					break
 				}
+				b.WriteByte('\\')
+				n = 1
 			}
-		} else {
-			if !qdtextesc(s[i]) {
-				break
-			}
-			b.WriteByte('\\')
 		}
-		b.WriteByte(s[i])
+		b.Write(s[:n])
+		s = s[n:]
 	}
 	b.WriteByte('"')
 }
-- 
2.43.0


From 11fececc87d35bd472c4f8e5c1740853a26352b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 11/45] fix: report the line of a parse error found at a line
 break

---
 sip/msgerror.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/msgerror.go b/sip/msgerror.go
index 380f6c8..2f8d124 100644
--- a/sip/msgerror.go
+++ b/sip/msgerror.go
@@ -40,7 +40,7 @@ func (err MsgParseError) Error() string {
 	lineOffset := 0
 	for i := 0; i < len(lines); i++ {
 		b.Write(lines[i])
-		if o <= err.Offset && err.Offset < o+len(lines[i]) {
+		if o <= err.Offset && err.Offset < o+len(lines[i])+2 {
 			line = i + 1
 			lineOffset = err.Offset - o
 			b.WriteByte('\n')
-- 
2.43.0


From 62dc2b31177d2888c489175d4105c46fa7a4d561 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 12/45] fix: crash mixing frames that are not 16-byte aligned

MOVO and PADDSW with a memory operand fault on unaligned addresses, and
Go only aligns int16 arrays to 2 bytes.
---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..5aa1f00 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0
+	MOVOU	0(AX), X1
+	PADDSW  X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From 3f6c617d2ece932cbc7a13a18ab8f34592304026 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 13/45] fix: endless loop in noise generator with a seed near
 the int64 limits

---
 dsp/awgn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/awgn.go b/dsp/awgn.go
index e710204..7ddda50 100644
--- a/dsp/awgn.go
+++ b/dsp/awgn.go
@@ -62,6 +62,7 @@ func NewAWGN_DBM0(idum int64, level float64) (s *AWGN) {
 
 func NewAWGN_DBOV(idum int64, level float64) (s *AWGN) {
 	s = new(AWGN)
+	idum %= m1
 	if idum < 0.0 {
 		idum = -idum
 	}
-- 
2.43.0


From a5ff5c9df025603e90510df8bcbd5f4ec72ffc3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 14/45] fix: dialog deadlocks when it closes a socket

The receiver sends its error before it closes the message channel, so
waiting for the messages first never returned: the channels of a dialog
were never closed, and failover to another address hung.
---
 dialog/dialog.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..fd631a0 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -502,8 +502,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		drain(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -511,7 +510,20 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		drain(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// drain waits for ReceiveMessages to return, after its socket was closed. It
+// might be waiting to send us messages, before it sends us the error.
+func drain(msgs <-chan *sip.Msg, errs <-chan error) {
+	for {
+		select {
+		case _, ok := <-msgs:
+			if !ok {
+				return
+			}
+		case <-errs:
+		}
 	}
 }
-- 
2.43.0


From fa809ebecbe6c45fa95b0db7cd3912d59a75b588 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 15/45] fix: fail over to the next address on ICMP refusal

Refusals were not recognized, because the net package wraps the errno in
an os.SyscallError, and the branch for them dereferenced a nil socket.
---
 dialog/dialog.go | 4 ++--
 util/util.go     | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index fd631a0..17b412b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
@@ -414,7 +414,7 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 		trace("send", dls.b.Bytes(), dls.sock.RemoteAddr())
 	}
 	_, err := dls.sock.Write(dls.b.Bytes())
-	if err != nil {
+	if err != nil && !util.IsRefused(err) { // Refusals are for sockErrs or the resend timer.
 		dls.errChan <- err
 		return false
 	}
diff --git a/util/util.go b/util/util.go
index 7ffce9a..7a69062 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,9 +17,9 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
-	"net"
 	"strconv"
 	"strings"
 	"syscall"
@@ -27,8 +27,7 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	return errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From 9f708fdb285c35e51dfbc046deeb81850014e223 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 16/45] fix: fail over to the next address on 503

The remaining addresses were dropped before looking at the response.
---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 17b412b..b57d006 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,7 +311,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
+	if msg.Status != sip.StatusTrying && msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
-- 
2.43.0


From 05d438495528a4eb0e1fa4f9be2670ecc2de82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 17/45] fix: acknowledge error responses that have no Contact

Only 2xx responses need a Contact. The ACK of any other final response
has the request URI and route of the INVITE (RFC 3261 17.1.1.3), so calls
that were busy or cancelled were never acknowledged.
---
 dialog/dialog.go   | 4 ++--
 dialog/messages.go | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b57d006..2920f8b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,8 +303,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
+			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
 			return false
 		}
 		if !dls.send(NewAck(msg, dls.request)) {
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..f2fac78 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,16 +58,20 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	request, route := invite.Request, invite.Route
+	if msg.Status < sip.StatusMultipleChoices {
+		request, route = msg.Contact.Uri, msg.RecordRoute.Reversed()
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
 		CallID:             msg.CallID,
 		CSeq:               msg.CSeq,
 		CSeqMethod:         "ACK",
-		Route:              msg.RecordRoute.Reversed(),
+		Route:              route,
 		Authorization:      invite.Authorization,
 		ProxyAuthorization: invite.ProxyAuthorization,
 		UserAgent:          GosipUA,
-- 
2.43.0


From 24e8b26025c1f1d49ba873b235c367764920ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 18/45] fix: crash on a redirect without Contact, and new call
 on a redirected BYE

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 2920f8b..7ec97ed 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -343,6 +343,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if dls.request != dls.invite || msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
-- 
2.43.0


From 876333e52e5ba942a4df70679b5687ad0b05aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 19/45] fix: crash when the remote session description has no
 audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7ec97ed..02e91f6 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -399,7 +399,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From d8bfe9eab4af6ca08b7e88b81392f1798f65052f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 20/45] fix: crash when receiving a message without Via

---
 dialog/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..6c7212f 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -44,6 +44,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if msg.Via == nil {
+			log.Printf("Dropping SIP message without Via\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
-- 
2.43.0


From 435800cd8d6a05b96737e3a1c46bd837d279d394 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 21/45] fix: received messages change when the next one arrives

Extension headers and payloads refer to the bytes they were parsed from,
which was the buffer the next packet is received into.
---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 6c7212f..3e62513 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := append([]byte(nil), buf[0:amt]...) // Messages refer to their packet.
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 2711e59bd298d1a46ff93c3cd84e34f24c3fd939 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 22/45] fix: only the Contact of a re-INVITE changes the remote
 target

The whole request replaced the response that established the dialog, so a
later BYE had our own To, a reversed route and possibly no Contact, and a
re-INVITE before the answer hid the Answered state.
---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 02e91f6..321897f 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -386,7 +386,11 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			remote := *dls.remote
+			remote.Contact = msg.Contact
+			dls.remote = &remote
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-- 
2.43.0


From 64bf547c2f6624f7c2267d33c7e1e495b0a99dac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 23/45] fix: never respond to a response or an ACK

---
 dialog/dialog.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 321897f..2cfad4a 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -279,8 +279,9 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 }
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
+	canRespond := !msg.IsResponse() && msg.Method != sip.MethodAck
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+		if canRespond && !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
@@ -288,7 +289,7 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 	if msg.CallID != dls.request.CallID {
 		log.Printf("Received message doesn't match dialog\r\n")
-		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
+		return !canRespond || dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
 	}
 	if msg.IsResponse() {
 		return dls.handleResponse(msg)
@@ -360,8 +361,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
+	canRespond := msg.Method != sip.MethodAck
 	if msg.MaxForwards <= 0 {
-		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
+		if canRespond && !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote froot loop detected")
@@ -372,7 +374,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	} else {
 		if msg.CSeq < dls.rseq {
 			// RFC 3261 mandates a 500 response for out of order requests.
-			return dls.send(NewResponse(msg, sip.StatusInternalServerError))
+			return !canRespond || dls.send(NewResponse(msg, sip.StatusInternalServerError))
 		}
 		dls.rseq = msg.CSeq
 	}
-- 
2.43.0


From daf5d47aa34a1d2d07d0241ea6fcb40949387704 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 24/45] fix: late provisional response takes an answered call
 back to ringing

A hangup then sent a CANCEL in place of a BYE.
---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 2cfad4a..54ac476 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,6 +303,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		log.Printf("Received response doesn't match transaction\r\n")
 		return true
 	}
+	if msg.Status < sip.StatusOK && dls.state >= Answered {
+		return true // Late provisional response.
+	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
 		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
 			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
-- 
2.43.0


From 2f4bf8ea3e194efb4507c482ef7b4a943a6789de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 25/45] fix: branch of the first message sent reused for all
 others

A message without Via got the transport's own Via, whose parameters were
then filled in, so the next message shared its branch.
---
 dialog/route.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..12dc02a 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,10 +32,10 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
-			msg.Contact = contact
+			msg.Contact = contact.Copy()
 		}
 		if msg.To == nil {
 			msg.To = &sip.Addr{Uri: msg.Request}
-- 
2.43.0


From 05464af8ac3ead298bbd7a6f5757104555d83677 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 26/45] fix: send to port 5060 when the destination has no port

---
 dialog/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..008f060 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,7 +82,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
-	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
+	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(or5060(port))))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 87af4e54228e871f0b74afc3a250bed425a51008 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 27/45] fix: crash routing a response without Via, and rport
 out of range

---
 dialog/route.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 12dc02a..fea3cb2 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -81,6 +81,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		if via.CompareHostPort(msg.Via) {
 			msg.Via = msg.Via.Next
 		}
+		if msg.Via == nil {
+			return "", 0, errors.New("Response has no Via to send it to")
+		}
 
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
@@ -92,7 +95,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From 5114df898af40e3a4cbb94ec1df290790c604959 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 28/45] fix: message rejected if a header name is the beginning
 of a known one

Extension headers such as "d:" (Request-Disposition) or "P:" were a parse
error, because the name was only looked at from the character that told it
apart from the known name.
---
 sip/msg_parse.go | 4 ++--
 sip/sip.rl       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 66fd730..1537345 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1679,7 +1679,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 tr416:
 //line sip.rl:171
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
@@ -17676,7 +17676,7 @@ tr746:
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:171
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 9d0414b..e48cf2c 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -169,7 +169,7 @@ action ViaParam {
 }
 
 action gxh {
-	fhold;
+	fexec mark;
 	fgoto xheader;
 }
 
-- 
2.43.0


From b60ebd2ed71fc29ab1cbf6b0323881f8d3a20bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 29/45] fix: message rejected if its body starts with a space
 or tab

The line break that ends the headers was taken for a line continuation.
---
 sip/msg_parse.go | 4931 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    5 +-
 2 files changed, 2465 insertions(+), 2471 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 1537345..ffa9c32 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -684,14 +684,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_280
 	case 281:
 		goto st_case_281
+	case 774:
+		goto st_case_774
 	case 282:
 		goto st_case_282
 	case 283:
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 774:
-		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1676,7 +1676,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr416:
+tr417:
 //line sip.rl:171
 
 	p = ( mark) - 1
@@ -9764,7 +9764,7 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:532
+//line sip.rl:533
 value=nil
 //line sip.rl:72
 
@@ -9819,49 +9819,110 @@ value=nil
 			goto _test_eof280
 		}
 	st_case_280:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
+		case 13:
+			goto st281
 		case 33:
-			goto tr414
+			goto tr415
 		case 37:
-			goto tr414
+			goto tr415
 		case 39:
-			goto tr414
+			goto tr415
 		case 126:
-			goto tr414
-		case 269:
-			goto st757
+			goto tr415
 		}
 		switch {
-		case _widec < 48:
+		case data[p] < 48:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto tr414
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr415
 				}
-			case _widec >= 42:
-				goto tr414
+			case data[p] >= 42:
+				goto tr415
 			}
-		case _widec > 57:
+		case data[p] > 57:
 			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto tr414
+			case data[p] > 90:
+				if 95 <= data[p] && data[p] <= 122 {
+					goto tr415
 				}
-			case _widec >= 65:
-				goto tr414
+			case data[p] >= 65:
+				goto tr415
 			}
 		default:
-			goto tr414
+			goto tr415
+		}
+		goto st0
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		if data[p] == 10 {
+			goto tr416
+		}
+		goto st0
+tr560:
+//line sip.rl:257
+ {goto st280 } 
+	goto st774
+tr416:
+//line sip.rl:76
+
+	{p++; cs = 774; goto _out }
+
+	goto st774
+tr443:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:258
+ {goto st263 } 
+	goto st774
+tr542:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:256
+ {goto st34 } 
+	goto st774
+tr577:
+//line sip.rl:535
+value=nil
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:252
+ {goto st256 } 
+	goto st774
+tr965:
+//line sip.rl:137
+
+	via = new(Via)
+
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:259
+ {goto st103 } 
+	goto st774
+	st774:
+		if p++; p == pe {
+			goto _test_eof774
 		}
+	st_case_774:
+//line msg_parse.go:9915
 		goto st0
-tr414:
+tr415:
 //line sip.rl:80
 
 	mark = p
@@ -9871,435 +9932,435 @@ tr414:
 	p--
 
 
-	goto st281
-	st281:
+	goto st282
+	st282:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof282
 		}
-	st_case_281:
-//line msg_parse.go:9872
+	st_case_282:
+//line msg_parse.go:9933
 		switch data[p] {
 		case 65:
-			goto st282
+			goto st283
 		case 66:
-			goto st363
-		case 67:
 			goto st364
+		case 67:
+			goto st365
 		case 68:
-			goto st459
+			goto st460
 		case 69:
-			goto st463
+			goto st464
 		case 70:
-			goto st489
+			goto st490
 		case 73:
-			goto st493
+			goto st494
 		case 75:
-			goto st504
+			goto st505
 		case 76:
-			goto st434
+			goto st435
 		case 77:
-			goto st505
+			goto st506
 		case 79:
-			goto st549
+			goto st550
 		case 80:
-			goto st561
+			goto st562
 		case 82:
-			goto st619
+			goto st620
 		case 83:
-			goto st679
+			goto st680
 		case 84:
-			goto st697
+			goto st698
 		case 85:
-			goto st707
+			goto st708
 		case 86:
-			goto st727
+			goto st728
 		case 87:
-			goto st735
+			goto st736
 		case 97:
-			goto st282
+			goto st283
 		case 98:
-			goto st363
-		case 99:
 			goto st364
+		case 99:
+			goto st365
 		case 100:
-			goto st459
+			goto st460
 		case 101:
-			goto st463
+			goto st464
 		case 102:
-			goto st489
+			goto st490
 		case 105:
-			goto st493
+			goto st494
 		case 107:
-			goto st504
+			goto st505
 		case 108:
-			goto st434
+			goto st435
 		case 109:
-			goto st505
+			goto st506
 		case 111:
-			goto st549
+			goto st550
 		case 112:
-			goto st561
+			goto st562
 		case 114:
-			goto st619
+			goto st620
 		case 115:
-			goto st679
+			goto st680
 		case 116:
-			goto st697
+			goto st698
 		case 117:
-			goto st707
+			goto st708
 		case 118:
-			goto st727
+			goto st728
 		case 119:
-			goto st735
+			goto st736
 		}
-		goto tr416
-	st282:
+		goto tr417
+	st283:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof283
 		}
-	st_case_282:
+	st_case_283:
 		switch data[p] {
 		case 9:
-			goto tr435
+			goto tr436
 		case 32:
-			goto tr435
-		case 58:
 			goto tr436
+		case 58:
+			goto tr437
 		case 67:
-			goto st288
+			goto st289
 		case 76:
-			goto st317
+			goto st318
 		case 85:
-			goto st336
+			goto st337
 		case 99:
-			goto st288
+			goto st289
 		case 108:
-			goto st317
+			goto st318
 		case 117:
-			goto st336
+			goto st337
 		}
-		goto tr416
-tr435:
+		goto tr417
+tr436:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st283
-tr450:
+	goto st284
+tr451:
 //line sip.rl:450
 value=&msg.Accept
-	goto st283
-tr469:
+	goto st284
+tr470:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st283
-tr478:
+	goto st284
+tr479:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st283
-tr489:
+	goto st284
+tr490:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st283
-tr493:
+	goto st284
+tr494:
 //line sip.rl:454
 value=&msg.Allow
-	goto st283
-tr502:
+	goto st284
+tr503:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st283
-tr522:
+	goto st284
+tr523:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st283
-tr532:
+	goto st284
+tr533:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st283
-tr534:
+	goto st284
+tr535:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st283
-tr564:
+	goto st284
+tr565:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st283
-tr597:
+	goto st284
+tr598:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st283
-tr606:
+	goto st284
+tr607:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st283
-tr616:
+	goto st284
+tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st283
-tr651:
+	goto st284
+tr652:
 //line sip.rl:463
 value=&msg.Date
-	goto st283
-tr664:
+	goto st284
+tr665:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st283
-tr669:
+	goto st284
+tr670:
 //line sip.rl:465
 value=&msg.Event
-	goto st283
-tr698:
+	goto st284
+tr699:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st283
-tr700:
+	goto st284
+tr701:
 //line sip.rl:480
 value=&msg.Supported
-	goto st283
-tr732:
+	goto st284
+tr733:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st283
-tr760:
+	goto st284
+tr761:
 //line sip.rl:469
 value=&msg.Organization
-	goto st283
-tr790:
+	goto st284
+tr791:
 //line sip.rl:470
 value=&msg.Priority
-	goto st283
-tr809:
+	goto st284
+tr810:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st283
-tr819:
+	goto st284
+tr820:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st283
-tr827:
+	goto st284
+tr828:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st283
-tr829:
+	goto st284
+tr830:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st283
-tr879:
+	goto st284
+tr880:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st283
-tr885:
+	goto st284
+tr886:
 //line sip.rl:476
 value=&msg.Require
-	goto st283
-tr895:
+	goto st284
+tr896:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st283
-tr902:
+	goto st284
+tr903:
 //line sip.rl:479
 value=&msg.Subject
-	goto st283
-tr910:
+	goto st284
+tr911:
 //line sip.rl:478
 value=&msg.Server
-	goto st283
-tr934:
+	goto st284
+tr935:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st283
-tr936:
-//line sip.rl:454
+	goto st284
+tr937:
+//line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st283
-tr949:
+	goto st284
+tr950:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st283
-tr959:
+	goto st284
+tr960:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st283
-tr976:
+	goto st284
+tr977:
 //line sip.rl:484
 value=&msg.Warning
-	goto st283
-tr992:
+	goto st284
+tr993:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st283
-	st283:
+	goto st284
+	st284:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof284
 		}
-	st_case_283:
-//line msg_parse.go:10129
+	st_case_284:
+//line msg_parse.go:10190
 		switch data[p] {
 		case 9:
-			goto st283
+			goto st284
 		case 32:
-			goto st283
-		case 58:
 			goto st284
+		case 58:
+			goto st285
 		}
 		goto st0
-tr436:
+tr437:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st284
-tr452:
+	goto st285
+tr453:
 //line sip.rl:450
 value=&msg.Accept
-	goto st284
-tr470:
+	goto st285
+tr471:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st284
-tr479:
+	goto st285
+tr480:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st284
-tr490:
+	goto st285
+tr491:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st284
-tr495:
+	goto st285
+tr496:
 //line sip.rl:454
 value=&msg.Allow
-	goto st284
-tr503:
+	goto st285
+tr504:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr523:
+	goto st285
+tr524:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st284
-tr533:
+	goto st285
+tr534:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st284
-tr535:
+	goto st285
+tr536:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st284
-tr565:
+	goto st285
+tr566:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st284
-tr598:
+	goto st285
+tr599:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st284
-tr607:
+	goto st285
+tr608:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st284
-tr617:
+	goto st285
+tr618:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st284
-tr652:
+	goto st285
+tr653:
 //line sip.rl:463
 value=&msg.Date
-	goto st284
-tr665:
+	goto st285
+tr666:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st284
-tr670:
+	goto st285
+tr671:
 //line sip.rl:465
 value=&msg.Event
-	goto st284
-tr699:
+	goto st285
+tr700:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st284
-tr701:
+	goto st285
+tr702:
 //line sip.rl:480
 value=&msg.Supported
-	goto st284
-tr733:
+	goto st285
+tr734:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st284
-tr761:
+	goto st285
+tr762:
 //line sip.rl:469
 value=&msg.Organization
-	goto st284
-tr791:
+	goto st285
+tr792:
 //line sip.rl:470
 value=&msg.Priority
-	goto st284
-tr810:
+	goto st285
+tr811:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st284
-tr820:
+	goto st285
+tr821:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st284
-tr828:
+	goto st285
+tr829:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st284
-tr830:
+	goto st285
+tr831:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st284
-tr880:
+	goto st285
+tr881:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st284
-tr886:
+	goto st285
+tr887:
 //line sip.rl:476
 value=&msg.Require
-	goto st284
-tr896:
+	goto st285
+tr897:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st284
-tr903:
+	goto st285
+tr904:
 //line sip.rl:479
 value=&msg.Subject
-	goto st284
-tr911:
+	goto st285
+tr912:
 //line sip.rl:478
 value=&msg.Server
-	goto st284
-tr935:
+	goto st285
+tr936:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st284
-tr937:
+	goto st285
+tr938:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr950:
+	goto st285
+tr951:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st284
-tr960:
+	goto st285
+tr961:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st284
-tr977:
+	goto st285
+tr978:
 //line sip.rl:484
 value=&msg.Warning
-	goto st284
-tr993:
+	goto st285
+tr994:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st285
+	st285:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof285
 		}
-	st_case_284:
-//line msg_parse.go:10294
+	st_case_285:
+//line msg_parse.go:10355
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10309,89 +10370,21 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st284
+			goto st285
 		case 32:
-			goto st284
+			goto st285
 		case 269:
-			goto tr442
+			goto tr443
 		case 525:
-			goto st285
+			goto st286
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr442
+				goto tr443
 			}
 		default:
-			goto tr442
-		}
-		goto st0
-tr559:
-//line sip.rl:257
- {goto st280 } 
-	goto st774
-tr442:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:258
- {goto st263 } 
-	goto st774
-tr541:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:256
- {goto st34 } 
-	goto st774
-tr576:
-//line sip.rl:534
-value=nil
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st774
-tr964:
-//line sip.rl:137
-
-	via = new(Via)
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:259
- {goto st103 } 
-	goto st774
-tr994:
-//line sip.rl:76
-
-	{p++; cs = 774; goto _out }
-
-	goto st774
-	st774:
-		if p++; p == pe {
-			goto _test_eof774
-		}
-	st_case_774:
-//line msg_parse.go:10378
-		goto st0
-	st285:
-		if p++; p == pe {
-			goto _test_eof285
-		}
-	st_case_285:
-		if data[p] == 10 {
-			goto st286
+			goto tr443
 		}
 		goto st0
 	st286:
@@ -10399,10 +10392,7 @@ tr994:
 			goto _test_eof286
 		}
 	st_case_286:
-		switch data[p] {
-		case 9:
-			goto st287
-		case 32:
+		if data[p] == 10 {
 			goto st287
 		}
 		goto st0
@@ -10413,943 +10403,941 @@ tr994:
 	st_case_287:
 		switch data[p] {
 		case 9:
-			goto st287
+			goto st288
 		case 32:
-			goto st287
+			goto st288
 		}
-		goto tr442
+		goto st0
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 67:
-			goto st289
-		case 99:
-			goto st289
+		case 9:
+			goto st288
+		case 32:
+			goto st288
 		}
-		goto tr416
+		goto tr443
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 69:
+		case 67:
 			goto st290
-		case 101:
+		case 99:
 			goto st290
 		}
-		goto tr416
+		goto tr417
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st291
-		case 112:
+		case 101:
 			goto st291
 		}
-		goto tr416
+		goto tr417
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st292
-		case 116:
+		case 112:
 			goto st292
 		}
-		goto tr416
+		goto tr417
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 9:
-			goto tr450
-		case 32:
-			goto tr450
-		case 45:
+		case 84:
+			goto st293
+		case 116:
 			goto st293
-		case 58:
-			goto tr452
 		}
-		goto tr416
+		goto tr417
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 67:
-			goto st294
-		case 69:
-			goto st301
-		case 76:
-			goto st309
-		case 99:
+		case 9:
+			goto tr451
+		case 32:
+			goto tr451
+		case 45:
 			goto st294
-		case 101:
-			goto st301
-		case 108:
-			goto st309
+		case 58:
+			goto tr453
 		}
-		goto tr416
+		goto tr417
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st295
-		case 111:
+		case 69:
+			goto st302
+		case 76:
+			goto st310
+		case 99:
 			goto st295
+		case 101:
+			goto st302
+		case 108:
+			goto st310
 		}
-		goto tr416
+		goto tr417
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st296
-		case 110:
+		case 111:
 			goto st296
 		}
-		goto tr416
+		goto tr417
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st297
-		case 116:
+		case 110:
 			goto st297
 		}
-		goto tr416
+		goto tr417
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st298
-		case 97:
+		case 116:
 			goto st298
 		}
-		goto tr416
+		goto tr417
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st299
-		case 99:
+		case 97:
 			goto st299
 		}
-		goto tr416
+		goto tr417
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st300
-		case 116:
+		case 99:
 			goto st300
 		}
-		goto tr416
+		goto tr417
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 9:
-			goto tr435
-		case 32:
-			goto tr435
-		case 58:
-			goto tr436
+		case 84:
+			goto st301
+		case 116:
+			goto st301
 		}
-		goto tr416
+		goto tr417
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 78:
-			goto st302
-		case 110:
-			goto st302
+		case 9:
+			goto tr436
+		case 32:
+			goto tr436
+		case 58:
+			goto tr437
 		}
-		goto tr416
+		goto tr417
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st303
-		case 99:
+		case 110:
 			goto st303
 		}
-		goto tr416
+		goto tr417
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st304
-		case 111:
+		case 99:
 			goto st304
 		}
-		goto tr416
+		goto tr417
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st305
-		case 100:
+		case 111:
 			goto st305
 		}
-		goto tr416
+		goto tr417
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st306
-		case 105:
+		case 100:
 			goto st306
 		}
-		goto tr416
+		goto tr417
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st307
-		case 110:
+		case 105:
 			goto st307
 		}
-		goto tr416
+		goto tr417
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st308
-		case 103:
+		case 110:
 			goto st308
 		}
-		goto tr416
+		goto tr417
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 9:
-			goto tr469
-		case 32:
-			goto tr469
-		case 58:
-			goto tr470
+		case 71:
+			goto st309
+		case 103:
+			goto st309
 		}
-		goto tr416
+		goto tr417
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 65:
-			goto st310
-		case 97:
-			goto st310
+		case 9:
+			goto tr470
+		case 32:
+			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr416
+		goto tr417
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st311
-		case 110:
+		case 97:
 			goto st311
 		}
-		goto tr416
+		goto tr417
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st312
-		case 103:
+		case 110:
 			goto st312
 		}
-		goto tr416
+		goto tr417
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st313
-		case 117:
+		case 103:
 			goto st313
 		}
-		goto tr416
+		goto tr417
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st314
-		case 97:
+		case 117:
 			goto st314
 		}
-		goto tr416
+		goto tr417
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st315
-		case 103:
+		case 97:
 			goto st315
 		}
-		goto tr416
+		goto tr417
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st316
-		case 101:
+		case 103:
 			goto st316
 		}
-		goto tr416
+		goto tr417
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 9:
-			goto tr478
-		case 32:
-			goto tr478
-		case 58:
-			goto tr479
+		case 69:
+			goto st317
+		case 101:
+			goto st317
 		}
-		goto tr416
+		goto tr417
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 69:
-			goto st318
-		case 76:
-			goto st326
-		case 101:
-			goto st318
-		case 108:
-			goto st326
+		case 9:
+			goto tr479
+		case 32:
+			goto tr479
+		case 58:
+			goto tr480
 		}
-		goto tr416
+		goto tr417
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st319
-		case 114:
+		case 76:
+			goto st327
+		case 101:
 			goto st319
+		case 108:
+			goto st327
 		}
-		goto tr416
+		goto tr417
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st320
-		case 116:
+		case 114:
 			goto st320
 		}
-		goto tr416
+		goto tr417
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st321
+		case 116:
 			goto st321
 		}
-		goto tr416
+		goto tr417
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
-		switch data[p] {
-		case 73:
-			goto st322
-		case 105:
+		if data[p] == 45 {
 			goto st322
 		}
-		goto tr416
+		goto tr417
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st323
-		case 110:
+		case 105:
 			goto st323
 		}
-		goto tr416
+		goto tr417
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st324
-		case 102:
+		case 110:
 			goto st324
 		}
-		goto tr416
+		goto tr417
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st325
-		case 111:
+		case 102:
 			goto st325
 		}
-		goto tr416
+		goto tr417
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 9:
-			goto tr489
-		case 32:
-			goto tr489
-		case 58:
-			goto tr490
+		case 79:
+			goto st326
+		case 111:
+			goto st326
 		}
-		goto tr416
+		goto tr417
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 79:
-			goto st327
-		case 111:
-			goto st327
+		case 9:
+			goto tr490
+		case 32:
+			goto tr490
+		case 58:
+			goto tr491
 		}
-		goto tr416
+		goto tr417
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 87:
+		case 79:
 			goto st328
-		case 119:
+		case 111:
 			goto st328
 		}
-		goto tr416
+		goto tr417
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 9:
-			goto tr493
-		case 32:
-			goto tr493
-		case 45:
+		case 87:
+			goto st329
+		case 119:
 			goto st329
-		case 58:
-			goto tr495
 		}
-		goto tr416
+		goto tr417
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 69:
-			goto st330
-		case 101:
+		case 9:
+			goto tr494
+		case 32:
+			goto tr494
+		case 45:
 			goto st330
+		case 58:
+			goto tr496
 		}
-		goto tr416
+		goto tr417
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st331
-		case 118:
+		case 101:
 			goto st331
 		}
-		goto tr416
+		goto tr417
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st332
-		case 101:
+		case 118:
 			goto st332
 		}
-		goto tr416
+		goto tr417
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st333
-		case 110:
+		case 101:
 			goto st333
 		}
-		goto tr416
+		goto tr417
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st334
-		case 116:
+		case 110:
 			goto st334
 		}
-		goto tr416
+		goto tr417
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st335
-		case 115:
+		case 116:
 			goto st335
 		}
-		goto tr416
+		goto tr417
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 9:
-			goto tr502
-		case 32:
-			goto tr502
-		case 58:
-			goto tr503
+		case 83:
+			goto st336
+		case 115:
+			goto st336
 		}
-		goto tr416
+		goto tr417
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 84:
-			goto st337
-		case 116:
-			goto st337
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr416
+		goto tr417
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st338
-		case 104:
+		case 116:
 			goto st338
 		}
-		goto tr416
+		goto tr417
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st339
-		case 79:
-			goto st354
-		case 101:
+		case 104:
 			goto st339
-		case 111:
-			goto st354
 		}
-		goto tr416
+		goto tr417
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st340
-		case 110:
+		case 79:
+			goto st355
+		case 101:
 			goto st340
+		case 111:
+			goto st355
 		}
-		goto tr416
+		goto tr417
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st341
-		case 116:
+		case 110:
 			goto st341
 		}
-		goto tr416
+		goto tr417
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st342
-		case 105:
+		case 116:
 			goto st342
 		}
-		goto tr416
+		goto tr417
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st343
-		case 99:
+		case 105:
 			goto st343
 		}
-		goto tr416
+		goto tr417
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st344
-		case 97:
+		case 99:
 			goto st344
 		}
-		goto tr416
+		goto tr417
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st345
-		case 116:
+		case 97:
 			goto st345
 		}
-		goto tr416
+		goto tr417
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
 		}
 	st_case_345:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st346
-		case 105:
+		case 116:
 			goto st346
 		}
-		goto tr416
+		goto tr417
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st347
-		case 111:
+		case 105:
 			goto st347
 		}
-		goto tr416
+		goto tr417
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st348
-		case 110:
+		case 111:
 			goto st348
 		}
-		goto tr416
+		goto tr417
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st349
+		case 110:
 			goto st349
 		}
-		goto tr416
+		goto tr417
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
 		}
 	st_case_349:
-		switch data[p] {
-		case 73:
-			goto st350
-		case 105:
+		if data[p] == 45 {
 			goto st350
 		}
-		goto tr416
+		goto tr417
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st351
-		case 110:
+		case 105:
 			goto st351
 		}
-		goto tr416
+		goto tr417
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st352
-		case 102:
+		case 110:
 			goto st352
 		}
-		goto tr416
+		goto tr417
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st353
-		case 111:
+		case 102:
 			goto st353
 		}
-		goto tr416
+		goto tr417
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
 		}
 	st_case_353:
 		switch data[p] {
-		case 9:
-			goto tr522
-		case 32:
-			goto tr522
-		case 58:
-			goto tr523
+		case 79:
+			goto st354
+		case 111:
+			goto st354
 		}
-		goto tr416
+		goto tr417
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
 		}
 	st_case_354:
 		switch data[p] {
-		case 82:
-			goto st355
-		case 114:
-			goto st355
+		case 9:
+			goto tr523
+		case 32:
+			goto tr523
+		case 58:
+			goto tr524
 		}
-		goto tr416
+		goto tr417
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
 		}
 	st_case_355:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st356
-		case 105:
+		case 114:
 			goto st356
 		}
-		goto tr416
+		goto tr417
 	st356:
 		if p++; p == pe {
 			goto _test_eof356
 		}
 	st_case_356:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st357
-		case 122:
+		case 105:
 			goto st357
 		}
-		goto tr416
+		goto tr417
 	st357:
 		if p++; p == pe {
 			goto _test_eof357
 		}
 	st_case_357:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st358
-		case 97:
+		case 122:
 			goto st358
 		}
-		goto tr416
+		goto tr417
 	st358:
 		if p++; p == pe {
 			goto _test_eof358
 		}
 	st_case_358:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st359
-		case 116:
+		case 97:
 			goto st359
 		}
-		goto tr416
+		goto tr417
 	st359:
 		if p++; p == pe {
 			goto _test_eof359
 		}
 	st_case_359:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st360
-		case 105:
+		case 116:
 			goto st360
 		}
-		goto tr416
+		goto tr417
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
 		}
 	st_case_360:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st361
-		case 111:
+		case 105:
 			goto st361
 		}
-		goto tr416
+		goto tr417
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
 		}
 	st_case_361:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st362
-		case 110:
+		case 111:
 			goto st362
 		}
-		goto tr416
+		goto tr417
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
 		}
 	st_case_362:
 		switch data[p] {
-		case 9:
-			goto tr532
-		case 32:
-			goto tr532
-		case 58:
-			goto tr533
+		case 78:
+			goto st363
+		case 110:
+			goto st363
 		}
-		goto tr416
+		goto tr417
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
@@ -11357,13 +11345,13 @@ tr994:
 	st_case_363:
 		switch data[p] {
 		case 9:
-			goto tr534
+			goto tr533
 		case 32:
-			goto tr534
+			goto tr533
 		case 58:
-			goto tr535
+			goto tr534
 		}
-		goto tr416
+		goto tr417
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
@@ -11371,44 +11359,58 @@ tr994:
 	st_case_364:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto tr535
 		case 32:
-			goto st365
+			goto tr535
 		case 58:
+			goto tr536
+		}
+		goto tr417
+	st365:
+		if p++; p == pe {
+			goto _test_eof365
+		}
+	st_case_365:
+		switch data[p] {
+		case 9:
+			goto st366
+		case 32:
 			goto st366
+		case 58:
+			goto st367
 		case 65:
-			goto st370
+			goto st371
 		case 79:
-			goto st388
+			goto st389
 		case 83:
-			goto st445
+			goto st446
 		case 97:
-			goto st370
+			goto st371
 		case 111:
-			goto st388
+			goto st389
 		case 115:
-			goto st445
+			goto st446
 		}
-		goto tr416
-	st365:
+		goto tr417
+	st366:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof366
 		}
-	st_case_365:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st366
 		case 32:
-			goto st365
-		case 58:
 			goto st366
+		case 58:
+			goto st367
 		}
 		goto st0
-	st366:
+	st367:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof367
 		}
-	st_case_366:
+	st_case_367:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11418,30 +11420,21 @@ tr994:
 		}
 		switch _widec {
 		case 9:
-			goto st366
+			goto st367
 		case 32:
-			goto st366
+			goto st367
 		case 269:
-			goto tr541
+			goto tr542
 		case 525:
-			goto st367
+			goto st368
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr541
+				goto tr542
 			}
 		default:
-			goto tr541
-		}
-		goto st0
-	st367:
-		if p++; p == pe {
-			goto _test_eof367
-		}
-	st_case_367:
-		if data[p] == 10 {
-			goto st368
+			goto tr542
 		}
 		goto st0
 	st368:
@@ -11449,10 +11442,7 @@ tr994:
 			goto _test_eof368
 		}
 	st_case_368:
-		switch data[p] {
-		case 9:
-			goto st369
-		case 32:
+		if data[p] == 10 {
 			goto st369
 		}
 		goto st0
@@ -11463,23 +11453,23 @@ tr994:
 	st_case_369:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st370
 		case 32:
-			goto st369
+			goto st370
 		}
-		goto tr541
+		goto st0
 	st370:
 		if p++; p == pe {
 			goto _test_eof370
 		}
 	st_case_370:
 		switch data[p] {
-		case 76:
-			goto st371
-		case 108:
-			goto st371
+		case 9:
+			goto st370
+		case 32:
+			goto st370
 		}
-		goto tr416
+		goto tr542
 	st371:
 		if p++; p == pe {
 			goto _test_eof371
@@ -11491,58 +11481,56 @@ tr994:
 		case 108:
 			goto st372
 		}
-		goto tr416
+		goto tr417
 	st372:
 		if p++; p == pe {
 			goto _test_eof372
 		}
 	st_case_372:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st373
+		case 108:
 			goto st373
 		}
-		goto tr416
+		goto tr417
 	st373:
 		if p++; p == pe {
 			goto _test_eof373
 		}
 	st_case_373:
-		switch data[p] {
-		case 73:
-			goto st374
-		case 105:
+		if data[p] == 45 {
 			goto st374
 		}
-		goto tr416
+		goto tr417
 	st374:
 		if p++; p == pe {
 			goto _test_eof374
 		}
 	st_case_374:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st375
-		case 78:
-			goto st385
-		case 100:
+		case 105:
 			goto st375
-		case 110:
-			goto st385
 		}
-		goto tr416
+		goto tr417
 	st375:
 		if p++; p == pe {
 			goto _test_eof375
 		}
 	st_case_375:
 		switch data[p] {
-		case 9:
+		case 68:
 			goto st376
-		case 32:
+		case 78:
+			goto st386
+		case 100:
 			goto st376
-		case 58:
-			goto st377
+		case 110:
+			goto st386
 		}
-		goto tr416
+		goto tr417
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
@@ -11550,18 +11538,32 @@ tr994:
 	st_case_376:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st377
 		case 32:
-			goto st376
-		case 58:
 			goto st377
+		case 58:
+			goto st378
 		}
-		goto st0
+		goto tr417
 	st377:
 		if p++; p == pe {
 			goto _test_eof377
 		}
 	st_case_377:
+		switch data[p] {
+		case 9:
+			goto st377
+		case 32:
+			goto st377
+		case 58:
+			goto st378
+		}
+		goto st0
+	st378:
+		if p++; p == pe {
+			goto _test_eof378
+		}
+	st_case_378:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11571,59 +11573,59 @@ tr994:
 		}
 		switch _widec {
 		case 9:
-			goto st377
+			goto st378
 		case 32:
-			goto st377
+			goto st378
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		case 525:
-			goto st382
+			goto st383
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
-tr553:
+tr554:
 //line sip.rl:80
 
 	mark = p
 
-	goto st378
-	st378:
+	goto st379
+	st379:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof379
 		}
-	st_case_378:
-//line msg_parse.go:11618
+	st_case_379:
+//line msg_parse.go:11620
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11633,88 +11635,88 @@ tr553:
 		}
 		switch _widec {
 		case 37:
-			goto st378
+			goto st379
 		case 60:
-			goto st378
-		case 64:
 			goto st379
+		case 64:
+			goto st380
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st378
+					goto st379
 				}
 			case _widec >= 33:
-				goto st378
+				goto st379
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st378
+					goto st379
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st378
+					goto st379
 				}
 			default:
-				goto st378
+				goto st379
 			}
 		default:
-			goto st378
+			goto st379
 		}
 		goto st0
-	st379:
+	st380:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof380
 		}
-	st_case_379:
+	st_case_380:
 		switch data[p] {
 		case 37:
-			goto st380
+			goto st381
 		case 60:
-			goto st380
+			goto st381
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st380
+					goto st381
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st380
+					goto st381
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		default:
-			goto st380
+			goto st381
 		}
 		goto st0
-	st380:
+	st381:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof381
 		}
-	st_case_380:
+	st_case_381:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11724,72 +11726,63 @@ tr553:
 		}
 		switch _widec {
 		case 37:
-			goto st380
+			goto st381
 		case 60:
-			goto st380
+			goto st381
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st380
+					goto st381
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st380
+					goto st381
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		default:
-			goto st380
+			goto st381
 		}
 		goto st0
-tr557:
+tr558:
 //line sip.rl:220
 
 	msg.CallID = string(data[mark:p])
 
-	goto st381
-tr643:
+	goto st382
+tr644:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st381
-	st381:
-		if p++; p == pe {
-			goto _test_eof381
-		}
-	st_case_381:
-//line msg_parse.go:11773
-		if data[p] == 10 {
-			goto tr559
-		}
-		goto st0
+	goto st382
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
+//line msg_parse.go:11775
 		if data[p] == 10 {
-			goto st383
+			goto tr560
 		}
 		goto st0
 	st383:
@@ -11797,10 +11790,7 @@ tr643:
 			goto _test_eof383
 		}
 	st_case_383:
-		switch data[p] {
-		case 9:
-			goto st384
-		case 32:
+		if data[p] == 10 {
 			goto st384
 		}
 		goto st0
@@ -11811,238 +11801,250 @@ tr643:
 	st_case_384:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st385
 		case 32:
-			goto st384
+			goto st385
+		}
+		goto st0
+	st385:
+		if p++; p == pe {
+			goto _test_eof385
+		}
+	st_case_385:
+		switch data[p] {
+		case 9:
+			goto st385
+		case 32:
+			goto st385
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
-	st385:
-		if p++; p == pe {
-			goto _test_eof385
-		}
-	st_case_385:
-		switch data[p] {
-		case 70:
-			goto st386
-		case 102:
-			goto st386
-		}
-		goto tr416
 	st386:
 		if p++; p == pe {
 			goto _test_eof386
 		}
 	st_case_386:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st387
-		case 111:
+		case 102:
 			goto st387
 		}
-		goto tr416
+		goto tr417
 	st387:
 		if p++; p == pe {
 			goto _test_eof387
 		}
 	st_case_387:
 		switch data[p] {
-		case 9:
-			goto tr564
-		case 32:
-			goto tr564
-		case 58:
-			goto tr565
+		case 79:
+			goto st388
+		case 111:
+			goto st388
 		}
-		goto tr416
+		goto tr417
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
 		}
 	st_case_388:
 		switch data[p] {
-		case 78:
-			goto st389
-		case 110:
-			goto st389
+		case 9:
+			goto tr565
+		case 32:
+			goto tr565
+		case 58:
+			goto tr566
 		}
-		goto tr416
+		goto tr417
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
 		}
 	st_case_389:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st390
-		case 116:
+		case 110:
 			goto st390
 		}
-		goto tr416
+		goto tr417
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
 		}
 	st_case_390:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st391
-		case 69:
-			goto st399
-		case 97:
+		case 116:
 			goto st391
-		case 101:
-			goto st399
 		}
-		goto tr416
+		goto tr417
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
 		}
 	st_case_391:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st392
-		case 99:
+		case 69:
+			goto st400
+		case 97:
 			goto st392
+		case 101:
+			goto st400
 		}
-		goto tr416
+		goto tr417
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
 		}
 	st_case_392:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st393
-		case 116:
+		case 99:
 			goto st393
 		}
-		goto tr416
+		goto tr417
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
 		}
 	st_case_393:
+		switch data[p] {
+		case 84:
+			goto st394
+		case 116:
+			goto st394
+		}
+		goto tr417
+	st394:
+		if p++; p == pe {
+			goto _test_eof394
+		}
+	st_case_394:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr573
 		case 32:
-			goto tr572
-		case 58:
 			goto tr573
+		case 58:
+			goto tr574
 		}
-		goto tr416
-tr572:
+		goto tr417
+tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
-	goto st394
-tr683:
+	goto st395
+tr684:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
-	goto st394
-tr781:
+	goto st395
+tr782:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st394
-tr848:
+	goto st395
+tr849:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
-	goto st394
-tr872:
+	goto st395
+tr873:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st394
-tr900:
+	goto st395
+tr901:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
-	goto st394
-tr923:
+	goto st395
+tr924:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
-	goto st394
-	st394:
+	goto st395
+	st395:
 		if p++; p == pe {
-			goto _test_eof394
+			goto _test_eof395
 		}
-	st_case_394:
-//line msg_parse.go:11994
+	st_case_395:
+//line msg_parse.go:11996
 		switch data[p] {
 		case 9:
-			goto st394
+			goto st395
 		case 32:
-			goto st394
-		case 58:
 			goto st395
+		case 58:
+			goto st396
 		}
 		goto st0
-tr573:
+tr574:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
-	goto st395
-tr684:
+	goto st396
+tr685:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
-	goto st395
-tr782:
+	goto st396
+tr783:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
-tr849:
+	goto st396
+tr850:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
-	goto st395
-tr873:
+	goto st396
+tr874:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
-tr901:
+	goto st396
+tr902:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
-	goto st395
-tr924:
+	goto st396
+tr925:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
-	goto st395
-	st395:
+	goto st396
+	st396:
 		if p++; p == pe {
-			goto _test_eof395
+			goto _test_eof396
 		}
-	st_case_395:
-//line msg_parse.go:12037
+	st_case_396:
+//line msg_parse.go:12039
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12052,30 +12054,21 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st395
+			goto st396
 		case 32:
-			goto st395
+			goto st396
 		case 269:
-			goto tr576
+			goto tr577
 		case 525:
-			goto st396
+			goto st397
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr576
+				goto tr577
 			}
 		default:
-			goto tr576
-		}
-		goto st0
-	st396:
-		if p++; p == pe {
-			goto _test_eof396
-		}
-	st_case_396:
-		if data[p] == 10 {
-			goto st397
+			goto tr577
 		}
 		goto st0
 	st397:
@@ -12083,10 +12076,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof397
 		}
 	st_case_397:
-		switch data[p] {
-		case 9:
-			goto st398
-		case 32:
+		if data[p] == 10 {
 			goto st398
 		}
 		goto st0
@@ -12097,464 +12087,462 @@ addrp=lastAddr(&msg.To)
 	st_case_398:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st399
 		case 32:
-			goto st398
+			goto st399
 		}
-		goto tr576
+		goto st0
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
 		}
 	st_case_399:
 		switch data[p] {
-		case 78:
-			goto st400
-		case 110:
-			goto st400
+		case 9:
+			goto st399
+		case 32:
+			goto st399
 		}
-		goto tr416
+		goto tr577
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st401
-		case 116:
+		case 110:
 			goto st401
 		}
-		goto tr416
+		goto tr417
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
 		}
 	st_case_401:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st402
+		case 116:
 			goto st402
 		}
-		goto tr416
+		goto tr417
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
 		}
 	st_case_402:
-		switch data[p] {
-		case 68:
-			goto st403
-		case 69:
-			goto st414
-		case 76:
-			goto st422
-		case 84:
-			goto st441
-		case 100:
+		if data[p] == 45 {
 			goto st403
-		case 101:
-			goto st414
-		case 108:
-			goto st422
-		case 116:
-			goto st441
 		}
-		goto tr416
+		goto tr417
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
 		}
 	st_case_403:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st404
-		case 105:
+		case 69:
+			goto st415
+		case 76:
+			goto st423
+		case 84:
+			goto st442
+		case 100:
 			goto st404
+		case 101:
+			goto st415
+		case 108:
+			goto st423
+		case 116:
+			goto st442
 		}
-		goto tr416
+		goto tr417
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
 		}
 	st_case_404:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st405
-		case 115:
+		case 105:
 			goto st405
 		}
-		goto tr416
+		goto tr417
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
 		}
 	st_case_405:
 		switch data[p] {
-		case 80:
+		case 83:
 			goto st406
-		case 112:
+		case 115:
 			goto st406
 		}
-		goto tr416
+		goto tr417
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
 		}
 	st_case_406:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st407
-		case 111:
+		case 112:
 			goto st407
 		}
-		goto tr416
+		goto tr417
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
 		}
 	st_case_407:
 		switch data[p] {
-		case 83:
+		case 79:
 			goto st408
-		case 115:
+		case 111:
 			goto st408
 		}
-		goto tr416
+		goto tr417
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
 		}
 	st_case_408:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st409
-		case 105:
+		case 115:
 			goto st409
 		}
-		goto tr416
+		goto tr417
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
 		}
 	st_case_409:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st410
-		case 116:
+		case 105:
 			goto st410
 		}
-		goto tr416
+		goto tr417
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
 		}
 	st_case_410:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st411
-		case 105:
+		case 116:
 			goto st411
 		}
-		goto tr416
+		goto tr417
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
 		}
 	st_case_411:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st412
-		case 111:
+		case 105:
 			goto st412
 		}
-		goto tr416
+		goto tr417
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
 		}
 	st_case_412:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st413
-		case 110:
+		case 111:
 			goto st413
 		}
-		goto tr416
+		goto tr417
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
 		}
 	st_case_413:
 		switch data[p] {
-		case 9:
-			goto tr597
-		case 32:
-			goto tr597
-		case 58:
-			goto tr598
+		case 78:
+			goto st414
+		case 110:
+			goto st414
 		}
-		goto tr416
+		goto tr417
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
 		}
 	st_case_414:
 		switch data[p] {
-		case 78:
-			goto st415
-		case 110:
-			goto st415
+		case 9:
+			goto tr598
+		case 32:
+			goto tr598
+		case 58:
+			goto tr599
 		}
-		goto tr416
+		goto tr417
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
 		}
 	st_case_415:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st416
-		case 99:
+		case 110:
 			goto st416
 		}
-		goto tr416
+		goto tr417
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
 		}
 	st_case_416:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st417
-		case 111:
+		case 99:
 			goto st417
 		}
-		goto tr416
+		goto tr417
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
 		}
 	st_case_417:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st418
-		case 100:
+		case 111:
 			goto st418
 		}
-		goto tr416
+		goto tr417
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
 		}
 	st_case_418:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st419
-		case 105:
+		case 100:
 			goto st419
 		}
-		goto tr416
+		goto tr417
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
 		}
 	st_case_419:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st420
-		case 110:
+		case 105:
 			goto st420
 		}
-		goto tr416
+		goto tr417
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
 		}
 	st_case_420:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st421
-		case 103:
+		case 110:
 			goto st421
 		}
-		goto tr416
+		goto tr417
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
 		}
 	st_case_421:
 		switch data[p] {
-		case 9:
-			goto tr606
-		case 32:
-			goto tr606
-		case 58:
-			goto tr607
+		case 71:
+			goto st422
+		case 103:
+			goto st422
 		}
-		goto tr416
+		goto tr417
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
 		}
 	st_case_422:
 		switch data[p] {
-		case 65:
-			goto st423
-		case 69:
-			goto st430
-		case 97:
-			goto st423
-		case 101:
-			goto st430
+		case 9:
+			goto tr607
+		case 32:
+			goto tr607
+		case 58:
+			goto tr608
 		}
-		goto tr416
+		goto tr417
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
 		}
 	st_case_423:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st424
-		case 110:
+		case 69:
+			goto st431
+		case 97:
 			goto st424
+		case 101:
+			goto st431
 		}
-		goto tr416
+		goto tr417
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
 		}
 	st_case_424:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st425
-		case 103:
+		case 110:
 			goto st425
 		}
-		goto tr416
+		goto tr417
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
 		}
 	st_case_425:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st426
-		case 117:
+		case 103:
 			goto st426
 		}
-		goto tr416
+		goto tr417
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
 		}
 	st_case_426:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st427
-		case 97:
+		case 117:
 			goto st427
 		}
-		goto tr416
+		goto tr417
 	st427:
 		if p++; p == pe {
 			goto _test_eof427
 		}
 	st_case_427:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st428
-		case 103:
+		case 97:
 			goto st428
 		}
-		goto tr416
+		goto tr417
 	st428:
 		if p++; p == pe {
 			goto _test_eof428
 		}
 	st_case_428:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st429
-		case 101:
+		case 103:
 			goto st429
 		}
-		goto tr416
+		goto tr417
 	st429:
 		if p++; p == pe {
 			goto _test_eof429
 		}
 	st_case_429:
 		switch data[p] {
-		case 9:
-			goto tr616
-		case 32:
-			goto tr616
-		case 58:
-			goto tr617
+		case 69:
+			goto st430
+		case 101:
+			goto st430
 		}
-		goto tr416
+		goto tr417
 	st430:
 		if p++; p == pe {
 			goto _test_eof430
 		}
 	st_case_430:
 		switch data[p] {
-		case 78:
-			goto st431
-		case 110:
-			goto st431
+		case 9:
+			goto tr617
+		case 32:
+			goto tr617
+		case 58:
+			goto tr618
 		}
-		goto tr416
+		goto tr417
 	st431:
 		if p++; p == pe {
 			goto _test_eof431
 		}
 	st_case_431:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st432
-		case 103:
+		case 110:
 			goto st432
 		}
-		goto tr416
+		goto tr417
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
 		}
 	st_case_432:
 		switch data[p] {
-		case 84:
+		case 71:
 			goto st433
-		case 116:
+		case 103:
 			goto st433
 		}
-		goto tr416
+		goto tr417
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
 		}
 	st_case_433:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st434
-		case 104:
+		case 116:
 			goto st434
 		}
-		goto tr416
+		goto tr417
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
 		}
 	st_case_434:
 		switch data[p] {
-		case 9:
+		case 72:
 			goto st435
-		case 32:
+		case 104:
 			goto st435
-		case 58:
-			goto st436
 		}
-		goto tr416
+		goto tr417
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
@@ -12562,18 +12550,32 @@ addrp=lastAddr(&msg.To)
 	st_case_435:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st436
 		case 32:
-			goto st435
-		case 58:
 			goto st436
+		case 58:
+			goto st437
 		}
-		goto st0
+		goto tr417
 	st436:
 		if p++; p == pe {
 			goto _test_eof436
 		}
 	st_case_436:
+		switch data[p] {
+		case 9:
+			goto st436
+		case 32:
+			goto st436
+		case 58:
+			goto st437
+		}
+		goto st0
+	st437:
+		if p++; p == pe {
+			goto _test_eof437
+		}
+	st_case_437:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12583,36 +12585,36 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st436
+			goto st437
 		case 32:
-			goto st436
+			goto st437
 		case 525:
-			goto st438
+			goto st439
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr623
+			goto tr624
 		}
 		goto st0
-tr623:
+tr624:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
 
 	if clen, err = appendDigit(clen, data[p]); err != nil { return nil, err }
 
-	goto st437
-tr625:
+	goto st438
+tr626:
 //line sip.rl:224
 
 	if clen, err = appendDigit(clen, data[p]); err != nil { return nil, err }
 
-	goto st437
-	st437:
+	goto st438
+	st438:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof438
 		}
-	st_case_437:
-//line msg_parse.go:12607
+	st_case_438:
+//line msg_parse.go:12609
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12621,19 +12623,10 @@ tr625:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr625
-		}
-		goto st0
-	st438:
-		if p++; p == pe {
-			goto _test_eof438
-		}
-	st_case_438:
-		if data[p] == 10 {
-			goto st439
+			goto tr626
 		}
 		goto st0
 	st439:
@@ -12641,10 +12634,7 @@ tr625:
 			goto _test_eof439
 		}
 	st_case_439:
-		switch data[p] {
-		case 9:
-			goto st440
-		case 32:
+		if data[p] == 10 {
 			goto st440
 		}
 		goto st0
@@ -12655,12 +12645,9 @@ tr625:
 	st_case_440:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st441
 		case 32:
-			goto st440
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr623
+			goto st441
 		}
 		goto st0
 	st441:
@@ -12669,88 +12656,89 @@ tr625:
 		}
 	st_case_441:
 		switch data[p] {
-		case 89:
-			goto st442
-		case 121:
-			goto st442
+		case 9:
+			goto st441
+		case 32:
+			goto st441
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr624
 		}
-		goto tr416
+		goto st0
 	st442:
 		if p++; p == pe {
 			goto _test_eof442
 		}
 	st_case_442:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st443
-		case 112:
+		case 121:
 			goto st443
 		}
-		goto tr416
+		goto tr417
 	st443:
 		if p++; p == pe {
 			goto _test_eof443
 		}
 	st_case_443:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st444
-		case 101:
+		case 112:
 			goto st444
 		}
-		goto tr416
+		goto tr417
 	st444:
 		if p++; p == pe {
 			goto _test_eof444
 		}
 	st_case_444:
 		switch data[p] {
-		case 9:
-			goto st365
-		case 32:
-			goto st365
-		case 58:
-			goto st366
+		case 69:
+			goto st445
+		case 101:
+			goto st445
 		}
-		goto tr416
+		goto tr417
 	st445:
 		if p++; p == pe {
 			goto _test_eof445
 		}
 	st_case_445:
 		switch data[p] {
-		case 69:
-			goto st446
-		case 101:
-			goto st446
+		case 9:
+			goto st366
+		case 32:
+			goto st366
+		case 58:
+			goto st367
 		}
-		goto tr416
+		goto tr417
 	st446:
 		if p++; p == pe {
 			goto _test_eof446
 		}
 	st_case_446:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st447
-		case 113:
+		case 101:
 			goto st447
 		}
-		goto tr416
+		goto tr417
 	st447:
 		if p++; p == pe {
 			goto _test_eof447
 		}
 	st_case_447:
 		switch data[p] {
-		case 9:
+		case 81:
 			goto st448
-		case 32:
+		case 113:
 			goto st448
-		case 58:
-			goto st449
 		}
-		goto tr416
+		goto tr417
 	st448:
 		if p++; p == pe {
 			goto _test_eof448
@@ -12758,18 +12746,32 @@ tr625:
 	st_case_448:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st449
 		case 32:
-			goto st448
-		case 58:
 			goto st449
+		case 58:
+			goto st450
 		}
-		goto st0
+		goto tr417
 	st449:
 		if p++; p == pe {
 			goto _test_eof449
 		}
 	st_case_449:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		case 58:
+			goto st450
+		}
+		goto st0
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12779,36 +12781,36 @@ tr625:
 		}
 		switch _widec {
 		case 9:
-			goto st449
+			goto st450
 		case 32:
-			goto st449
+			goto st450
 		case 525:
-			goto st456
+			goto st457
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr636
+			goto tr637
 		}
 		goto st0
-tr636:
+tr637:
 //line sip.rl:494
 msg.CSeq=0
 //line sip.rl:232
 
 	if msg.CSeq, err = appendDigit(msg.CSeq, data[p]); err != nil { return nil, err }
 
-	goto st450
-tr639:
+	goto st451
+tr640:
 //line sip.rl:232
 
 	if msg.CSeq, err = appendDigit(msg.CSeq, data[p]); err != nil { return nil, err }
 
-	goto st450
-	st450:
+	goto st451
+	st451:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof451
 		}
-	st_case_450:
-//line msg_parse.go:12803
+	st_case_451:
+//line msg_parse.go:12805
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12818,21 +12820,21 @@ tr639:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st452
 		case 32:
-			goto st451
+			goto st452
 		case 525:
-			goto st453
+			goto st454
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr639
+			goto tr640
 		}
 		goto st0
-	st451:
+	st452:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof452
 		}
-	st_case_451:
+	st_case_452:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12842,55 +12844,55 @@ tr639:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st452
 		case 32:
-			goto st451
+			goto st452
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		case 525:
-			goto st453
+			goto st454
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr642
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
-tr641:
+tr642:
 //line sip.rl:80
 
 	mark = p
 
-	goto st452
-	st452:
+	goto st453
+	st453:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof453
 		}
-	st_case_452:
-//line msg_parse.go:12885
+	st_case_453:
+//line msg_parse.go:12887
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12900,109 +12902,100 @@ tr641:
 		}
 		switch _widec {
 		case 33:
-			goto st452
+			goto st453
 		case 37:
-			goto st452
+			goto st453
 		case 39:
-			goto st452
+			goto st453
 		case 126:
-			goto st452
+			goto st453
 		case 269:
-			goto tr643
+			goto tr644
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st452
+					goto st453
 				}
 			case _widec >= 42:
-				goto st452
+				goto st453
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st452
+					goto st453
 				}
 			case _widec >= 65:
-				goto st452
+				goto st453
 			}
 		default:
-			goto st452
+			goto st453
 		}
 		goto st0
-	st453:
+	st454:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof454
 		}
-	st_case_453:
+	st_case_454:
 		if data[p] == 10 {
-			goto st454
+			goto st455
 		}
 		goto st0
-	st454:
+	st455:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof455
 		}
-	st_case_454:
+	st_case_455:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st456
 		case 32:
-			goto st455
+			goto st456
 		}
 		goto st0
-	st455:
+	st456:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof456
 		}
-	st_case_455:
+	st_case_456:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st456
 		case 32:
-			goto st455
+			goto st456
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr642
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
-		}
-		goto st0
-	st456:
-		if p++; p == pe {
-			goto _test_eof456
-		}
-	st_case_456:
-		if data[p] == 10 {
-			goto st457
+			goto tr642
 		}
 		goto st0
 	st457:
@@ -13010,10 +13003,7 @@ tr641:
 			goto _test_eof457
 		}
 	st_case_457:
-		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
+		if data[p] == 10 {
 			goto st458
 		}
 		goto st0
@@ -13024,12 +13014,9 @@ tr641:
 	st_case_458:
 		switch data[p] {
 		case 9:
-			goto st458
+			goto st459
 		case 32:
-			goto st458
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr636
+			goto st459
 		}
 		goto st0
 	st459:
@@ -13038,307 +13025,308 @@ tr641:
 		}
 	st_case_459:
 		switch data[p] {
-		case 65:
-			goto st460
-		case 97:
-			goto st460
+		case 9:
+			goto st459
+		case 32:
+			goto st459
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr637
 		}
-		goto tr416
+		goto st0
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st461
-		case 116:
+		case 97:
 			goto st461
 		}
-		goto tr416
+		goto tr417
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st462
-		case 101:
+		case 116:
 			goto st462
 		}
-		goto tr416
+		goto tr417
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 9:
-			goto tr651
-		case 32:
-			goto tr651
-		case 58:
-			goto tr652
+		case 69:
+			goto st463
+		case 101:
+			goto st463
 		}
-		goto tr416
+		goto tr417
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
 		}
-	st_case_463:
-		switch data[p] {
-		case 9:
-			goto tr606
-		case 32:
-			goto tr606
-		case 58:
-			goto tr607
-		case 82:
-			goto st464
-		case 86:
-			goto st473
-		case 88:
-			goto st477
-		case 114:
-			goto st464
-		case 118:
-			goto st473
-		case 120:
-			goto st477
+	st_case_463:
+		switch data[p] {
+		case 9:
+			goto tr652
+		case 32:
+			goto tr652
+		case 58:
+			goto tr653
 		}
-		goto tr416
+		goto tr417
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
+		case 9:
+			goto tr607
+		case 32:
+			goto tr607
+		case 58:
+			goto tr608
 		case 82:
 			goto st465
+		case 86:
+			goto st474
+		case 88:
+			goto st478
 		case 114:
 			goto st465
+		case 118:
+			goto st474
+		case 120:
+			goto st478
 		}
-		goto tr416
+		goto tr417
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st466
-		case 111:
+		case 114:
 			goto st466
 		}
-		goto tr416
+		goto tr417
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st467
-		case 114:
+		case 111:
 			goto st467
 		}
-		goto tr416
+		goto tr417
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st468
+		case 114:
 			goto st468
 		}
-		goto tr416
+		goto tr417
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
-		switch data[p] {
-		case 73:
-			goto st469
-		case 105:
+		if data[p] == 45 {
 			goto st469
 		}
-		goto tr416
+		goto tr417
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st470
-		case 110:
+		case 105:
 			goto st470
 		}
-		goto tr416
+		goto tr417
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st471
-		case 102:
+		case 110:
 			goto st471
 		}
-		goto tr416
+		goto tr417
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st472
-		case 111:
+		case 102:
 			goto st472
 		}
-		goto tr416
+		goto tr417
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
 		switch data[p] {
-		case 9:
-			goto tr664
-		case 32:
-			goto tr664
-		case 58:
-			goto tr665
+		case 79:
+			goto st473
+		case 111:
+			goto st473
 		}
-		goto tr416
+		goto tr417
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
 		}
 	st_case_473:
 		switch data[p] {
-		case 69:
-			goto st474
-		case 101:
-			goto st474
+		case 9:
+			goto tr665
+		case 32:
+			goto tr665
+		case 58:
+			goto tr666
 		}
-		goto tr416
+		goto tr417
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st475
-		case 110:
+		case 101:
 			goto st475
 		}
-		goto tr416
+		goto tr417
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st476
-		case 116:
+		case 110:
 			goto st476
 		}
-		goto tr416
+		goto tr417
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
 		switch data[p] {
-		case 9:
-			goto tr669
-		case 32:
-			goto tr669
-		case 58:
-			goto tr670
+		case 84:
+			goto st477
+		case 116:
+			goto st477
 		}
-		goto tr416
+		goto tr417
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
 		switch data[p] {
-		case 80:
-			goto st478
-		case 112:
-			goto st478
+		case 9:
+			goto tr670
+		case 32:
+			goto tr670
+		case 58:
+			goto tr671
 		}
-		goto tr416
+		goto tr417
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st479
-		case 105:
+		case 112:
 			goto st479
 		}
-		goto tr416
+		goto tr417
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st480
-		case 114:
+		case 105:
 			goto st480
 		}
-		goto tr416
+		goto tr417
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st481
-		case 101:
+		case 114:
 			goto st481
 		}
-		goto tr416
+		goto tr417
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st482
-		case 115:
+		case 101:
 			goto st482
 		}
-		goto tr416
+		goto tr417
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st483
-		case 32:
+		case 115:
 			goto st483
-		case 58:
-			goto st484
 		}
-		goto tr416
+		goto tr417
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13346,18 +13334,32 @@ tr641:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto st484
 		case 32:
-			goto st483
-		case 58:
 			goto st484
+		case 58:
+			goto st485
 		}
-		goto st0
+		goto tr417
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
+		switch data[p] {
+		case 9:
+			goto st484
+		case 32:
+			goto st484
+		case 58:
+			goto st485
+		}
+		goto st0
+	st485:
+		if p++; p == pe {
+			goto _test_eof485
+		}
+	st_case_485:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13367,36 +13369,36 @@ tr641:
 		}
 		switch _widec {
 		case 9:
-			goto st484
+			goto st485
 		case 32:
-			goto st484
+			goto st485
 		case 525:
-			goto st486
+			goto st487
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
-tr678:
+tr679:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
 
 	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
 
-	goto st485
-tr680:
+	goto st486
+tr681:
 //line sip.rl:240
 
 	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
 
-	goto st485
-	st485:
+	goto st486
+	st486:
 		if p++; p == pe {
-			goto _test_eof485
+			goto _test_eof486
 		}
-	st_case_485:
-//line msg_parse.go:13391
+	st_case_486:
+//line msg_parse.go:13393
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13405,19 +13407,10 @@ tr680:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
-		}
-		goto st0
-	st486:
-		if p++; p == pe {
-			goto _test_eof486
-		}
-	st_case_486:
-		if data[p] == 10 {
-			goto st487
+			goto tr681
 		}
 		goto st0
 	st487:
@@ -13425,10 +13418,7 @@ tr680:
 			goto _test_eof487
 		}
 	st_case_487:
-		switch data[p] {
-		case 9:
-			goto st488
-		case 32:
+		if data[p] == 10 {
 			goto st488
 		}
 		goto st0
@@ -13439,12 +13429,9 @@ tr680:
 	st_case_488:
 		switch data[p] {
 		case 9:
-			goto st488
+			goto st489
 		case 32:
-			goto st488
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto st489
 		}
 		goto st0
 	st489:
@@ -13454,55 +13441,56 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto st489
 		case 32:
-			goto tr683
-		case 58:
-			goto tr684
-		case 82:
-			goto st490
-		case 114:
-			goto st490
+			goto st489
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr679
+		}
+		goto st0
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 79:
+		case 9:
+			goto tr684
+		case 32:
+			goto tr684
+		case 58:
+			goto tr685
+		case 82:
 			goto st491
-		case 111:
+		case 114:
 			goto st491
 		}
-		goto tr416
+		goto tr417
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
 		switch data[p] {
-		case 77:
+		case 79:
 			goto st492
-		case 109:
+		case 111:
 			goto st492
 		}
-		goto tr416
+		goto tr417
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 9:
-			goto tr683
-		case 32:
-			goto tr683
-		case 58:
-			goto tr684
+		case 77:
+			goto st493
+		case 109:
+			goto st493
 		}
-		goto tr416
+		goto tr417
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13510,133 +13498,133 @@ tr680:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto tr684
 		case 32:
-			goto st376
+			goto tr684
 		case 58:
-			goto st377
-		case 78:
-			goto st494
-		case 110:
-			goto st494
+			goto tr685
 		}
-		goto tr416
+		goto tr417
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
 		}
 	st_case_494:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st377
+		case 32:
+			goto st377
+		case 58:
+			goto st378
+		case 78:
+			goto st495
+		case 110:
 			goto st495
 		}
-		goto tr416
+		goto tr417
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
-		switch data[p] {
-		case 82:
-			goto st496
-		case 114:
+		if data[p] == 45 {
 			goto st496
 		}
-		goto tr416
+		goto tr417
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st497
-		case 101:
+		case 114:
 			goto st497
 		}
-		goto tr416
+		goto tr417
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st498
-		case 112:
+		case 101:
 			goto st498
 		}
-		goto tr416
+		goto tr417
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
 		switch data[p] {
-		case 76:
+		case 80:
 			goto st499
-		case 108:
+		case 112:
 			goto st499
 		}
-		goto tr416
+		goto tr417
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st500
-		case 121:
+		case 108:
 			goto st500
 		}
-		goto tr416
+		goto tr417
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st501
+		case 121:
 			goto st501
 		}
-		goto tr416
+		goto tr417
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
-		switch data[p] {
-		case 84:
-			goto st502
-		case 116:
+		if data[p] == 45 {
 			goto st502
 		}
-		goto tr416
+		goto tr417
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st503
-		case 111:
+		case 116:
 			goto st503
 		}
-		goto tr416
+		goto tr417
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
-		switch data[p] {
-		case 9:
-			goto tr698
-		case 32:
-			goto tr698
-		case 58:
-			goto tr699
+		switch data[p] {
+		case 79:
+			goto st504
+		case 111:
+			goto st504
 		}
-		goto tr416
+		goto tr417
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
@@ -13644,13 +13632,13 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr699
 		case 32:
-			goto tr700
+			goto tr699
 		case 58:
-			goto tr701
+			goto tr700
 		}
-		goto tr416
+		goto tr417
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
@@ -13658,152 +13646,152 @@ tr680:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr701
 		case 32:
-			goto tr572
+			goto tr701
 		case 58:
-			goto tr573
-		case 65:
-			goto st506
-		case 73:
-			goto st523
-		case 97:
-			goto st506
-		case 105:
-			goto st523
+			goto tr702
 		}
-		goto tr416
+		goto tr417
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 88:
+		case 9:
+			goto tr573
+		case 32:
+			goto tr573
+		case 58:
+			goto tr574
+		case 65:
 			goto st507
-		case 120:
+		case 73:
+			goto st524
+		case 97:
 			goto st507
+		case 105:
+			goto st524
 		}
-		goto tr416
+		goto tr417
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		if data[p] == 45 {
+		switch data[p] {
+		case 88:
+			goto st508
+		case 120:
 			goto st508
 		}
-		goto tr416
+		goto tr417
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		switch data[p] {
-		case 70:
-			goto st509
-		case 102:
+		if data[p] == 45 {
 			goto st509
 		}
-		goto tr416
+		goto tr417
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st510
-		case 111:
+		case 102:
 			goto st510
 		}
-		goto tr416
+		goto tr417
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st511
-		case 114:
+		case 111:
 			goto st511
 		}
-		goto tr416
+		goto tr417
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 87:
+		case 82:
 			goto st512
-		case 119:
+		case 114:
 			goto st512
 		}
-		goto tr416
+		goto tr417
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 65:
+		case 87:
 			goto st513
-		case 97:
+		case 119:
 			goto st513
 		}
-		goto tr416
+		goto tr417
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st514
-		case 114:
+		case 97:
 			goto st514
 		}
-		goto tr416
+		goto tr417
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st515
-		case 100:
+		case 114:
 			goto st515
 		}
-		goto tr416
+		goto tr417
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
 		switch data[p] {
-		case 83:
+		case 68:
 			goto st516
-		case 115:
+		case 100:
 			goto st516
 		}
-		goto tr416
+		goto tr417
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st517
-		case 32:
+		case 115:
 			goto st517
-		case 58:
-			goto st518
 		}
-		goto tr416
+		goto tr417
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
@@ -13811,18 +13799,32 @@ tr680:
 	st_case_517:
 		switch data[p] {
 		case 9:
-			goto st517
+			goto st518
 		case 32:
-			goto st517
-		case 58:
 			goto st518
+		case 58:
+			goto st519
 		}
-		goto st0
+		goto tr417
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
+		switch data[p] {
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 58:
+			goto st519
+		}
+		goto st0
+	st519:
+		if p++; p == pe {
+			goto _test_eof519
+		}
+	st_case_519:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13832,36 +13834,36 @@ tr680:
 		}
 		switch _widec {
 		case 9:
-			goto st518
+			goto st519
 		case 32:
-			goto st518
+			goto st519
 		case 525:
-			goto st520
+			goto st521
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr716
+			goto tr717
 		}
 		goto st0
-tr716:
+tr717:
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
 
 	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
-	goto st519
-tr718:
+	goto st520
+tr719:
 //line sip.rl:244
 
 	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
-	goto st519
-	st519:
+	goto st520
+	st520:
 		if p++; p == pe {
-			goto _test_eof519
+			goto _test_eof520
 		}
-	st_case_519:
-//line msg_parse.go:13856
+	st_case_520:
+//line msg_parse.go:13858
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13870,19 +13872,10 @@ tr718:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr718
-		}
-		goto st0
-	st520:
-		if p++; p == pe {
-			goto _test_eof520
-		}
-	st_case_520:
-		if data[p] == 10 {
-			goto st521
+			goto tr719
 		}
 		goto st0
 	st521:
@@ -13890,10 +13883,7 @@ tr718:
 			goto _test_eof521
 		}
 	st_case_521:
-		switch data[p] {
-		case 9:
-			goto st522
-		case 32:
+		if data[p] == 10 {
 			goto st522
 		}
 		goto st0
@@ -13904,12 +13894,9 @@ tr718:
 	st_case_522:
 		switch data[p] {
 		case 9:
-			goto st522
+			goto st523
 		case 32:
-			goto st522
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr716
+			goto st523
 		}
 		goto st0
 	st523:
@@ -13918,242 +13905,243 @@ tr718:
 		}
 	st_case_523:
 		switch data[p] {
-		case 77:
-			goto st524
-		case 78:
-			goto st534
-		case 109:
-			goto st524
-		case 110:
-			goto st534
+		case 9:
+			goto st523
+		case 32:
+			goto st523
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr717
 		}
-		goto tr416
+		goto st0
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st525
-		case 101:
+		case 78:
+			goto st535
+		case 109:
 			goto st525
+		case 110:
+			goto st535
 		}
-		goto tr416
+		goto tr417
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st526
+		case 101:
 			goto st526
 		}
-		goto tr416
+		goto tr417
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-		switch data[p] {
-		case 86:
-			goto st527
-		case 118:
+		if data[p] == 45 {
 			goto st527
 		}
-		goto tr416
+		goto tr417
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st528
-		case 101:
+		case 118:
 			goto st528
 		}
-		goto tr416
+		goto tr417
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st529
-		case 114:
+		case 101:
 			goto st529
 		}
-		goto tr416
+		goto tr417
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st530
-		case 115:
+		case 114:
 			goto st530
 		}
-		goto tr416
+		goto tr417
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st531
-		case 105:
+		case 115:
 			goto st531
 		}
-		goto tr416
+		goto tr417
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st532
-		case 111:
+		case 105:
 			goto st532
 		}
-		goto tr416
+		goto tr417
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st533
-		case 110:
+		case 111:
 			goto st533
 		}
-		goto tr416
+		goto tr417
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
 		}
 	st_case_533:
 		switch data[p] {
-		case 9:
-			goto tr732
-		case 32:
-			goto tr732
-		case 58:
-			goto tr733
+		case 78:
+			goto st534
+		case 110:
+			goto st534
 		}
-		goto tr416
+		goto tr417
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
 		}
 	st_case_534:
-		if data[p] == 45 {
-			goto st535
+		switch data[p] {
+		case 9:
+			goto tr733
+		case 32:
+			goto tr733
+		case 58:
+			goto tr734
 		}
-		goto tr416
+		goto tr417
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
-		switch data[p] {
-		case 69:
-			goto st536
-		case 101:
+		if data[p] == 45 {
 			goto st536
 		}
-		goto tr416
+		goto tr417
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st537
-		case 120:
+		case 101:
 			goto st537
 		}
-		goto tr416
+		goto tr417
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
 		switch data[p] {
-		case 80:
+		case 88:
 			goto st538
-		case 112:
+		case 120:
 			goto st538
 		}
-		goto tr416
+		goto tr417
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st539
-		case 105:
+		case 112:
 			goto st539
 		}
-		goto tr416
+		goto tr417
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st540
-		case 114:
+		case 105:
 			goto st540
 		}
-		goto tr416
+		goto tr417
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st541
-		case 101:
+		case 114:
 			goto st541
 		}
-		goto tr416
+		goto tr417
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st542
-		case 115:
+		case 101:
 			goto st542
 		}
-		goto tr416
+		goto tr417
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st543
-		case 32:
+		case 115:
 			goto st543
-		case 58:
-			goto st544
 		}
-		goto tr416
+		goto tr417
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
@@ -14161,18 +14149,32 @@ tr718:
 	st_case_543:
 		switch data[p] {
 		case 9:
-			goto st543
+			goto st544
 		case 32:
-			goto st543
-		case 58:
 			goto st544
+		case 58:
+			goto st545
 		}
-		goto st0
+		goto tr417
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
+		switch data[p] {
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 58:
+			goto st545
+		}
+		goto st0
+	st545:
+		if p++; p == pe {
+			goto _test_eof545
+		}
+	st_case_545:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14182,36 +14184,36 @@ tr718:
 		}
 		switch _widec {
 		case 9:
-			goto st544
+			goto st545
 		case 32:
-			goto st544
+			goto st545
 		case 525:
-			goto st546
+			goto st547
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr744
+			goto tr745
 		}
 		goto st0
-tr744:
+tr745:
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
 
 	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
 
-	goto st545
-tr746:
+	goto st546
+tr747:
 //line sip.rl:248
 
 	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
 
-	goto st545
-	st545:
+	goto st546
+	st546:
 		if p++; p == pe {
-			goto _test_eof545
+			goto _test_eof546
 		}
-	st_case_545:
-//line msg_parse.go:14206
+	st_case_546:
+//line msg_parse.go:14208
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14220,19 +14222,10 @@ tr746:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr746
-		}
-		goto st0
-	st546:
-		if p++; p == pe {
-			goto _test_eof546
-		}
-	st_case_546:
-		if data[p] == 10 {
-			goto st547
+			goto tr747
 		}
 		goto st0
 	st547:
@@ -14240,10 +14233,7 @@ tr746:
 			goto _test_eof547
 		}
 	st_case_547:
-		switch data[p] {
-		case 9:
-			goto st548
-		case 32:
+		if data[p] == 10 {
 			goto st548
 		}
 		goto st0
@@ -14254,12 +14244,9 @@ tr746:
 	st_case_548:
 		switch data[p] {
 		case 9:
-			goto st548
+			goto st549
 		case 32:
-			goto st548
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr744
+			goto st549
 		}
 		goto st0
 	st549:
@@ -14269,189 +14256,192 @@ tr746:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto st549
 		case 32:
-			goto tr669
-		case 58:
-			goto tr670
-		case 82:
-			goto st550
-		case 114:
-			goto st550
+			goto st549
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr745
 		}
-		goto tr416
+		goto st0
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 71:
+		case 9:
+			goto tr670
+		case 32:
+			goto tr670
+		case 58:
+			goto tr671
+		case 82:
 			goto st551
-		case 103:
+		case 114:
 			goto st551
 		}
-		goto tr416
+		goto tr417
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st552
-		case 97:
+		case 103:
 			goto st552
 		}
-		goto tr416
+		goto tr417
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st553
-		case 110:
+		case 97:
 			goto st553
 		}
-		goto tr416
+		goto tr417
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st554
-		case 105:
+		case 110:
 			goto st554
 		}
-		goto tr416
+		goto tr417
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st555
-		case 122:
+		case 105:
 			goto st555
 		}
-		goto tr416
+		goto tr417
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st556
-		case 97:
+		case 122:
 			goto st556
 		}
-		goto tr416
+		goto tr417
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st557
-		case 116:
+		case 97:
 			goto st557
 		}
-		goto tr416
+		goto tr417
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st558
-		case 105:
+		case 116:
 			goto st558
 		}
-		goto tr416
+		goto tr417
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st559
-		case 111:
+		case 105:
 			goto st559
 		}
-		goto tr416
+		goto tr417
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st560
-		case 110:
+		case 111:
 			goto st560
 		}
-		goto tr416
+		goto tr417
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
 		switch data[p] {
-		case 9:
-			goto tr760
-		case 32:
-			goto tr760
-		case 58:
-			goto tr761
+		case 78:
+			goto st561
+		case 110:
+			goto st561
 		}
-		goto tr416
+		goto tr417
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
 		switch data[p] {
-		case 45:
-			goto st562
-		case 82:
-			goto st580
-		case 114:
-			goto st580
+		case 9:
+			goto tr761
+		case 32:
+			goto tr761
+		case 58:
+			goto tr762
 		}
-		goto tr416
+		goto tr417
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 65:
-			goto st563
-		case 97:
+		case 45:
 			goto st563
+		case 82:
+			goto st581
+		case 114:
+			goto st581
 		}
-		goto tr416
+		goto tr417
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st564
-		case 115:
+		case 97:
 			goto st564
 		}
-		goto tr416
+		goto tr417
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
@@ -14463,671 +14453,669 @@ tr746:
 		case 115:
 			goto st565
 		}
-		goto tr416
+		goto tr417
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st566
-		case 101:
+		case 115:
 			goto st566
 		}
-		goto tr416
+		goto tr417
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st567
-		case 114:
+		case 101:
 			goto st567
 		}
-		goto tr416
+		goto tr417
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st568
-		case 116:
+		case 114:
 			goto st568
 		}
-		goto tr416
+		goto tr417
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st569
-		case 101:
+		case 116:
 			goto st569
 		}
-		goto tr416
+		goto tr417
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st570
-		case 100:
+		case 101:
 			goto st570
 		}
-		goto tr416
+		goto tr417
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st571
+		case 100:
 			goto st571
 		}
-		goto tr416
+		goto tr417
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
-		switch data[p] {
-		case 73:
-			goto st572
-		case 105:
+		if data[p] == 45 {
 			goto st572
 		}
-		goto tr416
+		goto tr417
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st573
-		case 100:
+		case 105:
 			goto st573
 		}
-		goto tr416
+		goto tr417
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st574
-		case 101:
+		case 100:
 			goto st574
 		}
-		goto tr416
+		goto tr417
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st575
-		case 110:
+		case 101:
 			goto st575
 		}
-		goto tr416
+		goto tr417
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st576
-		case 116:
+		case 110:
 			goto st576
 		}
-		goto tr416
+		goto tr417
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st577
-		case 105:
+		case 116:
 			goto st577
 		}
-		goto tr416
+		goto tr417
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st578
-		case 116:
+		case 105:
 			goto st578
 		}
-		goto tr416
+		goto tr417
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st579
-		case 121:
+		case 116:
 			goto st579
 		}
-		goto tr416
+		goto tr417
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
 		switch data[p] {
-		case 9:
-			goto tr781
-		case 32:
-			goto tr781
-		case 58:
-			goto tr782
+		case 89:
+			goto st580
+		case 121:
+			goto st580
 		}
-		goto tr416
+		goto tr417
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
 		switch data[p] {
-		case 73:
-			goto st581
-		case 79:
-			goto st587
-		case 105:
-			goto st581
-		case 111:
-			goto st587
+		case 9:
+			goto tr782
+		case 32:
+			goto tr782
+		case 58:
+			goto tr783
 		}
-		goto tr416
+		goto tr417
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
+		case 73:
+			goto st582
 		case 79:
+			goto st588
+		case 105:
 			goto st582
 		case 111:
-			goto st582
+			goto st588
 		}
-		goto tr416
+		goto tr417
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st583
-		case 114:
+		case 111:
 			goto st583
 		}
-		goto tr416
+		goto tr417
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st584
-		case 105:
+		case 114:
 			goto st584
 		}
-		goto tr416
+		goto tr417
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st585
-		case 116:
+		case 105:
 			goto st585
 		}
-		goto tr416
+		goto tr417
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st586
-		case 121:
+		case 116:
 			goto st586
 		}
-		goto tr416
+		goto tr417
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 9:
-			goto tr790
-		case 32:
-			goto tr790
-		case 58:
-			goto tr791
+		case 89:
+			goto st587
+		case 121:
+			goto st587
 		}
-		goto tr416
+		goto tr417
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 88:
-			goto st588
-		case 120:
-			goto st588
+		case 9:
+			goto tr791
+		case 32:
+			goto tr791
+		case 58:
+			goto tr792
 		}
-		goto tr416
+		goto tr417
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 89:
+		case 88:
 			goto st589
-		case 121:
+		case 120:
 			goto st589
 		}
-		goto tr416
+		goto tr417
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st590
+		case 121:
 			goto st590
 		}
-		goto tr416
+		goto tr417
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
-		switch data[p] {
-		case 65:
-			goto st591
-		case 82:
-			goto st612
-		case 97:
+		if data[p] == 45 {
 			goto st591
-		case 114:
-			goto st612
 		}
-		goto tr416
+		goto tr417
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st592
-		case 117:
+		case 82:
+			goto st613
+		case 97:
 			goto st592
+		case 114:
+			goto st613
 		}
-		goto tr416
+		goto tr417
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st593
-		case 116:
+		case 117:
 			goto st593
 		}
-		goto tr416
+		goto tr417
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st594
-		case 104:
+		case 116:
 			goto st594
 		}
-		goto tr416
+		goto tr417
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st595
-		case 79:
-			goto st603
-		case 101:
+		case 104:
 			goto st595
-		case 111:
-			goto st603
 		}
-		goto tr416
+		goto tr417
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st596
-		case 110:
+		case 79:
+			goto st604
+		case 101:
 			goto st596
+		case 111:
+			goto st604
 		}
-		goto tr416
+		goto tr417
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st597
-		case 116:
+		case 110:
 			goto st597
 		}
-		goto tr416
+		goto tr417
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st598
-		case 105:
+		case 116:
 			goto st598
 		}
-		goto tr416
+		goto tr417
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st599
-		case 99:
+		case 105:
 			goto st599
 		}
-		goto tr416
+		goto tr417
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st600
-		case 97:
+		case 99:
 			goto st600
 		}
-		goto tr416
+		goto tr417
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st601
-		case 116:
+		case 97:
 			goto st601
 		}
-		goto tr416
+		goto tr417
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st602
-		case 101:
+		case 116:
 			goto st602
 		}
-		goto tr416
+		goto tr417
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 9:
-			goto tr809
-		case 32:
-			goto tr809
-		case 58:
-			goto tr810
+		case 69:
+			goto st603
+		case 101:
+			goto st603
 		}
-		goto tr416
+		goto tr417
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 82:
-			goto st604
-		case 114:
-			goto st604
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
-		goto tr416
+		goto tr417
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st605
-		case 105:
+		case 114:
 			goto st605
 		}
-		goto tr416
+		goto tr417
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st606
-		case 122:
+		case 105:
 			goto st606
 		}
-		goto tr416
+		goto tr417
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st607
-		case 97:
+		case 122:
 			goto st607
 		}
-		goto tr416
+		goto tr417
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st608
-		case 116:
+		case 97:
 			goto st608
 		}
-		goto tr416
+		goto tr417
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st609
-		case 105:
+		case 116:
 			goto st609
 		}
-		goto tr416
+		goto tr417
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st610
-		case 111:
+		case 105:
 			goto st610
 		}
-		goto tr416
+		goto tr417
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st611
-		case 110:
+		case 111:
 			goto st611
 		}
-		goto tr416
+		goto tr417
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 9:
-			goto tr819
-		case 32:
-			goto tr819
-		case 58:
-			goto tr820
+		case 78:
+			goto st612
+		case 110:
+			goto st612
 		}
-		goto tr416
+		goto tr417
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 69:
-			goto st613
-		case 101:
-			goto st613
+		case 9:
+			goto tr820
+		case 32:
+			goto tr820
+		case 58:
+			goto tr821
 		}
-		goto tr416
+		goto tr417
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st614
-		case 113:
+		case 101:
 			goto st614
 		}
-		goto tr416
+		goto tr417
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
 		switch data[p] {
-		case 85:
+		case 81:
 			goto st615
-		case 117:
+		case 113:
 			goto st615
 		}
-		goto tr416
+		goto tr417
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st616
-		case 105:
+		case 117:
 			goto st616
 		}
-		goto tr416
+		goto tr417
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st617
-		case 114:
+		case 105:
 			goto st617
 		}
-		goto tr416
+		goto tr417
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st618
-		case 101:
+		case 114:
 			goto st618
 		}
-		goto tr416
+		goto tr417
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 9:
-			goto tr827
-		case 32:
-			goto tr827
-		case 58:
-			goto tr828
+		case 69:
+			goto st619
+		case 101:
+			goto st619
 		}
-		goto tr416
+		goto tr417
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
@@ -15135,747 +15123,747 @@ tr746:
 	st_case_619:
 		switch data[p] {
 		case 9:
-			goto tr829
+			goto tr828
 		case 32:
-			goto tr829
+			goto tr828
 		case 58:
+			goto tr829
+		}
+		goto tr417
+	st620:
+		if p++; p == pe {
+			goto _test_eof620
+		}
+	st_case_620:
+		switch data[p] {
+		case 9:
+			goto tr830
+		case 32:
 			goto tr830
+		case 58:
+			goto tr831
 		case 69:
-			goto st620
+			goto st621
 		case 79:
-			goto st675
+			goto st676
 		case 101:
-			goto st620
+			goto st621
 		case 111:
-			goto st675
+			goto st676
 		}
-		goto tr416
-	st620:
+		goto tr417
+	st621:
 		if p++; p == pe {
-			goto _test_eof620
+			goto _test_eof621
 		}
-	st_case_620:
+	st_case_621:
 		switch data[p] {
 		case 67:
-			goto st621
+			goto st622
 		case 70:
-			goto st631
+			goto st632
 		case 77:
-			goto st642
+			goto st643
 		case 80:
-			goto st655
+			goto st656
 		case 81:
-			goto st661
+			goto st662
 		case 84:
-			goto st666
+			goto st667
 		case 99:
-			goto st621
+			goto st622
 		case 102:
-			goto st631
+			goto st632
 		case 109:
-			goto st642
+			goto st643
 		case 112:
-			goto st655
+			goto st656
 		case 113:
-			goto st661
+			goto st662
 		case 116:
-			goto st666
-		}
-		goto tr416
-	st621:
-		if p++; p == pe {
-			goto _test_eof621
-		}
-	st_case_621:
-		switch data[p] {
-		case 79:
-			goto st622
-		case 111:
-			goto st622
+			goto st667
 		}
-		goto tr416
+		goto tr417
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st623
-		case 114:
+		case 111:
 			goto st623
 		}
-		goto tr416
+		goto tr417
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st624
-		case 100:
+		case 114:
 			goto st624
 		}
-		goto tr416
+		goto tr417
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st625
+		case 100:
 			goto st625
 		}
-		goto tr416
+		goto tr417
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
-		switch data[p] {
-		case 82:
-			goto st626
-		case 114:
+		if data[p] == 45 {
 			goto st626
 		}
-		goto tr416
+		goto tr417
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st627
-		case 111:
+		case 114:
 			goto st627
 		}
-		goto tr416
+		goto tr417
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st628
-		case 117:
+		case 111:
 			goto st628
 		}
-		goto tr416
+		goto tr417
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st629
-		case 116:
+		case 117:
 			goto st629
 		}
-		goto tr416
+		goto tr417
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st630
-		case 101:
+		case 116:
 			goto st630
 		}
-		goto tr416
+		goto tr417
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
 		switch data[p] {
-		case 9:
-			goto tr848
-		case 32:
-			goto tr848
-		case 58:
-			goto tr849
+		case 69:
+			goto st631
+		case 101:
+			goto st631
 		}
-		goto tr416
+		goto tr417
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
 		switch data[p] {
-		case 69:
-			goto st632
-		case 101:
-			goto st632
+		case 9:
+			goto tr849
+		case 32:
+			goto tr849
+		case 58:
+			goto tr850
 		}
-		goto tr416
+		goto tr417
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st633
-		case 114:
+		case 101:
 			goto st633
 		}
-		goto tr416
+		goto tr417
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 45:
-			goto st634
 		case 82:
-			goto st637
+			goto st634
 		case 114:
-			goto st637
+			goto st634
 		}
-		goto tr416
+		goto tr417
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 84:
-			goto st635
-		case 116:
+		case 45:
 			goto st635
+		case 82:
+			goto st638
+		case 114:
+			goto st638
 		}
-		goto tr416
+		goto tr417
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st636
-		case 111:
+		case 116:
 			goto st636
 		}
-		goto tr416
+		goto tr417
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
 		switch data[p] {
-		case 9:
-			goto tr829
-		case 32:
-			goto tr829
-		case 58:
-			goto tr830
+		case 79:
+			goto st637
+		case 111:
+			goto st637
 		}
-		goto tr416
+		goto tr417
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 69:
-			goto st638
-		case 101:
-			goto st638
+		case 9:
+			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		}
-		goto tr416
+		goto tr417
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st639
-		case 100:
+		case 101:
 			goto st639
 		}
-		goto tr416
+		goto tr417
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st640
+		case 100:
 			goto st640
 		}
-		goto tr416
+		goto tr417
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
-		switch data[p] {
-		case 66:
-			goto st641
-		case 98:
+		if data[p] == 45 {
 			goto st641
 		}
-		goto tr416
+		goto tr417
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 66:
+			goto st642
+		case 98:
+			goto st642
 		}
-		goto tr416
+		goto tr417
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
 		switch data[p] {
-		case 79:
-			goto st643
-		case 111:
-			goto st643
+		case 89:
+			goto st364
+		case 121:
+			goto st364
 		}
-		goto tr416
+		goto tr417
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st644
-		case 116:
+		case 111:
 			goto st644
 		}
-		goto tr416
+		goto tr417
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st645
-		case 101:
+		case 116:
 			goto st645
 		}
-		goto tr416
+		goto tr417
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st646
+		case 101:
 			goto st646
 		}
-		goto tr416
+		goto tr417
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
-		switch data[p] {
-		case 80:
-			goto st647
-		case 112:
+		if data[p] == 45 {
 			goto st647
 		}
-		goto tr416
+		goto tr417
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
 		switch data[p] {
-		case 65:
+		case 80:
 			goto st648
-		case 97:
+		case 112:
 			goto st648
 		}
-		goto tr416
+		goto tr417
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st649
-		case 114:
+		case 97:
 			goto st649
 		}
-		goto tr416
+		goto tr417
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st650
-		case 116:
+		case 114:
 			goto st650
 		}
-		goto tr416
+		goto tr417
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st651
-		case 121:
+		case 116:
 			goto st651
 		}
-		goto tr416
+		goto tr417
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st652
+		case 121:
 			goto st652
 		}
-		goto tr416
+		goto tr417
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
-		switch data[p] {
-		case 73:
-			goto st653
-		case 105:
+		if data[p] == 45 {
 			goto st653
 		}
-		goto tr416
+		goto tr417
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st654
-		case 100:
+		case 105:
 			goto st654
 		}
-		goto tr416
+		goto tr417
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 9:
-			goto tr872
-		case 32:
-			goto tr872
-		case 58:
-			goto tr873
+		case 68:
+			goto st655
+		case 100:
+			goto st655
 		}
-		goto tr416
+		goto tr417
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 76:
-			goto st656
-		case 108:
-			goto st656
+		case 9:
+			goto tr873
+		case 32:
+			goto tr873
+		case 58:
+			goto tr874
 		}
-		goto tr416
+		goto tr417
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st657
-		case 121:
+		case 108:
 			goto st657
 		}
-		goto tr416
+		goto tr417
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st658
+		case 121:
 			goto st658
 		}
-		goto tr416
+		goto tr417
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		switch data[p] {
-		case 84:
-			goto st659
-		case 116:
+		if data[p] == 45 {
 			goto st659
 		}
-		goto tr416
+		goto tr417
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st660
-		case 111:
+		case 116:
 			goto st660
 		}
-		goto tr416
+		goto tr417
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 9:
-			goto tr879
-		case 32:
-			goto tr879
-		case 58:
-			goto tr880
+		case 79:
+			goto st661
+		case 111:
+			goto st661
 		}
-		goto tr416
+		goto tr417
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 85:
-			goto st662
-		case 117:
-			goto st662
+		case 9:
+			goto tr880
+		case 32:
+			goto tr880
+		case 58:
+			goto tr881
 		}
-		goto tr416
+		goto tr417
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st663
-		case 105:
+		case 117:
 			goto st663
 		}
-		goto tr416
+		goto tr417
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st664
-		case 114:
+		case 105:
 			goto st664
 		}
-		goto tr416
+		goto tr417
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st665
-		case 101:
+		case 114:
 			goto st665
 		}
-		goto tr416
+		goto tr417
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 9:
-			goto tr885
-		case 32:
-			goto tr885
-		case 58:
-			goto tr886
+		case 69:
+			goto st666
+		case 101:
+			goto st666
 		}
-		goto tr416
+		goto tr417
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 82:
-			goto st667
-		case 114:
-			goto st667
+		case 9:
+			goto tr886
+		case 32:
+			goto tr886
+		case 58:
+			goto tr887
 		}
-		goto tr416
+		goto tr417
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st668
-		case 121:
+		case 114:
 			goto st668
 		}
-		goto tr416
+		goto tr417
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st669
+		case 121:
 			goto st669
 		}
-		goto tr416
+		goto tr417
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
-		switch data[p] {
-		case 65:
-			goto st670
-		case 97:
+		if data[p] == 45 {
 			goto st670
 		}
-		goto tr416
+		goto tr417
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 70:
+		case 65:
 			goto st671
-		case 102:
+		case 97:
 			goto st671
 		}
-		goto tr416
+		goto tr417
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st672
-		case 116:
+		case 102:
 			goto st672
 		}
-		goto tr416
+		goto tr417
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st673
-		case 101:
+		case 116:
 			goto st673
 		}
-		goto tr416
+		goto tr417
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
 		}
 	st_case_673:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st674
-		case 114:
+		case 101:
 			goto st674
 		}
-		goto tr416
+		goto tr417
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
 		}
 	st_case_674:
 		switch data[p] {
-		case 9:
-			goto tr895
-		case 32:
-			goto tr895
-		case 58:
-			goto tr896
+		case 82:
+			goto st675
+		case 114:
+			goto st675
 		}
-		goto tr416
+		goto tr417
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
 		switch data[p] {
-		case 85:
-			goto st676
-		case 117:
-			goto st676
+		case 9:
+			goto tr896
+		case 32:
+			goto tr896
+		case 58:
+			goto tr897
 		}
-		goto tr416
+		goto tr417
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st677
-		case 116:
+		case 117:
 			goto st677
 		}
-		goto tr416
+		goto tr417
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st678
-		case 101:
+		case 116:
 			goto st678
 		}
-		goto tr416
+		goto tr417
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 9:
-			goto tr900
-		case 32:
-			goto tr900
-		case 58:
-			goto tr901
+		case 69:
+			goto st679
+		case 101:
+			goto st679
 		}
-		goto tr416
+		goto tr417
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
@@ -15883,353 +15871,353 @@ tr746:
 	st_case_679:
 		switch data[p] {
 		case 9:
-			goto tr902
+			goto tr901
 		case 32:
-			goto tr902
+			goto tr901
 		case 58:
-			goto tr903
-		case 69:
-			goto st680
-		case 85:
-			goto st685
-		case 101:
-			goto st680
-		case 117:
-			goto st685
+			goto tr902
 		}
-		goto tr416
+		goto tr417
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
+		case 69:
 			goto st681
-		case 114:
+		case 85:
+			goto st686
+		case 101:
 			goto st681
+		case 117:
+			goto st686
 		}
-		goto tr416
+		goto tr417
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 86:
+		case 82:
 			goto st682
-		case 118:
+		case 114:
 			goto st682
 		}
-		goto tr416
+		goto tr417
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st683
-		case 101:
+		case 118:
 			goto st683
 		}
-		goto tr416
+		goto tr417
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st684
-		case 114:
+		case 101:
 			goto st684
 		}
-		goto tr416
+		goto tr417
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 9:
-			goto tr910
-		case 32:
-			goto tr910
-		case 58:
-			goto tr911
+		case 82:
+			goto st685
+		case 114:
+			goto st685
 		}
-		goto tr416
+		goto tr417
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 66:
-			goto st686
-		case 80:
-			goto st691
-		case 98:
-			goto st686
-		case 112:
-			goto st691
+		case 9:
+			goto tr911
+		case 32:
+			goto tr911
+		case 58:
+			goto tr912
 		}
-		goto tr416
+		goto tr417
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 74:
+		case 66:
 			goto st687
-		case 106:
+		case 80:
+			goto st692
+		case 98:
 			goto st687
+		case 112:
+			goto st692
 		}
-		goto tr416
+		goto tr417
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 69:
+		case 74:
 			goto st688
-		case 101:
+		case 106:
 			goto st688
 		}
-		goto tr416
+		goto tr417
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st689
-		case 99:
+		case 101:
 			goto st689
 		}
-		goto tr416
+		goto tr417
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st690
-		case 116:
+		case 99:
 			goto st690
 		}
-		goto tr416
+		goto tr417
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 9:
-			goto tr902
-		case 32:
-			goto tr902
-		case 58:
-			goto tr903
+		case 84:
+			goto st691
+		case 116:
+			goto st691
 		}
-		goto tr416
+		goto tr417
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 80:
-			goto st692
-		case 112:
-			goto st692
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
 		}
-		goto tr416
+		goto tr417
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st693
-		case 111:
+		case 112:
 			goto st693
 		}
-		goto tr416
+		goto tr417
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st694
-		case 114:
+		case 111:
 			goto st694
 		}
-		goto tr416
+		goto tr417
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st695
-		case 116:
+		case 114:
 			goto st695
 		}
-		goto tr416
+		goto tr417
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st696
-		case 101:
+		case 116:
 			goto st696
 		}
-		goto tr416
+		goto tr417
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 69:
+			goto st697
+		case 101:
+			goto st697
 		}
-		goto tr416
+		goto tr417
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
 		}
 	st_case_697:
 		switch data[p] {
-		case 9:
-			goto tr923
-		case 32:
-			goto tr923
-		case 58:
-			goto tr924
-		case 73:
-			goto st698
-		case 79:
-			goto st706
-		case 105:
-			goto st698
-		case 111:
-			goto st706
+		case 68:
+			goto st505
+		case 100:
+			goto st505
 		}
-		goto tr416
+		goto tr417
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
-		case 77:
+		case 9:
+			goto tr924
+		case 32:
+			goto tr924
+		case 58:
+			goto tr925
+		case 73:
 			goto st699
-		case 109:
+		case 79:
+			goto st707
+		case 105:
 			goto st699
+		case 111:
+			goto st707
 		}
-		goto tr416
+		goto tr417
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st700
-		case 101:
+		case 109:
 			goto st700
 		}
-		goto tr416
+		goto tr417
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st701
-		case 115:
+		case 101:
 			goto st701
 		}
-		goto tr416
+		goto tr417
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st702
-		case 116:
+		case 115:
 			goto st702
 		}
-		goto tr416
+		goto tr417
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st703
-		case 97:
+		case 116:
 			goto st703
 		}
-		goto tr416
+		goto tr417
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 77:
+		case 65:
 			goto st704
-		case 109:
+		case 97:
 			goto st704
 		}
-		goto tr416
+		goto tr417
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st705
-		case 112:
+		case 109:
 			goto st705
 		}
-		goto tr416
+		goto tr417
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 9:
-			goto tr934
-		case 32:
-			goto tr934
-		case 58:
-			goto tr935
+		case 80:
+			goto st706
+		case 112:
+			goto st706
 		}
-		goto tr416
+		goto tr417
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
@@ -16237,13 +16225,13 @@ tr746:
 	st_case_706:
 		switch data[p] {
 		case 9:
-			goto tr923
+			goto tr935
 		case 32:
-			goto tr923
+			goto tr935
 		case 58:
-			goto tr924
+			goto tr936
 		}
-		goto tr416
+		goto tr417
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
@@ -16251,57 +16239,59 @@ tr746:
 	st_case_707:
 		switch data[p] {
 		case 9:
-			goto tr936
+			goto tr924
 		case 32:
-			goto tr936
+			goto tr924
 		case 58:
-			goto tr937
-		case 78:
-			goto st708
-		case 83:
-			goto st718
-		case 110:
-			goto st708
-		case 115:
-			goto st718
+			goto tr925
 		}
-		goto tr416
+		goto tr417
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
+		case 9:
+			goto tr937
+		case 32:
+			goto tr937
+		case 58:
+			goto tr938
+		case 78:
+			goto st709
 		case 83:
+			goto st719
+		case 110:
 			goto st709
 		case 115:
-			goto st709
+			goto st719
 		}
-		goto tr416
+		goto tr417
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 85:
+		case 83:
 			goto st710
-		case 117:
+		case 115:
 			goto st710
 		}
-		goto tr416
+		goto tr417
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
 		switch data[p] {
-		case 80:
+		case 85:
 			goto st711
-		case 112:
+		case 117:
 			goto st711
 		}
-		goto tr416
+		goto tr417
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
@@ -16313,188 +16303,186 @@ tr746:
 		case 112:
 			goto st712
 		}
-		goto tr416
+		goto tr417
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st713
-		case 111:
+		case 112:
 			goto st713
 		}
-		goto tr416
+		goto tr417
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st714
-		case 114:
+		case 111:
 			goto st714
 		}
-		goto tr416
+		goto tr417
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st715
-		case 116:
+		case 114:
 			goto st715
 		}
-		goto tr416
+		goto tr417
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st716
-		case 101:
+		case 116:
 			goto st716
 		}
-		goto tr416
+		goto tr417
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st717
-		case 100:
+		case 101:
 			goto st717
 		}
-		goto tr416
+		goto tr417
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
 		}
 	st_case_717:
-		switch data[p] {
-		case 9:
-			goto tr949
-		case 32:
-			goto tr949
-		case 58:
-			goto tr950
+		switch data[p] {
+		case 68:
+			goto st718
+		case 100:
+			goto st718
 		}
-		goto tr416
+		goto tr417
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
 		}
 	st_case_718:
 		switch data[p] {
-		case 69:
-			goto st719
-		case 101:
-			goto st719
+		case 9:
+			goto tr950
+		case 32:
+			goto tr950
+		case 58:
+			goto tr951
 		}
-		goto tr416
+		goto tr417
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st720
-		case 114:
+		case 101:
 			goto st720
 		}
-		goto tr416
+		goto tr417
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st721
+		case 114:
 			goto st721
 		}
-		goto tr416
+		goto tr417
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
-		switch data[p] {
-		case 65:
-			goto st722
-		case 97:
+		if data[p] == 45 {
 			goto st722
 		}
-		goto tr416
+		goto tr417
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st723
-		case 103:
+		case 97:
 			goto st723
 		}
-		goto tr416
+		goto tr417
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st724
-		case 101:
+		case 103:
 			goto st724
 		}
-		goto tr416
+		goto tr417
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st725
-		case 110:
+		case 101:
 			goto st725
 		}
-		goto tr416
+		goto tr417
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st726
-		case 116:
+		case 110:
 			goto st726
 		}
-		goto tr416
+		goto tr417
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 9:
-			goto tr959
-		case 32:
-			goto tr959
-		case 58:
-			goto tr960
+		case 84:
+			goto st727
+		case 116:
+			goto st727
 		}
-		goto tr416
+		goto tr417
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
@@ -16502,17 +16490,13 @@ tr746:
 	st_case_727:
 		switch data[p] {
 		case 9:
-			goto st728
+			goto tr960
 		case 32:
-			goto st728
+			goto tr960
 		case 58:
-			goto st729
-		case 73:
-			goto st733
-		case 105:
-			goto st733
+			goto tr961
 		}
-		goto tr416
+		goto tr417
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
@@ -16520,18 +16504,36 @@ tr746:
 	st_case_728:
 		switch data[p] {
 		case 9:
-			goto st728
+			goto st729
 		case 32:
-			goto st728
-		case 58:
 			goto st729
+		case 58:
+			goto st730
+		case 73:
+			goto st734
+		case 105:
+			goto st734
 		}
-		goto st0
+		goto tr417
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
+		switch data[p] {
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 58:
+			goto st730
+		}
+		goto st0
+	st730:
+		if p++; p == pe {
+			goto _test_eof730
+		}
+	st_case_730:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -16541,30 +16543,21 @@ tr746:
 		}
 		switch _widec {
 		case 9:
-			goto st729
+			goto st730
 		case 32:
-			goto st729
+			goto st730
 		case 269:
-			goto tr964
+			goto tr965
 		case 525:
-			goto st730
+			goto st731
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr964
+				goto tr965
 			}
 		default:
-			goto tr964
-		}
-		goto st0
-	st730:
-		if p++; p == pe {
-			goto _test_eof730
-		}
-	st_case_730:
-		if data[p] == 10 {
-			goto st731
+			goto tr965
 		}
 		goto st0
 	st731:
@@ -16572,10 +16565,7 @@ tr746:
 			goto _test_eof731
 		}
 	st_case_731:
-		switch data[p] {
-		case 9:
-			goto st732
-		case 32:
+		if data[p] == 10 {
 			goto st732
 		}
 		goto st0
@@ -16586,315 +16576,318 @@ tr746:
 	st_case_732:
 		switch data[p] {
 		case 9:
-			goto st732
+			goto st733
 		case 32:
-			goto st732
+			goto st733
 		}
-		goto tr964
+		goto st0
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 65:
-			goto st734
-		case 97:
-			goto st734
+		case 9:
+			goto st733
+		case 32:
+			goto st733
 		}
-		goto tr416
+		goto tr965
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
 		switch data[p] {
-		case 9:
-			goto st728
-		case 32:
-			goto st728
-		case 58:
-			goto st729
+		case 65:
+			goto st735
+		case 97:
+			goto st735
 		}
-		goto tr416
+		goto tr417
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 65:
-			goto st736
-		case 87:
-			goto st742
-		case 97:
-			goto st736
-		case 119:
-			goto st742
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 58:
+			goto st730
 		}
-		goto tr416
+		goto tr417
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st737
-		case 114:
+		case 87:
+			goto st743
+		case 97:
 			goto st737
+		case 119:
+			goto st743
 		}
-		goto tr416
+		goto tr417
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st738
-		case 110:
+		case 114:
 			goto st738
 		}
-		goto tr416
+		goto tr417
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st739
-		case 105:
+		case 110:
 			goto st739
 		}
-		goto tr416
+		goto tr417
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st740
-		case 110:
+		case 105:
 			goto st740
 		}
-		goto tr416
+		goto tr417
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st741
-		case 103:
+		case 110:
 			goto st741
 		}
-		goto tr416
+		goto tr417
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 9:
-			goto tr976
-		case 32:
-			goto tr976
-		case 58:
-			goto tr977
+		case 71:
+			goto st742
+		case 103:
+			goto st742
 		}
-		goto tr416
+		goto tr417
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 87:
-			goto st743
-		case 119:
-			goto st743
+		case 9:
+			goto tr977
+		case 32:
+			goto tr977
+		case 58:
+			goto tr978
 		}
-		goto tr416
+		goto tr417
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
-		if data[p] == 45 {
+		switch data[p] {
+		case 87:
+			goto st744
+		case 119:
 			goto st744
 		}
-		goto tr416
+		goto tr417
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
-		switch data[p] {
-		case 65:
-			goto st745
-		case 97:
+		if data[p] == 45 {
 			goto st745
 		}
-		goto tr416
+		goto tr417
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st746
-		case 117:
+		case 97:
 			goto st746
 		}
-		goto tr416
+		goto tr417
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st747
-		case 116:
+		case 117:
 			goto st747
 		}
-		goto tr416
+		goto tr417
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
 		}
 	st_case_747:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st748
-		case 104:
+		case 116:
 			goto st748
 		}
-		goto tr416
+		goto tr417
 	st748:
 		if p++; p == pe {
 			goto _test_eof748
 		}
 	st_case_748:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st749
-		case 101:
+		case 104:
 			goto st749
 		}
-		goto tr416
+		goto tr417
 	st749:
 		if p++; p == pe {
 			goto _test_eof749
 		}
 	st_case_749:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st750
-		case 110:
+		case 101:
 			goto st750
 		}
-		goto tr416
+		goto tr417
 	st750:
 		if p++; p == pe {
 			goto _test_eof750
 		}
 	st_case_750:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st751
-		case 116:
+		case 110:
 			goto st751
 		}
-		goto tr416
+		goto tr417
 	st751:
 		if p++; p == pe {
 			goto _test_eof751
 		}
 	st_case_751:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st752
-		case 105:
+		case 116:
 			goto st752
 		}
-		goto tr416
+		goto tr417
 	st752:
 		if p++; p == pe {
 			goto _test_eof752
 		}
 	st_case_752:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st753
-		case 99:
+		case 105:
 			goto st753
 		}
-		goto tr416
+		goto tr417
 	st753:
 		if p++; p == pe {
 			goto _test_eof753
 		}
 	st_case_753:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st754
-		case 97:
+		case 99:
 			goto st754
 		}
-		goto tr416
+		goto tr417
 	st754:
 		if p++; p == pe {
 			goto _test_eof754
 		}
 	st_case_754:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st755
-		case 116:
+		case 97:
 			goto st755
 		}
-		goto tr416
+		goto tr417
 	st755:
 		if p++; p == pe {
 			goto _test_eof755
 		}
 	st_case_755:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st756
-		case 101:
+		case 116:
 			goto st756
 		}
-		goto tr416
+		goto tr417
 	st756:
 		if p++; p == pe {
 			goto _test_eof756
 		}
 	st_case_756:
 		switch data[p] {
-		case 9:
-			goto tr992
-		case 32:
-			goto tr992
-		case 58:
-			goto tr993
+		case 69:
+			goto st757
+		case 101:
+			goto st757
 		}
-		goto tr416
+		goto tr417
 	st757:
 		if p++; p == pe {
 			goto _test_eof757
 		}
 	st_case_757:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto tr993
+		case 32:
+			goto tr993
+		case 58:
 			goto tr994
 		}
-		goto st0
+		goto tr417
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -17192,10 +17185,10 @@ tr746:
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17673,14 +17666,14 @@ tr746:
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
+		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
 	{goto st273 }
 
-//line msg_parse.go:17675
+//line msg_parse.go:17668
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index e48cf2c..e5d8c75 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -501,7 +501,8 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 #
 # The header machine parses a single header and then jumps to itself to
 # loop. When the final CRLF is observed, we then break out of the Ragel
-# parser and let the Go code handle payload extraction.
+# parser and let the Go code handle payload extraction. There's no such thing as
+# a line continuation there, since whitespace belongs to the payload.
 #
 # Parsing standard header names is a prefix trie search in generated code.
 # Lookahead to set the mark on the header name. In order to support
@@ -535,7 +536,7 @@ sheader  = cheader <: CRLF @goto_header
          | sname $!gxh HCOLON <: any @hold @goto_value
          | ("Via"i | "v"i) $!gxh HCOLON <: any @ViaNew @hold @goto_via
          | ("Content-Type"i | "c"i) $!gxh HCOLON <: any @hold @goto_ctype;
-header  := CRLF @break
+header  := CR LF @break
          | tokenc @mark @hold sheader;
 
 # Start Line Parsing
-- 
2.43.0


From 9cdf096ad109b8ac2d6203872bb430723b6340cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 30/45] fix: reason phrase of 504

RFC 3261 calls it "Server Time-out"; "Gateway Time-out" is HTTP.
---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d5b47c3..94142a9 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -178,7 +178,7 @@ var phrases = map[int]string{
 	StatusNotImplemented:               "Not Implemented",
 	StatusBadGateway:                   "Bad Gateway",
 	StatusServiceUnavailable:           "Service Unavailable",
-	StatusGatewayTimeout:               "Gateway Time-out",
+	StatusGatewayTimeout:               "Server Time-out",
 	StatusVersionNotSupported:          "Version Not Supported",
 	StatusMessageTooLarge:              "Message Too Large",
 	StatusPreconditionFailure:          "Precondition Failure",
-- 
2.43.0


From 0e00ad6c8ef43311523f260f03290a37cbfe6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 31/45] fix: body without a content type formatted with an
 empty one

The parser accepts a body without Content-Type, but not an empty Content-Type.
---
 sip/msg.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sip/msg.go b/sip/msg.go
index 99847aa..e9666b3 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -455,9 +455,11 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	msg.XHeader.Append(b)
 
 	if msg.Payload != nil {
-		b.WriteString("Content-Type: ")
-		b.WriteString(msg.Payload.ContentType())
-		b.WriteString("\r\n")
+		if ctype := msg.Payload.ContentType(); ctype != "" {
+			b.WriteString("Content-Type: ")
+			b.WriteString(ctype)
+			b.WriteString("\r\n")
+		}
 		payload := msg.Payload.Data()
 		b.WriteString("Content-Length: ")
 		b.WriteString(strconv.Itoa(len(payload)))
-- 
2.43.0


From 626f219e621e0d4afda72e584c128477a6eea330 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 32/45] fix: addresses without angle brackets rejected when
 followed by ", " or "; "

The comma or semicolon was taken for a part of the URI as well, which then
could not be parsed.
---
 sip/msg_parse.go | 7381 +++++++++++++++++++++-------------------------
 sip/sip.rl       |    2 +-
 2 files changed, 3345 insertions(+), 4038 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index ffa9c32..45fc63b 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 758
+const msg_first_final int = 748
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -39,10 +39,10 @@ const msg_en_via int = 103
 const msg_en_addr_param int = 153
 const msg_en_addr_angled int = 188
 const msg_en_addr_uri int = 229
-const msg_en_addr int = 256
-const msg_en_value int = 263
-const msg_en_xheader int = 273
-const msg_en_header int = 280
+const msg_en_addr int = 246
+const msg_en_value int = 253
+const msg_en_xheader int = 263
+const msg_en_header int = 270
 const msg_en_main int = 1
 
 
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 758:
-		goto st_case_758
+	case 748:
+		goto st_case_748
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 759:
-		goto st_case_759
+	case 749:
+		goto st_case_749
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 760:
-		goto st_case_760
+	case 750:
+		goto st_case_750
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 761:
-		goto st_case_761
+	case 751:
+		goto st_case_751
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 762:
-		goto st_case_762
+	case 752:
+		goto st_case_752
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 763:
-		goto st_case_763
+	case 753:
+		goto st_case_753
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 764:
-		goto st_case_764
+	case 754:
+		goto st_case_754
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,24 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 765:
-		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
+	case 755:
+		goto st_case_755
 	case 249:
 		goto st_case_249
-	case 766:
-		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 767:
-		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 768:
-		goto st_case_768
-	case 769:
-		goto st_case_769
-	case 770:
-		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,12 +622,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 771:
-		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
 		goto st_case_260
+	case 756:
+		goto st_case_756
 	case 261:
 		goto st_case_261
 	case 262:
@@ -650,6 +640,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_265
 	case 266:
 		goto st_case_266
+	case 757:
+		goto st_case_757
 	case 267:
 		goto st_case_267
 	case 268:
@@ -658,10 +650,10 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 772:
-		goto st_case_772
 	case 271:
 		goto st_case_271
+	case 758:
+		goto st_case_758
 	case 272:
 		goto st_case_272
 	case 273:
@@ -672,8 +664,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 773:
-		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -684,8 +674,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_280
 	case 281:
 		goto st_case_281
-	case 774:
-		goto st_case_774
 	case 282:
 		goto st_case_282
 	case 283:
@@ -1618,26 +1606,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_746
 	case 747:
 		goto st_case_747
-	case 748:
-		goto st_case_748
-	case 749:
-		goto st_case_749
-	case 750:
-		goto st_case_750
-	case 751:
-		goto st_case_751
-	case 752:
-		goto st_case_752
-	case 753:
-		goto st_case_753
-	case 754:
-		goto st_case_754
-	case 755:
-		goto st_case_755
-	case 756:
-		goto st_case_756
-	case 757:
-		goto st_case_757
 	}
 	goto st_out
 	st_case_1:
@@ -1676,15 +1644,15 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr417:
+tr397:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
-	{goto st273 }
+	{goto st263 }
 
 	goto st0
-//line msg_parse.go:1679
+//line msg_parse.go:1647
 st_case_0:
 	st0:
 		cs = 0
@@ -1700,7 +1668,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1695
+//line msg_parse.go:1663
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1747,7 +1715,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1742
+//line msg_parse.go:1710
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1763,7 +1731,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1758
+//line msg_parse.go:1726
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1780,7 +1748,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1775
+//line msg_parse.go:1743
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1832,7 +1800,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1827
+//line msg_parse.go:1795
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1860,7 +1828,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1855
+//line msg_parse.go:1823
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1886,21 +1854,21 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1881
+//line msg_parse.go:1849
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
 //line sip.rl:257
- {goto st280 } 
-	goto st758
-	st758:
+ {goto st270 } 
+	goto st748
+	st748:
 		if p++; p == pe {
-			goto _test_eof758
+			goto _test_eof748
 		}
-	st_case_758:
-//line msg_parse.go:1895
+	st_case_748:
+//line msg_parse.go:1863
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1913,7 +1881,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1908
+//line msg_parse.go:1876
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2050,7 +2018,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2045
+//line msg_parse.go:2013
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2078,7 +2046,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2073
+//line msg_parse.go:2041
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2106,7 +2074,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2101
+//line msg_parse.go:2069
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2122,7 +2090,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2117
+//line msg_parse.go:2085
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2138,7 +2106,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2133
+//line msg_parse.go:2101
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2232,7 +2200,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2227
+//line msg_parse.go:2195
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2306,7 +2274,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2301
+//line msg_parse.go:2269
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2331,7 +2299,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2326
+//line msg_parse.go:2294
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2368,7 +2336,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2363
+//line msg_parse.go:2331
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2396,7 +2364,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2391
+//line msg_parse.go:2359
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2424,7 +2392,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2419
+//line msg_parse.go:2387
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2452,7 +2420,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2447
+//line msg_parse.go:2415
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2480,7 +2448,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2475
+//line msg_parse.go:2443
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2534,7 +2502,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2529
+//line msg_parse.go:2497
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2669,7 +2637,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2664
+//line msg_parse.go:2632
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2699,7 +2667,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2694
+//line msg_parse.go:2662
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2941,21 +2909,21 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2936
+//line msg_parse.go:2904
 		if data[p] == 10 {
 			goto tr65
 		}
 		goto st0
 tr65:
 //line sip.rl:257
- {goto st280 } 
-	goto st759
-	st759:
+ {goto st270 } 
+	goto st749
+	st749:
 		if p++; p == pe {
-			goto _test_eof759
+			goto _test_eof749
 		}
-	st_case_759:
-//line msg_parse.go:2950
+	st_case_749:
+//line msg_parse.go:2918
 		goto st0
 tr52:
 //line sip.rl:228
@@ -2968,7 +2936,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2963
+//line msg_parse.go:2931
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3071,7 +3039,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3066
+//line msg_parse.go:3034
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3127,7 +3095,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3122
+//line msg_parse.go:3090
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3159,7 +3127,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3154
+//line msg_parse.go:3122
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3196,7 +3164,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3191
+//line msg_parse.go:3159
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3224,7 +3192,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3219
+//line msg_parse.go:3187
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3252,7 +3220,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3247
+//line msg_parse.go:3215
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3280,7 +3248,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3275
+//line msg_parse.go:3243
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3308,7 +3276,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3303
+//line msg_parse.go:3271
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3336,7 +3304,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3331
+//line msg_parse.go:3299
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3353,7 +3321,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3348
+//line msg_parse.go:3316
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3577,7 +3545,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3572
+//line msg_parse.go:3540
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3638,7 +3606,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3633
+//line msg_parse.go:3601
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3672,7 +3640,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3667
+//line msg_parse.go:3635
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3721,7 +3689,7 @@ tr106:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st760
+	goto st750
 tr110:
 //line sip.rl:167
 
@@ -3738,7 +3706,7 @@ tr110:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st760
+	goto st750
 tr122:
 //line sip.rl:167
 
@@ -3751,14 +3719,14 @@ tr122:
 	via = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st760
-	st760:
+ {goto st270 } 
+	goto st750
+	st750:
 		if p++; p == pe {
-			goto _test_eof760
+			goto _test_eof750
 		}
-	st_case_760:
-//line msg_parse.go:3753
+	st_case_750:
+//line msg_parse.go:3721
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3804,7 +3772,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3799
+//line msg_parse.go:3767
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3875,7 +3843,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3870
+//line msg_parse.go:3838
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3938,7 +3906,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3933
+//line msg_parse.go:3901
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4061,7 +4029,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4056
+//line msg_parse.go:4024
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4138,7 +4106,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4133
+//line msg_parse.go:4101
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4194,7 +4162,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4189
+//line msg_parse.go:4157
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4228,7 +4196,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4223
+//line msg_parse.go:4191
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4265,7 +4233,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4260
+//line msg_parse.go:4228
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4293,7 +4261,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4288
+//line msg_parse.go:4256
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4321,7 +4289,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4316
+//line msg_parse.go:4284
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4349,7 +4317,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4344
+//line msg_parse.go:4312
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4377,7 +4345,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4372
+//line msg_parse.go:4340
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4405,7 +4373,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4400
+//line msg_parse.go:4368
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4422,7 +4390,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4417
+//line msg_parse.go:4385
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4508,7 +4476,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4503
+//line msg_parse.go:4471
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4592,7 +4560,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4587
+//line msg_parse.go:4555
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4647,7 +4615,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4642
+//line msg_parse.go:4610
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4677,7 +4645,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4672
+//line msg_parse.go:4640
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4735,7 +4703,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4730
+//line msg_parse.go:4698
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4790,7 +4758,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4785
+//line msg_parse.go:4753
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4820,7 +4788,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4815
+//line msg_parse.go:4783
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4878,7 +4846,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4873
+//line msg_parse.go:4841
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4936,7 +4904,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4931
+//line msg_parse.go:4899
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4983,7 +4951,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4978
+//line msg_parse.go:4946
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5036,7 +5004,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5031
+//line msg_parse.go:4999
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5070,7 +5038,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5065
+//line msg_parse.go:5033
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5115,7 +5083,7 @@ tr184:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st761
+	goto st751
 tr193:
 //line sip.rl:72
 
@@ -5128,7 +5096,7 @@ tr193:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st761
+	goto st751
 tr199:
 //line sip.rl:141
 
@@ -5137,14 +5105,14 @@ tr199:
 	via = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st761
-	st761:
+ {goto st270 } 
+	goto st751
+	st751:
 		if p++; p == pe {
-			goto _test_eof761
+			goto _test_eof751
 		}
-	st_case_761:
-//line msg_parse.go:5139
+	st_case_751:
+//line msg_parse.go:5107
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5190,7 +5158,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5185
+//line msg_parse.go:5153
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5221,7 +5189,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5216
+//line msg_parse.go:5184
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5283,7 +5251,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5278
+//line msg_parse.go:5246
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5391,7 +5359,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5386
+//line msg_parse.go:5354
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5443,7 +5411,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5438
+//line msg_parse.go:5406
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5510,7 +5478,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5505
+//line msg_parse.go:5473
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5541,7 +5509,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5536
+//line msg_parse.go:5504
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5577,7 +5545,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5572
+//line msg_parse.go:5540
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5699,7 +5667,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5694
+//line msg_parse.go:5662
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5804,7 +5772,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5799
+//line msg_parse.go:5767
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5888,7 +5856,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5883
+//line msg_parse.go:5851
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5949,7 +5917,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5944
+//line msg_parse.go:5912
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5983,7 +5951,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5978
+//line msg_parse.go:5946
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6027,8 +5995,8 @@ tr230:
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st762
+ {goto st246 } 
+	goto st752
 tr234:
 //line sip.rl:210
 
@@ -6041,7 +6009,7 @@ tr234:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st762
+	goto st752
 tr246:
 //line sip.rl:210
 
@@ -6054,14 +6022,14 @@ tr246:
 	addr = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st762
-	st762:
+ {goto st270 } 
+	goto st752
+	st752:
 		if p++; p == pe {
-			goto _test_eof762
+			goto _test_eof752
 		}
-	st_case_762:
-//line msg_parse.go:6056
+	st_case_752:
+//line msg_parse.go:6024
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6107,7 +6075,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6102
+//line msg_parse.go:6070
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6178,7 +6146,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6173
+//line msg_parse.go:6141
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6241,7 +6209,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6236
+//line msg_parse.go:6204
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6364,7 +6332,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6359
+//line msg_parse.go:6327
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6441,7 +6409,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6436
+//line msg_parse.go:6404
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6497,7 +6465,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6492
+//line msg_parse.go:6460
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6531,7 +6499,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6526
+//line msg_parse.go:6494
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6568,7 +6536,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6563
+//line msg_parse.go:6531
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6596,7 +6564,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6591
+//line msg_parse.go:6559
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6624,7 +6592,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6619
+//line msg_parse.go:6587
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6652,7 +6620,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6647
+//line msg_parse.go:6615
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6680,7 +6648,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6675
+//line msg_parse.go:6643
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6708,7 +6676,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6703
+//line msg_parse.go:6671
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6725,7 +6693,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6720
+//line msg_parse.go:6688
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6811,7 +6779,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6806
+//line msg_parse.go:6774
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6912,7 +6880,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6907
+//line msg_parse.go:6875
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6952,7 +6920,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6947
+//line msg_parse.go:6915
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6973,7 +6941,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6968
+//line msg_parse.go:6936
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7070,7 +7038,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7065
+//line msg_parse.go:7033
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7137,8 +7105,8 @@ tr285:
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st763
+ {goto st246 } 
+	goto st753
 tr289:
 //line sip.rl:72
 
@@ -7147,7 +7115,7 @@ tr289:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st763
+	goto st753
 tr293:
 //line sip.rl:214
 
@@ -7156,14 +7124,14 @@ tr293:
 	addr = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st763
-	st763:
+ {goto st270 } 
+	goto st753
+	st753:
 		if p++; p == pe {
-			goto _test_eof763
+			goto _test_eof753
 		}
-	st_case_763:
-//line msg_parse.go:7158
+	st_case_753:
+//line msg_parse.go:7126
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7377,7 +7345,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7372
+//line msg_parse.go:7340
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7419,7 +7387,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7414
+//line msg_parse.go:7382
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7481,7 +7449,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7476
+//line msg_parse.go:7444
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7545,7 +7513,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7540
+//line msg_parse.go:7508
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7577,7 +7545,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7572
+//line msg_parse.go:7540
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7637,7 +7605,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7632
+//line msg_parse.go:7600
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7705,7 +7673,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7700
+//line msg_parse.go:7668
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7761,7 +7729,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7756
+//line msg_parse.go:7724
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7791,7 +7759,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7786
+//line msg_parse.go:7754
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7828,7 +7796,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7823
+//line msg_parse.go:7791
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7856,7 +7824,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7851
+//line msg_parse.go:7819
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7884,7 +7852,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7879
+//line msg_parse.go:7847
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7912,7 +7880,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7907
+//line msg_parse.go:7875
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7940,7 +7908,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7935
+//line msg_parse.go:7903
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7968,7 +7936,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7963
+//line msg_parse.go:7931
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7985,7 +7953,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7980
+//line msg_parse.go:7948
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8054,12 +8022,17 @@ tr332:
 			goto st232
 		}
 		switch {
-		case data[p] < 63:
-			if 36 <= data[p] && data[p] <= 59 {
+		case data[p] < 45:
+			if 36 <= data[p] && data[p] <= 43 {
 				goto st232
 			}
-		case data[p] > 91:
-			if 97 <= data[p] && data[p] <= 122 {
+		case data[p] > 58:
+			switch {
+			case data[p] > 91:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto st232
+				}
+			case data[p] >= 63:
 				goto st232
 			}
 		default:
@@ -8127,7 +8100,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8122
+//line msg_parse.go:8095
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8148,11 +8121,19 @@ tr336:
 			goto st242
 		}
 		goto st0
+tr337:
+//line sip.rl:205
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st234
 	st234:
 		if p++; p == pe {
 			goto _test_eof234
 		}
 	st_case_234:
+//line msg_parse.go:8128
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8192,8 +8173,8 @@ tr345:
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st764
+ {goto st246 } 
+	goto st754
 tr349:
 //line sip.rl:72
 
@@ -8202,8 +8183,8 @@ tr349:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st764
-tr375:
+	goto st754
+tr355:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8211,14 +8192,14 @@ tr375:
 	addr = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st764
-	st764:
+ {goto st270 } 
+	goto st754
+	st754:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof754
 		}
-	st_case_764:
-//line msg_parse.go:8213
+	st_case_754:
+//line msg_parse.go:8194
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8253,11 +8234,19 @@ tr375:
 			goto st237
 		}
 		goto tr345
+tr338:
+//line sip.rl:205
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st238
 	st238:
 		if p++; p == pe {
 			goto _test_eof238
 		}
 	st_case_238:
+//line msg_parse.go:8241
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8329,7 +8318,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8324
+//line msg_parse.go:8313
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8362,7 +8351,7 @@ tr340:
 			goto st238
 		}
 		goto st0
-tr337:
+tr339:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8374,73 +8363,69 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8369
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
+//line msg_parse.go:8358
+		if data[p] == 10 {
 			goto tr355
+		}
+		goto st0
+	st246:
+		if p++; p == pe {
+			goto _test_eof246
+		}
+	st_case_246:
+		switch data[p] {
 		case 33:
 			goto tr356
-		case 44:
-			goto tr337
-		case 59:
+		case 34:
 			goto tr357
+		case 37:
+			goto tr356
+		case 39:
+			goto tr356
 		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
+			goto tr357
 		case 126:
 			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
 		}
 		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
+		case data[p] < 48:
+			switch {
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr356
+				}
+			case data[p] >= 42:
+				goto tr356
 			}
-		case _widec > 35:
+		case data[p] > 57:
 			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
+			case data[p] < 95:
+				if 65 <= data[p] && data[p] <= 90 {
+					goto tr358
+				}
+			case data[p] > 96:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto tr358
 				}
-			case _widec >= 36:
+			default:
 				goto tr356
 			}
 		default:
-			goto tr345
+			goto tr356
 		}
 		goto st0
-tr355:
-//line sip.rl:205
+tr356:
+//line sip.rl:80
 
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
+	mark = p
 
-	goto st246
-	st246:
+	goto st247
+	st247:
 		if p++; p == pe {
-			goto _test_eof246
+			goto _test_eof247
 		}
-	st_case_246:
-//line msg_parse.go:8435
+	st_case_247:
+//line msg_parse.go:8420
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8450,48 +8435,48 @@ tr355:
 		}
 		switch _widec {
 		case 9:
-			goto st246
+			goto st248
 		case 32:
-			goto st246
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		case 269:
-			goto tr345
-		case 525:
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 126:
 			goto st247
+		case 525:
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr345
+			goto st247
 		}
 		goto st0
-tr361:
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st765
-	st765:
+	st248:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof248
 		}
-	st_case_765:
-//line msg_parse.go:8486
+	st_case_248:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8501,708 +8486,46 @@ tr361:
 		}
 		switch _widec {
 		case 9:
-			goto st238
+			goto st248
 		case 32:
-			goto st238
-		case 269:
-			goto tr349
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 60:
+			goto tr362
+		case 126:
+			goto st247
 		case 525:
-			goto st239
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr349
+			goto st247
 		}
 		goto st0
-tr359:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8525
-		if data[p] == 10 {
-			goto st248
-		}
-		goto st0
-	st248:
-		if p++; p == pe {
-			goto _test_eof248
-		}
-	st_case_248:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		}
-		goto st0
-	st249:
-		if p++; p == pe {
-			goto _test_eof249
-		}
-	st_case_249:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		}
-		goto tr345
-tr356:
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st766
-tr366:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st766
-	st766:
-		if p++; p == pe {
-			goto _test_eof766
-		}
-	st_case_766:
-//line msg_parse.go:8587
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr336
-		case 32:
-			goto tr336
-		case 33:
-			goto st232
-		case 44:
-			goto tr337
-		case 59:
-			goto tr338
-		case 61:
-			goto st232
-		case 93:
-			goto st232
-		case 95:
-			goto st232
-		case 126:
-			goto st232
-		case 269:
-			goto tr339
-		case 525:
-			goto tr340
-		}
-		switch {
-		case _widec < 63:
-			if 36 <= _widec && _widec <= 58 {
-				goto st232
-			}
-		case _widec > 91:
-			if 97 <= _widec && _widec <= 122 {
-				goto st232
-			}
-		default:
-			goto st232
-		}
-		goto st0
-tr338:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st250
-	st250:
-		if p++; p == pe {
-			goto _test_eof250
-		}
-	st_case_250:
-//line msg_parse.go:8644
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr365:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st251
-	st251:
-		if p++; p == pe {
-			goto _test_eof251
-		}
-	st_case_251:
-//line msg_parse.go:8710
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st251
-		case 32:
-			goto st251
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		case 269:
-			goto tr349
-		case 525:
-			goto st252
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr371:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st767
-	st767:
-		if p++; p == pe {
-			goto _test_eof767
-		}
-	st_case_767:
-//line msg_parse.go:8755
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st234
-		case 32:
-			goto st234
-		case 269:
-			goto tr345
-		case 525:
-			goto st235
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr369:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st252
-	st252:
-		if p++; p == pe {
-			goto _test_eof252
-		}
-	st_case_252:
-//line msg_parse.go:8794
-		if data[p] == 10 {
-			goto st253
-		}
-		goto st0
-	st253:
-		if p++; p == pe {
-			goto _test_eof253
-		}
-	st_case_253:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		}
-		goto st0
-	st254:
-		if p++; p == pe {
-			goto _test_eof254
-		}
-	st_case_254:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		}
-		goto tr349
-tr367:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st768
-	st768:
-		if p++; p == pe {
-			goto _test_eof768
-		}
-	st_case_768:
-//line msg_parse.go:8846
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
-			goto tr355
-		case 33:
-			goto tr356
-		case 44:
-			goto tr337
-		case 59:
-			goto tr357
-		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
-		case 126:
-			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
-				}
-			case _widec >= 36:
-				goto tr356
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr357:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st769
-	st769:
-		if p++; p == pe {
-			goto _test_eof769
-		}
-	st_case_769:
-//line msg_parse.go:8925
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr358:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st770
-tr368:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st770
-	st770:
-		if p++; p == pe {
-			goto _test_eof770
-		}
-	st_case_770:
-//line msg_parse.go:9018
-		if data[p] == 10 {
-			goto tr375
-		}
-		goto st0
-tr339:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st255
-	st255:
-		if p++; p == pe {
-			goto _test_eof255
-		}
-	st_case_255:
-//line msg_parse.go:9035
-		if data[p] == 10 {
-			goto tr375
-		}
-		goto st0
-	st256:
-		if p++; p == pe {
-			goto _test_eof256
-		}
-	st_case_256:
-		switch data[p] {
-		case 33:
-			goto tr376
-		case 34:
-			goto tr377
-		case 37:
-			goto tr376
-		case 39:
-			goto tr376
-		case 60:
-			goto tr377
-		case 126:
-			goto tr376
-		}
-		switch {
-		case data[p] < 48:
-			switch {
-			case data[p] > 43:
-				if 45 <= data[p] && data[p] <= 46 {
-					goto tr376
-				}
-			case data[p] >= 42:
-				goto tr376
-			}
-		case data[p] > 57:
-			switch {
-			case data[p] < 95:
-				if 65 <= data[p] && data[p] <= 90 {
-					goto tr378
-				}
-			case data[p] > 96:
-				if 97 <= data[p] && data[p] <= 122 {
-					goto tr378
-				}
-			default:
-				goto tr376
-			}
-		default:
-			goto tr376
-		}
-		goto st0
-tr376:
-//line sip.rl:80
-
-	mark = p
-
-	goto st257
-	st257:
-		if p++; p == pe {
-			goto _test_eof257
-		}
-	st_case_257:
-//line msg_parse.go:9097
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-	st258:
-		if p++; p == pe {
-			goto _test_eof258
-		}
-	st_case_258:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 60:
-			goto tr382
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-tr377:
+tr357:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9214,8 +8537,8 @@ tr377:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st771
-tr382:
+	goto st755
+tr362:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9227,8 +8550,8 @@ tr382:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st771
-tr386:
+	goto st755
+tr366:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9240,91 +8563,91 @@ tr386:
 
 //line sip.rl:255
  {goto st229 } 
-	goto st771
-	st771:
+	goto st755
+	st755:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof755
 		}
-	st_case_771:
-//line msg_parse.go:9241
+	st_case_755:
+//line msg_parse.go:8564
 		goto st0
-	st259:
+	st249:
 		if p++; p == pe {
-			goto _test_eof259
+			goto _test_eof249
 		}
-	st_case_259:
+	st_case_249:
 		if data[p] == 10 {
-			goto st260
+			goto st250
 		}
 		goto st0
-	st260:
+	st250:
 		if p++; p == pe {
-			goto _test_eof260
+			goto _test_eof250
 		}
-	st_case_260:
+	st_case_250:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		}
 		goto st0
-	st261:
+	st251:
 		if p++; p == pe {
-			goto _test_eof261
+			goto _test_eof251
 		}
-	st_case_261:
+	st_case_251:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 60:
-			goto tr382
+			goto tr362
 		case 126:
-			goto st257
+			goto st247
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 42:
-				goto st257
+				goto st247
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 65:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st257
+			goto st247
 		}
 		goto st0
-tr378:
+tr358:
 //line sip.rl:80
 
 	mark = p
 
-	goto st262
-	st262:
+	goto st252
+	st252:
 		if p++; p == pe {
-			goto _test_eof262
+			goto _test_eof252
 		}
-	st_case_262:
-//line msg_parse.go:9319
+	st_case_252:
+//line msg_parse.go:8642
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9334,54 +8657,54 @@ tr378:
 		}
 		switch _widec {
 		case 9:
-			goto st258
+			goto st248
 		case 32:
-			goto st258
+			goto st248
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 42:
-			goto st257
+			goto st247
 		case 43:
-			goto st262
+			goto st252
 		case 58:
-			goto tr386
+			goto tr366
 		case 126:
-			goto st257
+			goto st247
 		case 525:
-			goto st259
+			goto st249
 		}
 		switch {
 		case _widec < 65:
 			switch {
 			case _widec > 46:
 				if 48 <= _widec && _widec <= 57 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 45:
-				goto st262
+				goto st252
 			}
 		case _widec > 90:
 			switch {
 			case _widec > 96:
 				if 97 <= _widec && _widec <= 122 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 95:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st262
+			goto st252
 		}
 		goto st0
-	st263:
+	st253:
 		if p++; p == pe {
-			goto _test_eof263
+			goto _test_eof253
 		}
-	st_case_263:
+	st_case_253:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9391,51 +8714,51 @@ tr378:
 		}
 		switch _widec {
 		case 9:
-			goto tr387
+			goto tr367
 		case 269:
-			goto tr393
+			goto tr373
 		case 525:
-			goto tr394
+			goto tr374
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr388
+					goto tr368
 				}
 			case _widec >= 32:
-				goto tr387
+				goto tr367
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr390
+					goto tr370
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr392
+					goto tr372
 				}
 			default:
-				goto tr391
+				goto tr371
 			}
 		default:
-			goto tr389
+			goto tr369
 		}
 		goto st0
-tr387:
+tr367:
 //line sip.rl:80
 
 	mark = p
 
-	goto st264
-	st264:
+	goto st254
+	st254:
 		if p++; p == pe {
-			goto _test_eof264
+			goto _test_eof254
 		}
-	st_case_264:
-//line msg_parse.go:9430
+	st_case_254:
+//line msg_parse.go:8753
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9445,136 +8768,136 @@ tr387:
 		}
 		switch _widec {
 		case 9:
-			goto st264
+			goto st254
 		case 269:
-			goto st270
+			goto st260
 		case 525:
-			goto st271
+			goto st261
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto st265
+					goto st255
 				}
 			case _widec >= 32:
-				goto st264
+				goto st254
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto st267
+					goto st257
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto st269
+					goto st259
 				}
 			default:
-				goto st268
+				goto st258
 			}
 		default:
-			goto st266
+			goto st256
 		}
 		goto st0
-tr388:
+tr368:
 //line sip.rl:80
 
 	mark = p
 
-	goto st265
-	st265:
+	goto st255
+	st255:
 		if p++; p == pe {
-			goto _test_eof265
+			goto _test_eof255
 		}
-	st_case_265:
-//line msg_parse.go:9484
+	st_case_255:
+//line msg_parse.go:8807
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st264
+			goto st254
 		}
 		goto st0
-tr389:
+tr369:
 //line sip.rl:80
 
 	mark = p
 
-	goto st266
-	st266:
+	goto st256
+	st256:
 		if p++; p == pe {
-			goto _test_eof266
+			goto _test_eof256
 		}
-	st_case_266:
-//line msg_parse.go:9500
+	st_case_256:
+//line msg_parse.go:8823
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st265
+			goto st255
 		}
 		goto st0
-tr390:
+tr370:
 //line sip.rl:80
 
 	mark = p
 
-	goto st267
-	st267:
+	goto st257
+	st257:
 		if p++; p == pe {
-			goto _test_eof267
+			goto _test_eof257
 		}
-	st_case_267:
-//line msg_parse.go:9516
+	st_case_257:
+//line msg_parse.go:8839
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st266
+			goto st256
 		}
 		goto st0
-tr391:
+tr371:
 //line sip.rl:80
 
 	mark = p
 
-	goto st268
-	st268:
+	goto st258
+	st258:
 		if p++; p == pe {
-			goto _test_eof268
+			goto _test_eof258
 		}
-	st_case_268:
-//line msg_parse.go:9532
+	st_case_258:
+//line msg_parse.go:8855
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st267
+			goto st257
 		}
 		goto st0
-tr392:
+tr372:
 //line sip.rl:80
 
 	mark = p
 
-	goto st269
-	st269:
+	goto st259
+	st259:
 		if p++; p == pe {
-			goto _test_eof269
+			goto _test_eof259
 		}
-	st_case_269:
-//line msg_parse.go:9548
+	st_case_259:
+//line msg_parse.go:8871
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st268
+			goto st258
 		}
 		goto st0
-tr393:
+tr373:
 //line sip.rl:80
 
 	mark = p
 
-	goto st270
-	st270:
+	goto st260
+	st260:
 		if p++; p == pe {
-			goto _test_eof270
+			goto _test_eof260
 		}
-	st_case_270:
-//line msg_parse.go:9564
+	st_case_260:
+//line msg_parse.go:8887
 		if data[p] == 10 {
-			goto tr403
+			goto tr383
 		}
 		goto st0
-tr403:
+tr383:
 //line sip.rl:180
 {
 	b := data[mark:p - 1]
@@ -9585,158 +8908,158 @@ tr403:
 	}
 }
 //line sip.rl:257
- {goto st280 } 
-	goto st772
-	st772:
+ {goto st270 } 
+	goto st756
+	st756:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof756
 		}
-	st_case_772:
-//line msg_parse.go:9587
+	st_case_756:
+//line msg_parse.go:8910
 		goto st0
-tr394:
+tr374:
 //line sip.rl:80
 
 	mark = p
 
-	goto st271
-	st271:
+	goto st261
+	st261:
 		if p++; p == pe {
-			goto _test_eof271
+			goto _test_eof261
 		}
-	st_case_271:
-//line msg_parse.go:9600
+	st_case_261:
+//line msg_parse.go:8923
 		if data[p] == 10 {
-			goto st272
+			goto st262
 		}
 		goto st0
-	st272:
+	st262:
 		if p++; p == pe {
-			goto _test_eof272
+			goto _test_eof262
 		}
-	st_case_272:
+	st_case_262:
 		switch data[p] {
 		case 9:
-			goto st264
+			goto st254
 		case 32:
-			goto st264
+			goto st254
 		}
 		goto st0
-	st273:
+	st263:
 		if p++; p == pe {
-			goto _test_eof273
+			goto _test_eof263
 		}
-	st_case_273:
+	st_case_263:
 		switch data[p] {
 		case 33:
-			goto st274
+			goto st264
 		case 37:
-			goto st274
+			goto st264
 		case 39:
-			goto st274
+			goto st264
 		case 126:
-			goto st274
+			goto st264
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st264
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st264
 			}
 		default:
-			goto st274
+			goto st264
 		}
 		goto st0
-	st274:
+	st264:
 		if p++; p == pe {
-			goto _test_eof274
+			goto _test_eof264
 		}
-	st_case_274:
+	st_case_264:
 		switch data[p] {
 		case 9:
-			goto tr406
+			goto tr386
 		case 32:
-			goto tr406
+			goto tr386
 		case 33:
-			goto st274
+			goto st264
 		case 37:
-			goto st274
+			goto st264
 		case 39:
-			goto st274
+			goto st264
 		case 58:
-			goto tr407
+			goto tr387
 		case 126:
-			goto st274
+			goto st264
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st264
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st264
 			}
 		default:
-			goto st274
+			goto st264
 		}
 		goto st0
-tr406:
+tr386:
 //line sip.rl:176
 
 	name = string(data[mark:p])
 
-	goto st275
-	st275:
+	goto st265
+	st265:
 		if p++; p == pe {
-			goto _test_eof275
+			goto _test_eof265
 		}
-	st_case_275:
-//line msg_parse.go:9710
+	st_case_265:
+//line msg_parse.go:9033
 		switch data[p] {
 		case 9:
-			goto st275
+			goto st265
 		case 32:
-			goto st275
+			goto st265
 		case 58:
-			goto st276
+			goto st266
 		}
 		goto st0
-tr407:
+tr387:
 //line sip.rl:176
 
 	name = string(data[mark:p])
 
-	goto st276
-	st276:
+	goto st266
+	st266:
 		if p++; p == pe {
-			goto _test_eof276
+			goto _test_eof266
 		}
-	st_case_276:
-//line msg_parse.go:9731
+	st_case_266:
+//line msg_parse.go:9054
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9746,24 +9069,24 @@ tr407:
 		}
 		switch _widec {
 		case 9:
-			goto st276
+			goto st266
 		case 32:
-			goto st276
+			goto st266
 		case 269:
-			goto tr410
+			goto tr390
 		case 525:
-			goto st277
+			goto st267
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr410
+				goto tr390
 			}
 		default:
-			goto tr410
+			goto tr390
 		}
 		goto st0
-tr410:
+tr390:
 //line sip.rl:533
 value=nil
 //line sip.rl:72
@@ -9772,117 +9095,117 @@ value=nil
 
 
 //line sip.rl:258
- {goto st263 } 
-	goto st773
-	st773:
+ {goto st253 } 
+	goto st757
+	st757:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof757
 		}
-	st_case_773:
-//line msg_parse.go:9774
+	st_case_757:
+//line msg_parse.go:9097
 		goto st0
-	st277:
+	st267:
 		if p++; p == pe {
-			goto _test_eof277
+			goto _test_eof267
 		}
-	st_case_277:
+	st_case_267:
 		if data[p] == 10 {
-			goto st278
+			goto st268
 		}
 		goto st0
-	st278:
+	st268:
 		if p++; p == pe {
-			goto _test_eof278
+			goto _test_eof268
 		}
-	st_case_278:
+	st_case_268:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st269
 		case 32:
-			goto st279
+			goto st269
 		}
 		goto st0
-	st279:
+	st269:
 		if p++; p == pe {
-			goto _test_eof279
+			goto _test_eof269
 		}
-	st_case_279:
+	st_case_269:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st269
 		case 32:
-			goto st279
+			goto st269
 		}
-		goto tr410
-	st280:
+		goto tr390
+	st270:
 		if p++; p == pe {
-			goto _test_eof280
+			goto _test_eof270
 		}
-	st_case_280:
+	st_case_270:
 		switch data[p] {
 		case 13:
-			goto st281
+			goto st271
 		case 33:
-			goto tr415
+			goto tr395
 		case 37:
-			goto tr415
+			goto tr395
 		case 39:
-			goto tr415
+			goto tr395
 		case 126:
-			goto tr415
+			goto tr395
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr415
+					goto tr395
 				}
 			case data[p] >= 42:
-				goto tr415
+				goto tr395
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr415
+					goto tr395
 				}
 			case data[p] >= 65:
-				goto tr415
+				goto tr395
 			}
 		default:
-			goto tr415
+			goto tr395
 		}
 		goto st0
-	st281:
+	st271:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof271
 		}
-	st_case_281:
+	st_case_271:
 		if data[p] == 10 {
-			goto tr416
+			goto tr396
 		}
 		goto st0
-tr560:
+tr540:
 //line sip.rl:257
- {goto st280 } 
-	goto st774
-tr416:
+ {goto st270 } 
+	goto st758
+tr396:
 //line sip.rl:76
 
-	{p++; cs = 774; goto _out }
+	{p++; cs = 758; goto _out }
 
-	goto st774
-tr443:
+	goto st758
+tr423:
 //line sip.rl:72
 
 	p--
 
 
 //line sip.rl:258
- {goto st263 } 
-	goto st774
-tr542:
+ {goto st253 } 
+	goto st758
+tr522:
 //line sip.rl:72
 
 	p--
@@ -9890,8 +9213,8 @@ tr542:
 
 //line sip.rl:256
  {goto st34 } 
-	goto st774
-tr577:
+	goto st758
+tr557:
 //line sip.rl:535
 value=nil
 //line sip.rl:72
@@ -9900,9 +9223,9 @@ value=nil
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st774
-tr965:
+ {goto st246 } 
+	goto st758
+tr945:
 //line sip.rl:137
 
 	via = new(Via)
@@ -9914,15 +9237,15 @@ tr965:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st774
-	st774:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof758
 		}
-	st_case_774:
-//line msg_parse.go:9915
+	st_case_758:
+//line msg_parse.go:9238
 		goto st0
-tr415:
+tr395:
 //line sip.rl:80
 
 	mark = p
@@ -9932,435 +9255,435 @@ tr415:
 	p--
 
 
-	goto st282
-	st282:
+	goto st272
+	st272:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof272
 		}
-	st_case_282:
-//line msg_parse.go:9933
+	st_case_272:
+//line msg_parse.go:9256
 		switch data[p] {
 		case 65:
-			goto st283
+			goto st273
 		case 66:
-			goto st364
+			goto st354
 		case 67:
-			goto st365
+			goto st355
 		case 68:
-			goto st460
+			goto st450
 		case 69:
-			goto st464
+			goto st454
 		case 70:
-			goto st490
+			goto st480
 		case 73:
-			goto st494
+			goto st484
 		case 75:
-			goto st505
+			goto st495
 		case 76:
-			goto st435
+			goto st425
 		case 77:
-			goto st506
+			goto st496
 		case 79:
-			goto st550
+			goto st540
 		case 80:
-			goto st562
+			goto st552
 		case 82:
-			goto st620
+			goto st610
 		case 83:
-			goto st680
+			goto st670
 		case 84:
-			goto st698
+			goto st688
 		case 85:
-			goto st708
+			goto st698
 		case 86:
-			goto st728
+			goto st718
 		case 87:
-			goto st736
+			goto st726
 		case 97:
-			goto st283
+			goto st273
 		case 98:
-			goto st364
+			goto st354
 		case 99:
-			goto st365
+			goto st355
 		case 100:
-			goto st460
+			goto st450
 		case 101:
-			goto st464
+			goto st454
 		case 102:
-			goto st490
+			goto st480
 		case 105:
-			goto st494
+			goto st484
 		case 107:
-			goto st505
+			goto st495
 		case 108:
-			goto st435
+			goto st425
 		case 109:
-			goto st506
+			goto st496
 		case 111:
-			goto st550
+			goto st540
 		case 112:
-			goto st562
+			goto st552
 		case 114:
-			goto st620
+			goto st610
 		case 115:
-			goto st680
+			goto st670
 		case 116:
-			goto st698
+			goto st688
 		case 117:
-			goto st708
+			goto st698
 		case 118:
-			goto st728
+			goto st718
 		case 119:
-			goto st736
+			goto st726
 		}
-		goto tr417
-	st283:
+		goto tr397
+	st273:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof273
 		}
-	st_case_283:
+	st_case_273:
 		switch data[p] {
 		case 9:
-			goto tr436
+			goto tr416
 		case 32:
-			goto tr436
+			goto tr416
 		case 58:
-			goto tr437
+			goto tr417
 		case 67:
-			goto st289
+			goto st279
 		case 76:
-			goto st318
+			goto st308
 		case 85:
-			goto st337
+			goto st327
 		case 99:
-			goto st289
+			goto st279
 		case 108:
-			goto st318
+			goto st308
 		case 117:
-			goto st337
+			goto st327
 		}
-		goto tr417
-tr436:
+		goto tr397
+tr416:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st284
-tr451:
+	goto st274
+tr431:
 //line sip.rl:450
 value=&msg.Accept
-	goto st284
-tr470:
+	goto st274
+tr450:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st284
-tr479:
+	goto st274
+tr459:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st284
-tr490:
+	goto st274
+tr470:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st284
-tr494:
+	goto st274
+tr474:
 //line sip.rl:454
 value=&msg.Allow
-	goto st284
-tr503:
+	goto st274
+tr483:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr523:
+	goto st274
+tr503:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st284
-tr533:
+	goto st274
+tr513:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st284
-tr535:
+	goto st274
+tr515:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st284
-tr565:
+	goto st274
+tr545:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st284
-tr598:
+	goto st274
+tr578:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st284
-tr607:
+	goto st274
+tr587:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st284
-tr617:
+	goto st274
+tr597:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st284
-tr652:
+	goto st274
+tr632:
 //line sip.rl:463
 value=&msg.Date
-	goto st284
-tr665:
+	goto st274
+tr645:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st284
-tr670:
+	goto st274
+tr650:
 //line sip.rl:465
 value=&msg.Event
-	goto st284
-tr699:
+	goto st274
+tr679:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st284
-tr701:
+	goto st274
+tr681:
 //line sip.rl:480
 value=&msg.Supported
-	goto st284
-tr733:
+	goto st274
+tr713:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st284
-tr761:
+	goto st274
+tr741:
 //line sip.rl:469
 value=&msg.Organization
-	goto st284
-tr791:
+	goto st274
+tr771:
 //line sip.rl:470
 value=&msg.Priority
-	goto st284
-tr810:
+	goto st274
+tr790:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st284
-tr820:
+	goto st274
+tr800:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st284
-tr828:
+	goto st274
+tr808:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st284
-tr830:
+	goto st274
+tr810:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st284
-tr880:
+	goto st274
+tr860:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st284
-tr886:
+	goto st274
+tr866:
 //line sip.rl:476
 value=&msg.Require
-	goto st284
-tr896:
+	goto st274
+tr876:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st284
-tr903:
+	goto st274
+tr883:
 //line sip.rl:479
 value=&msg.Subject
-	goto st284
-tr911:
+	goto st274
+tr891:
 //line sip.rl:478
 value=&msg.Server
-	goto st284
-tr935:
+	goto st274
+tr915:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st284
-tr937:
+	goto st274
+tr917:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr950:
+	goto st274
+tr930:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st284
-tr960:
+	goto st274
+tr940:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st284
-tr977:
+	goto st274
+tr957:
 //line sip.rl:484
 value=&msg.Warning
-	goto st284
-tr993:
+	goto st274
+tr973:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st274
+	st274:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof274
 		}
-	st_case_284:
-//line msg_parse.go:10190
+	st_case_274:
+//line msg_parse.go:9513
 		switch data[p] {
 		case 9:
-			goto st284
+			goto st274
 		case 32:
-			goto st284
+			goto st274
 		case 58:
-			goto st285
+			goto st275
 		}
 		goto st0
-tr437:
+tr417:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st285
-tr453:
+	goto st275
+tr433:
 //line sip.rl:450
 value=&msg.Accept
-	goto st285
-tr471:
+	goto st275
+tr451:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st285
-tr480:
+	goto st275
+tr460:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st285
-tr491:
+	goto st275
+tr471:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st285
-tr496:
+	goto st275
+tr476:
 //line sip.rl:454
 value=&msg.Allow
-	goto st285
-tr504:
+	goto st275
+tr484:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st285
-tr524:
+	goto st275
+tr504:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st285
-tr534:
+	goto st275
+tr514:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st285
-tr536:
+	goto st275
+tr516:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st285
-tr566:
+	goto st275
+tr546:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st285
-tr599:
+	goto st275
+tr579:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st285
-tr608:
+	goto st275
+tr588:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st285
-tr618:
+	goto st275
+tr598:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st285
-tr653:
+	goto st275
+tr633:
 //line sip.rl:463
 value=&msg.Date
-	goto st285
-tr666:
+	goto st275
+tr646:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st285
-tr671:
+	goto st275
+tr651:
 //line sip.rl:465
 value=&msg.Event
-	goto st285
-tr700:
+	goto st275
+tr680:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st285
-tr702:
+	goto st275
+tr682:
 //line sip.rl:480
 value=&msg.Supported
-	goto st285
-tr734:
+	goto st275
+tr714:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st285
-tr762:
+	goto st275
+tr742:
 //line sip.rl:469
 value=&msg.Organization
-	goto st285
-tr792:
+	goto st275
+tr772:
 //line sip.rl:470
 value=&msg.Priority
-	goto st285
-tr811:
+	goto st275
+tr791:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st285
-tr821:
+	goto st275
+tr801:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st285
-tr829:
+	goto st275
+tr809:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st285
-tr831:
+	goto st275
+tr811:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st285
-tr881:
+	goto st275
+tr861:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st285
-tr887:
+	goto st275
+tr867:
 //line sip.rl:476
 value=&msg.Require
-	goto st285
-tr897:
+	goto st275
+tr877:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st285
-tr904:
+	goto st275
+tr884:
 //line sip.rl:479
 value=&msg.Subject
-	goto st285
-tr912:
+	goto st275
+tr892:
 //line sip.rl:478
 value=&msg.Server
-	goto st285
-tr936:
+	goto st275
+tr916:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st285
-tr938:
+	goto st275
+tr918:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st285
-tr951:
+	goto st275
+tr931:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st285
-tr961:
+	goto st275
+tr941:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st285
-tr978:
+	goto st275
+tr958:
 //line sip.rl:484
 value=&msg.Warning
-	goto st285
-tr994:
+	goto st275
+tr974:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st285
-	st285:
+	goto st275
+	st275:
 		if p++; p == pe {
-			goto _test_eof285
+			goto _test_eof275
 		}
-	st_case_285:
-//line msg_parse.go:10355
+	st_case_275:
+//line msg_parse.go:9678
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10370,56 +9693,188 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st285
+			goto st275
 		case 32:
-			goto st285
+			goto st275
 		case 269:
-			goto tr443
+			goto tr423
 		case 525:
-			goto st286
+			goto st276
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr443
+				goto tr423
 			}
 		default:
-			goto tr443
+			goto tr423
+		}
+		goto st0
+	st276:
+		if p++; p == pe {
+			goto _test_eof276
+		}
+	st_case_276:
+		if data[p] == 10 {
+			goto st277
+		}
+		goto st0
+	st277:
+		if p++; p == pe {
+			goto _test_eof277
+		}
+	st_case_277:
+		switch data[p] {
+		case 9:
+			goto st278
+		case 32:
+			goto st278
+		}
+		goto st0
+	st278:
+		if p++; p == pe {
+			goto _test_eof278
+		}
+	st_case_278:
+		switch data[p] {
+		case 9:
+			goto st278
+		case 32:
+			goto st278
+		}
+		goto tr423
+	st279:
+		if p++; p == pe {
+			goto _test_eof279
+		}
+	st_case_279:
+		switch data[p] {
+		case 67:
+			goto st280
+		case 99:
+			goto st280
+		}
+		goto tr397
+	st280:
+		if p++; p == pe {
+			goto _test_eof280
+		}
+	st_case_280:
+		switch data[p] {
+		case 69:
+			goto st281
+		case 101:
+			goto st281
+		}
+		goto tr397
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		switch data[p] {
+		case 80:
+			goto st282
+		case 112:
+			goto st282
+		}
+		goto tr397
+	st282:
+		if p++; p == pe {
+			goto _test_eof282
+		}
+	st_case_282:
+		switch data[p] {
+		case 84:
+			goto st283
+		case 116:
+			goto st283
+		}
+		goto tr397
+	st283:
+		if p++; p == pe {
+			goto _test_eof283
+		}
+	st_case_283:
+		switch data[p] {
+		case 9:
+			goto tr431
+		case 32:
+			goto tr431
+		case 45:
+			goto st284
+		case 58:
+			goto tr433
+		}
+		goto tr397
+	st284:
+		if p++; p == pe {
+			goto _test_eof284
+		}
+	st_case_284:
+		switch data[p] {
+		case 67:
+			goto st285
+		case 69:
+			goto st292
+		case 76:
+			goto st300
+		case 99:
+			goto st285
+		case 101:
+			goto st292
+		case 108:
+			goto st300
+		}
+		goto tr397
+	st285:
+		if p++; p == pe {
+			goto _test_eof285
+		}
+	st_case_285:
+		switch data[p] {
+		case 79:
+			goto st286
+		case 111:
+			goto st286
 		}
-		goto st0
+		goto tr397
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st287
+		case 110:
 			goto st287
 		}
-		goto st0
+		goto tr397
 	st287:
 		if p++; p == pe {
 			goto _test_eof287
 		}
 	st_case_287:
 		switch data[p] {
-		case 9:
+		case 84:
 			goto st288
-		case 32:
+		case 116:
 			goto st288
 		}
-		goto st0
+		goto tr397
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 9:
-			goto st288
-		case 32:
-			goto st288
+		case 65:
+			goto st289
+		case 97:
+			goto st289
 		}
-		goto tr443
+		goto tr397
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
@@ -10431,422 +9886,416 @@ value=&msg.WWWAuthenticate
 		case 99:
 			goto st290
 		}
-		goto tr417
+		goto tr397
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st291
-		case 101:
+		case 116:
 			goto st291
 		}
-		goto tr417
+		goto tr397
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 80:
-			goto st292
-		case 112:
-			goto st292
+		case 9:
+			goto tr416
+		case 32:
+			goto tr416
+		case 58:
+			goto tr417
 		}
-		goto tr417
+		goto tr397
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st293
-		case 116:
+		case 110:
 			goto st293
 		}
-		goto tr417
+		goto tr397
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 9:
-			goto tr451
-		case 32:
-			goto tr451
-		case 45:
+		case 67:
+			goto st294
+		case 99:
 			goto st294
-		case 58:
-			goto tr453
 		}
-		goto tr417
+		goto tr397
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st295
-		case 69:
-			goto st302
-		case 76:
-			goto st310
-		case 99:
+		case 111:
 			goto st295
-		case 101:
-			goto st302
-		case 108:
-			goto st310
 		}
-		goto tr417
+		goto tr397
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st296
-		case 111:
+		case 100:
 			goto st296
 		}
-		goto tr417
+		goto tr397
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st297
-		case 110:
+		case 105:
 			goto st297
 		}
-		goto tr417
+		goto tr397
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st298
-		case 116:
+		case 110:
 			goto st298
 		}
-		goto tr417
+		goto tr397
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st299
-		case 97:
+		case 103:
 			goto st299
 		}
-		goto tr417
+		goto tr397
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 67:
-			goto st300
-		case 99:
-			goto st300
+		case 9:
+			goto tr450
+		case 32:
+			goto tr450
+		case 58:
+			goto tr451
 		}
-		goto tr417
+		goto tr397
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st301
-		case 116:
+		case 97:
 			goto st301
 		}
-		goto tr417
+		goto tr397
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 9:
-			goto tr436
-		case 32:
-			goto tr436
-		case 58:
-			goto tr437
+		case 78:
+			goto st302
+		case 110:
+			goto st302
 		}
-		goto tr417
+		goto tr397
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st303
-		case 110:
+		case 103:
 			goto st303
 		}
-		goto tr417
+		goto tr397
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st304
-		case 99:
+		case 117:
 			goto st304
 		}
-		goto tr417
+		goto tr397
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st305
-		case 111:
+		case 97:
 			goto st305
 		}
-		goto tr417
+		goto tr397
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 68:
+		case 71:
 			goto st306
-		case 100:
+		case 103:
 			goto st306
 		}
-		goto tr417
+		goto tr397
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st307
-		case 105:
+		case 101:
 			goto st307
 		}
-		goto tr417
+		goto tr397
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 78:
-			goto st308
-		case 110:
-			goto st308
+		case 9:
+			goto tr459
+		case 32:
+			goto tr459
+		case 58:
+			goto tr460
 		}
-		goto tr417
+		goto tr397
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st309
-		case 103:
+		case 76:
+			goto st317
+		case 101:
 			goto st309
+		case 108:
+			goto st317
 		}
-		goto tr417
+		goto tr397
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 9:
-			goto tr470
-		case 32:
-			goto tr470
-		case 58:
-			goto tr471
+		case 82:
+			goto st310
+		case 114:
+			goto st310
 		}
-		goto tr417
+		goto tr397
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st311
-		case 97:
+		case 116:
 			goto st311
 		}
-		goto tr417
+		goto tr397
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
-		switch data[p] {
-		case 78:
-			goto st312
-		case 110:
+		if data[p] == 45 {
 			goto st312
 		}
-		goto tr417
+		goto tr397
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st313
-		case 103:
+		case 105:
 			goto st313
 		}
-		goto tr417
+		goto tr397
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 85:
+		case 78:
 			goto st314
-		case 117:
+		case 110:
 			goto st314
 		}
-		goto tr417
+		goto tr397
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 65:
+		case 70:
 			goto st315
-		case 97:
+		case 102:
 			goto st315
 		}
-		goto tr417
+		goto tr397
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 71:
+		case 79:
 			goto st316
-		case 103:
+		case 111:
 			goto st316
 		}
-		goto tr417
+		goto tr397
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 69:
-			goto st317
-		case 101:
-			goto st317
+		case 9:
+			goto tr470
+		case 32:
+			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr417
+		goto tr397
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 9:
-			goto tr479
-		case 32:
-			goto tr479
-		case 58:
-			goto tr480
+		case 79:
+			goto st318
+		case 111:
+			goto st318
 		}
-		goto tr417
+		goto tr397
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 69:
+		case 87:
 			goto st319
-		case 76:
-			goto st327
-		case 101:
+		case 119:
 			goto st319
-		case 108:
-			goto st327
 		}
-		goto tr417
+		goto tr397
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 82:
-			goto st320
-		case 114:
+		case 9:
+			goto tr474
+		case 32:
+			goto tr474
+		case 45:
 			goto st320
+		case 58:
+			goto tr476
 		}
-		goto tr417
+		goto tr397
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st321
-		case 116:
+		case 101:
 			goto st321
 		}
-		goto tr417
+		goto tr397
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
-		if data[p] == 45 {
+		switch data[p] {
+		case 86:
+			goto st322
+		case 118:
 			goto st322
 		}
-		goto tr417
+		goto tr397
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st323
-		case 105:
+		case 101:
 			goto st323
 		}
-		goto tr417
+		goto tr397
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
@@ -10858,31 +10307,31 @@ value=&msg.WWWAuthenticate
 		case 110:
 			goto st324
 		}
-		goto tr417
+		goto tr397
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 70:
+		case 84:
 			goto st325
-		case 102:
+		case 116:
 			goto st325
 		}
-		goto tr417
+		goto tr397
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st326
-		case 111:
+		case 115:
 			goto st326
 		}
-		goto tr417
+		goto tr397
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
@@ -10890,251 +10339,244 @@ value=&msg.WWWAuthenticate
 	st_case_326:
 		switch data[p] {
 		case 9:
-			goto tr490
+			goto tr483
 		case 32:
-			goto tr490
+			goto tr483
 		case 58:
-			goto tr491
+			goto tr484
 		}
-		goto tr417
+		goto tr397
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st328
-		case 111:
+		case 116:
 			goto st328
 		}
-		goto tr417
+		goto tr397
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 87:
+		case 72:
 			goto st329
-		case 119:
+		case 104:
 			goto st329
 		}
-		goto tr417
+		goto tr397
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 9:
-			goto tr494
-		case 32:
-			goto tr494
-		case 45:
+		case 69:
 			goto st330
-		case 58:
-			goto tr496
+		case 79:
+			goto st345
+		case 101:
+			goto st330
+		case 111:
+			goto st345
 		}
-		goto tr417
+		goto tr397
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st331
-		case 101:
+		case 110:
 			goto st331
 		}
-		goto tr417
+		goto tr397
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 86:
+		case 84:
 			goto st332
-		case 118:
+		case 116:
 			goto st332
 		}
-		goto tr417
+		goto tr397
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st333
-		case 101:
+		case 105:
 			goto st333
 		}
-		goto tr417
+		goto tr397
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st334
-		case 110:
+		case 99:
 			goto st334
 		}
-		goto tr417
+		goto tr397
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st335
-		case 116:
+		case 97:
 			goto st335
 		}
-		goto tr417
+		goto tr397
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st336
-		case 115:
+		case 116:
 			goto st336
 		}
-		goto tr417
+		goto tr397
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 9:
-			goto tr503
-		case 32:
-			goto tr503
-		case 58:
-			goto tr504
+		case 73:
+			goto st337
+		case 105:
+			goto st337
 		}
-		goto tr417
+		goto tr397
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st338
-		case 116:
+		case 111:
 			goto st338
 		}
-		goto tr417
+		goto tr397
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st339
-		case 104:
+		case 110:
 			goto st339
 		}
-		goto tr417
+		goto tr397
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
-		switch data[p] {
-		case 69:
-			goto st340
-		case 79:
-			goto st355
-		case 101:
+		if data[p] == 45 {
 			goto st340
-		case 111:
-			goto st355
 		}
-		goto tr417
+		goto tr397
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st341
-		case 110:
+		case 105:
 			goto st341
 		}
-		goto tr417
+		goto tr397
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st342
-		case 116:
+		case 110:
 			goto st342
 		}
-		goto tr417
+		goto tr397
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st343
-		case 105:
+		case 102:
 			goto st343
 		}
-		goto tr417
+		goto tr397
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st344
-		case 99:
+		case 111:
 			goto st344
 		}
-		goto tr417
+		goto tr397
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 65:
-			goto st345
-		case 97:
-			goto st345
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr417
+		goto tr397
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
 		}
 	st_case_345:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st346
-		case 116:
+		case 114:
 			goto st346
 		}
-		goto tr417
+		goto tr397
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
@@ -11146,40 +10588,43 @@ value=&msg.WWWAuthenticate
 		case 105:
 			goto st347
 		}
-		goto tr417
+		goto tr397
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 79:
+		case 90:
 			goto st348
-		case 111:
+		case 122:
 			goto st348
 		}
-		goto tr417
+		goto tr397
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st349
-		case 110:
+		case 97:
 			goto st349
 		}
-		goto tr417
+		goto tr397
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
 		}
 	st_case_349:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st350
+		case 116:
 			goto st350
 		}
-		goto tr417
+		goto tr397
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
@@ -11191,43 +10636,45 @@ value=&msg.WWWAuthenticate
 		case 105:
 			goto st351
 		}
-		goto tr417
+		goto tr397
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st352
-		case 110:
+		case 111:
 			goto st352
 		}
-		goto tr417
+		goto tr397
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st353
-		case 102:
+		case 110:
 			goto st353
 		}
-		goto tr417
+		goto tr397
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
 		}
 	st_case_353:
 		switch data[p] {
-		case 79:
-			goto st354
-		case 111:
-			goto st354
+		case 9:
+			goto tr513
+		case 32:
+			goto tr513
+		case 58:
+			goto tr514
 		}
-		goto tr417
+		goto tr397
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
@@ -11235,182 +10682,58 @@ value=&msg.WWWAuthenticate
 	st_case_354:
 		switch data[p] {
 		case 9:
-			goto tr523
+			goto tr515
 		case 32:
-			goto tr523
+			goto tr515
 		case 58:
-			goto tr524
+			goto tr516
 		}
-		goto tr417
+		goto tr397
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
 		}
 	st_case_355:
 		switch data[p] {
-		case 82:
+		case 9:
 			goto st356
-		case 114:
+		case 32:
 			goto st356
-		}
-		goto tr417
-	st356:
-		if p++; p == pe {
-			goto _test_eof356
-		}
-	st_case_356:
-		switch data[p] {
-		case 73:
-			goto st357
-		case 105:
+		case 58:
 			goto st357
-		}
-		goto tr417
-	st357:
-		if p++; p == pe {
-			goto _test_eof357
-		}
-	st_case_357:
-		switch data[p] {
-		case 90:
-			goto st358
-		case 122:
-			goto st358
-		}
-		goto tr417
-	st358:
-		if p++; p == pe {
-			goto _test_eof358
-		}
-	st_case_358:
-		switch data[p] {
 		case 65:
-			goto st359
-		case 97:
-			goto st359
-		}
-		goto tr417
-	st359:
-		if p++; p == pe {
-			goto _test_eof359
-		}
-	st_case_359:
-		switch data[p] {
-		case 84:
-			goto st360
-		case 116:
-			goto st360
-		}
-		goto tr417
-	st360:
-		if p++; p == pe {
-			goto _test_eof360
-		}
-	st_case_360:
-		switch data[p] {
-		case 73:
-			goto st361
-		case 105:
 			goto st361
-		}
-		goto tr417
-	st361:
-		if p++; p == pe {
-			goto _test_eof361
-		}
-	st_case_361:
-		switch data[p] {
-		case 79:
-			goto st362
-		case 111:
-			goto st362
-		}
-		goto tr417
-	st362:
-		if p++; p == pe {
-			goto _test_eof362
-		}
-	st_case_362:
-		switch data[p] {
-		case 78:
-			goto st363
-		case 110:
-			goto st363
-		}
-		goto tr417
-	st363:
-		if p++; p == pe {
-			goto _test_eof363
-		}
-	st_case_363:
-		switch data[p] {
-		case 9:
-			goto tr533
-		case 32:
-			goto tr533
-		case 58:
-			goto tr534
-		}
-		goto tr417
-	st364:
-		if p++; p == pe {
-			goto _test_eof364
-		}
-	st_case_364:
-		switch data[p] {
-		case 9:
-			goto tr535
-		case 32:
-			goto tr535
-		case 58:
-			goto tr536
-		}
-		goto tr417
-	st365:
-		if p++; p == pe {
-			goto _test_eof365
-		}
-	st_case_365:
-		switch data[p] {
-		case 9:
-			goto st366
-		case 32:
-			goto st366
-		case 58:
-			goto st367
-		case 65:
-			goto st371
 		case 79:
-			goto st389
+			goto st379
 		case 83:
-			goto st446
+			goto st436
 		case 97:
-			goto st371
+			goto st361
 		case 111:
-			goto st389
+			goto st379
 		case 115:
-			goto st446
+			goto st436
 		}
-		goto tr417
-	st366:
+		goto tr397
+	st356:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof356
 		}
-	st_case_366:
+	st_case_356:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 58:
-			goto st367
+			goto st357
 		}
 		goto st0
-	st367:
+	st357:
 		if p++; p == pe {
-			goto _test_eof367
+			goto _test_eof357
 		}
-	st_case_367:
+	st_case_357:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11420,150 +10743,150 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st367
+			goto st357
 		case 32:
-			goto st367
+			goto st357
 		case 269:
-			goto tr542
+			goto tr522
 		case 525:
-			goto st368
+			goto st358
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr542
+				goto tr522
 			}
 		default:
-			goto tr542
+			goto tr522
 		}
 		goto st0
-	st368:
+	st358:
 		if p++; p == pe {
-			goto _test_eof368
+			goto _test_eof358
 		}
-	st_case_368:
+	st_case_358:
 		if data[p] == 10 {
-			goto st369
+			goto st359
 		}
 		goto st0
-	st369:
+	st359:
 		if p++; p == pe {
-			goto _test_eof369
+			goto _test_eof359
 		}
-	st_case_369:
+	st_case_359:
 		switch data[p] {
 		case 9:
-			goto st370
+			goto st360
 		case 32:
-			goto st370
+			goto st360
 		}
 		goto st0
-	st370:
+	st360:
 		if p++; p == pe {
-			goto _test_eof370
+			goto _test_eof360
 		}
-	st_case_370:
+	st_case_360:
 		switch data[p] {
 		case 9:
-			goto st370
+			goto st360
 		case 32:
-			goto st370
+			goto st360
 		}
-		goto tr542
-	st371:
+		goto tr522
+	st361:
 		if p++; p == pe {
-			goto _test_eof371
+			goto _test_eof361
 		}
-	st_case_371:
+	st_case_361:
 		switch data[p] {
 		case 76:
-			goto st372
+			goto st362
 		case 108:
-			goto st372
+			goto st362
 		}
-		goto tr417
-	st372:
+		goto tr397
+	st362:
 		if p++; p == pe {
-			goto _test_eof372
+			goto _test_eof362
 		}
-	st_case_372:
+	st_case_362:
 		switch data[p] {
 		case 76:
-			goto st373
+			goto st363
 		case 108:
-			goto st373
+			goto st363
 		}
-		goto tr417
-	st373:
+		goto tr397
+	st363:
 		if p++; p == pe {
-			goto _test_eof373
+			goto _test_eof363
 		}
-	st_case_373:
+	st_case_363:
 		if data[p] == 45 {
-			goto st374
+			goto st364
 		}
-		goto tr417
-	st374:
+		goto tr397
+	st364:
 		if p++; p == pe {
-			goto _test_eof374
+			goto _test_eof364
 		}
-	st_case_374:
+	st_case_364:
 		switch data[p] {
 		case 73:
-			goto st375
+			goto st365
 		case 105:
-			goto st375
+			goto st365
 		}
-		goto tr417
-	st375:
+		goto tr397
+	st365:
 		if p++; p == pe {
-			goto _test_eof375
+			goto _test_eof365
 		}
-	st_case_375:
+	st_case_365:
 		switch data[p] {
 		case 68:
-			goto st376
+			goto st366
 		case 78:
-			goto st386
-		case 100:
 			goto st376
+		case 100:
+			goto st366
 		case 110:
-			goto st386
+			goto st376
 		}
-		goto tr417
-	st376:
+		goto tr397
+	st366:
 		if p++; p == pe {
-			goto _test_eof376
+			goto _test_eof366
 		}
-	st_case_376:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto st367
 		case 32:
-			goto st377
+			goto st367
 		case 58:
-			goto st378
+			goto st368
 		}
-		goto tr417
-	st377:
+		goto tr397
+	st367:
 		if p++; p == pe {
-			goto _test_eof377
+			goto _test_eof367
 		}
-	st_case_377:
+	st_case_367:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto st367
 		case 32:
-			goto st377
+			goto st367
 		case 58:
-			goto st378
+			goto st368
 		}
 		goto st0
-	st378:
+	st368:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof368
 		}
-	st_case_378:
+	st_case_368:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11573,59 +10896,59 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st378
+			goto st368
 		case 32:
-			goto st378
+			goto st368
 		case 37:
-			goto tr554
+			goto tr534
 		case 60:
-			goto tr554
+			goto tr534
 		case 525:
-			goto st383
+			goto st373
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr554
+					goto tr534
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr554
+					goto tr534
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		default:
-			goto tr554
+			goto tr534
 		}
 		goto st0
-tr554:
+tr534:
 //line sip.rl:80
 
 	mark = p
 
-	goto st379
-	st379:
+	goto st369
+	st369:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof369
 		}
-	st_case_379:
-//line msg_parse.go:11620
+	st_case_369:
+//line msg_parse.go:10943
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11635,88 +10958,88 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st379
+			goto st369
 		case 60:
-			goto st379
+			goto st369
 		case 64:
-			goto st380
+			goto st370
 		case 269:
-			goto tr558
+			goto tr538
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st379
+					goto st369
 				}
 			case _widec >= 33:
-				goto st379
+				goto st369
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st379
+					goto st369
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st379
+					goto st369
 				}
 			default:
-				goto st379
+				goto st369
 			}
 		default:
-			goto st379
+			goto st369
 		}
 		goto st0
-	st380:
+	st370:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof370
 		}
-	st_case_380:
+	st_case_370:
 		switch data[p] {
 		case 37:
-			goto st381
+			goto st371
 		case 60:
-			goto st381
+			goto st371
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st381
+					goto st371
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st381
+					goto st371
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		default:
-			goto st381
+			goto st371
 		}
 		goto st0
-	st381:
+	st371:
 		if p++; p == pe {
-			goto _test_eof381
+			goto _test_eof371
 		}
-	st_case_381:
+	st_case_371:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11726,325 +11049,325 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st381
+			goto st371
 		case 60:
-			goto st381
+			goto st371
 		case 269:
-			goto tr558
+			goto tr538
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st381
+					goto st371
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st381
+					goto st371
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		default:
-			goto st381
+			goto st371
 		}
 		goto st0
-tr558:
+tr538:
 //line sip.rl:220
 
 	msg.CallID = string(data[mark:p])
 
-	goto st382
-tr644:
+	goto st372
+tr624:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st382
-	st382:
+	goto st372
+	st372:
 		if p++; p == pe {
-			goto _test_eof382
+			goto _test_eof372
 		}
-	st_case_382:
-//line msg_parse.go:11775
+	st_case_372:
+//line msg_parse.go:11098
 		if data[p] == 10 {
-			goto tr560
+			goto tr540
 		}
 		goto st0
-	st383:
+	st373:
 		if p++; p == pe {
-			goto _test_eof383
+			goto _test_eof373
 		}
-	st_case_383:
+	st_case_373:
 		if data[p] == 10 {
-			goto st384
+			goto st374
 		}
 		goto st0
-	st384:
+	st374:
 		if p++; p == pe {
-			goto _test_eof384
+			goto _test_eof374
 		}
-	st_case_384:
+	st_case_374:
 		switch data[p] {
 		case 9:
-			goto st385
+			goto st375
 		case 32:
-			goto st385
+			goto st375
 		}
 		goto st0
-	st385:
+	st375:
 		if p++; p == pe {
-			goto _test_eof385
+			goto _test_eof375
 		}
-	st_case_385:
+	st_case_375:
 		switch data[p] {
 		case 9:
-			goto st385
+			goto st375
 		case 32:
-			goto st385
+			goto st375
 		case 37:
-			goto tr554
+			goto tr534
 		case 60:
-			goto tr554
+			goto tr534
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr554
+					goto tr534
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr554
+					goto tr534
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		default:
-			goto tr554
+			goto tr534
 		}
 		goto st0
-	st386:
+	st376:
 		if p++; p == pe {
-			goto _test_eof386
+			goto _test_eof376
 		}
-	st_case_386:
+	st_case_376:
 		switch data[p] {
 		case 70:
-			goto st387
+			goto st377
 		case 102:
-			goto st387
+			goto st377
 		}
-		goto tr417
-	st387:
+		goto tr397
+	st377:
 		if p++; p == pe {
-			goto _test_eof387
+			goto _test_eof377
 		}
-	st_case_387:
+	st_case_377:
 		switch data[p] {
 		case 79:
-			goto st388
+			goto st378
 		case 111:
-			goto st388
+			goto st378
 		}
-		goto tr417
-	st388:
+		goto tr397
+	st378:
 		if p++; p == pe {
-			goto _test_eof388
+			goto _test_eof378
 		}
-	st_case_388:
+	st_case_378:
 		switch data[p] {
 		case 9:
-			goto tr565
+			goto tr545
 		case 32:
-			goto tr565
+			goto tr545
 		case 58:
-			goto tr566
+			goto tr546
 		}
-		goto tr417
-	st389:
+		goto tr397
+	st379:
 		if p++; p == pe {
-			goto _test_eof389
+			goto _test_eof379
 		}
-	st_case_389:
+	st_case_379:
 		switch data[p] {
 		case 78:
-			goto st390
+			goto st380
 		case 110:
-			goto st390
+			goto st380
 		}
-		goto tr417
-	st390:
+		goto tr397
+	st380:
 		if p++; p == pe {
-			goto _test_eof390
+			goto _test_eof380
 		}
-	st_case_390:
+	st_case_380:
 		switch data[p] {
 		case 84:
-			goto st391
+			goto st381
 		case 116:
-			goto st391
+			goto st381
 		}
-		goto tr417
-	st391:
+		goto tr397
+	st381:
 		if p++; p == pe {
-			goto _test_eof391
+			goto _test_eof381
 		}
-	st_case_391:
+	st_case_381:
 		switch data[p] {
 		case 65:
-			goto st392
+			goto st382
 		case 69:
-			goto st400
+			goto st390
 		case 97:
-			goto st392
+			goto st382
 		case 101:
-			goto st400
+			goto st390
 		}
-		goto tr417
-	st392:
+		goto tr397
+	st382:
 		if p++; p == pe {
-			goto _test_eof392
+			goto _test_eof382
 		}
-	st_case_392:
+	st_case_382:
 		switch data[p] {
 		case 67:
-			goto st393
+			goto st383
 		case 99:
-			goto st393
+			goto st383
 		}
-		goto tr417
-	st393:
+		goto tr397
+	st383:
 		if p++; p == pe {
-			goto _test_eof393
+			goto _test_eof383
 		}
-	st_case_393:
+	st_case_383:
 		switch data[p] {
 		case 84:
-			goto st394
+			goto st384
 		case 116:
-			goto st394
+			goto st384
 		}
-		goto tr417
-	st394:
+		goto tr397
+	st384:
 		if p++; p == pe {
-			goto _test_eof394
+			goto _test_eof384
 		}
-	st_case_394:
+	st_case_384:
 		switch data[p] {
 		case 9:
-			goto tr573
+			goto tr553
 		case 32:
-			goto tr573
+			goto tr553
 		case 58:
-			goto tr574
+			goto tr554
 		}
-		goto tr417
-tr573:
+		goto tr397
+tr553:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
-	goto st395
-tr684:
+	goto st385
+tr664:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
-	goto st395
-tr782:
+	goto st385
+tr762:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
-tr849:
+	goto st385
+tr829:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
-	goto st395
-tr873:
+	goto st385
+tr853:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
-tr901:
+	goto st385
+tr881:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
-	goto st395
-tr924:
+	goto st385
+tr904:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
-	goto st395
-	st395:
+	goto st385
+	st385:
 		if p++; p == pe {
-			goto _test_eof395
+			goto _test_eof385
 		}
-	st_case_395:
-//line msg_parse.go:11996
+	st_case_385:
+//line msg_parse.go:11319
 		switch data[p] {
 		case 9:
-			goto st395
+			goto st385
 		case 32:
-			goto st395
+			goto st385
 		case 58:
-			goto st396
+			goto st386
 		}
 		goto st0
-tr574:
+tr554:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
-	goto st396
-tr685:
+	goto st386
+tr665:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
-	goto st396
-tr783:
+	goto st386
+tr763:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st396
-tr850:
+	goto st386
+tr830:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
-	goto st396
-tr874:
+	goto st386
+tr854:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st396
-tr902:
+	goto st386
+tr882:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
-	goto st396
-tr925:
+	goto st386
+tr905:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
-	goto st396
-	st396:
+	goto st386
+	st386:
 		if p++; p == pe {
-			goto _test_eof396
+			goto _test_eof386
 		}
-	st_case_396:
-//line msg_parse.go:12039
+	st_case_386:
+//line msg_parse.go:11362
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12054,528 +11377,528 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st396
+			goto st386
 		case 32:
-			goto st396
+			goto st386
 		case 269:
-			goto tr577
+			goto tr557
 		case 525:
-			goto st397
+			goto st387
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr577
+				goto tr557
 			}
 		default:
-			goto tr577
+			goto tr557
 		}
 		goto st0
-	st397:
+	st387:
 		if p++; p == pe {
-			goto _test_eof397
+			goto _test_eof387
 		}
-	st_case_397:
+	st_case_387:
 		if data[p] == 10 {
-			goto st398
+			goto st388
 		}
 		goto st0
-	st398:
+	st388:
 		if p++; p == pe {
-			goto _test_eof398
+			goto _test_eof388
 		}
-	st_case_398:
+	st_case_388:
 		switch data[p] {
 		case 9:
-			goto st399
+			goto st389
 		case 32:
-			goto st399
+			goto st389
 		}
 		goto st0
-	st399:
+	st389:
 		if p++; p == pe {
-			goto _test_eof399
+			goto _test_eof389
 		}
-	st_case_399:
+	st_case_389:
 		switch data[p] {
 		case 9:
-			goto st399
+			goto st389
 		case 32:
-			goto st399
+			goto st389
 		}
-		goto tr577
-	st400:
+		goto tr557
+	st390:
 		if p++; p == pe {
-			goto _test_eof400
+			goto _test_eof390
 		}
-	st_case_400:
+	st_case_390:
 		switch data[p] {
 		case 78:
-			goto st401
+			goto st391
 		case 110:
-			goto st401
+			goto st391
 		}
-		goto tr417
-	st401:
+		goto tr397
+	st391:
 		if p++; p == pe {
-			goto _test_eof401
+			goto _test_eof391
 		}
-	st_case_401:
+	st_case_391:
 		switch data[p] {
 		case 84:
-			goto st402
+			goto st392
 		case 116:
-			goto st402
+			goto st392
 		}
-		goto tr417
-	st402:
+		goto tr397
+	st392:
 		if p++; p == pe {
-			goto _test_eof402
+			goto _test_eof392
 		}
-	st_case_402:
+	st_case_392:
 		if data[p] == 45 {
-			goto st403
+			goto st393
 		}
-		goto tr417
-	st403:
+		goto tr397
+	st393:
 		if p++; p == pe {
-			goto _test_eof403
+			goto _test_eof393
 		}
-	st_case_403:
+	st_case_393:
 		switch data[p] {
 		case 68:
-			goto st404
+			goto st394
 		case 69:
-			goto st415
+			goto st405
 		case 76:
-			goto st423
+			goto st413
 		case 84:
-			goto st442
+			goto st432
 		case 100:
-			goto st404
+			goto st394
 		case 101:
-			goto st415
+			goto st405
 		case 108:
-			goto st423
+			goto st413
 		case 116:
-			goto st442
+			goto st432
 		}
-		goto tr417
-	st404:
+		goto tr397
+	st394:
 		if p++; p == pe {
-			goto _test_eof404
+			goto _test_eof394
 		}
-	st_case_404:
+	st_case_394:
 		switch data[p] {
 		case 73:
-			goto st405
+			goto st395
 		case 105:
-			goto st405
+			goto st395
 		}
-		goto tr417
-	st405:
+		goto tr397
+	st395:
 		if p++; p == pe {
-			goto _test_eof405
+			goto _test_eof395
 		}
-	st_case_405:
+	st_case_395:
 		switch data[p] {
 		case 83:
-			goto st406
+			goto st396
 		case 115:
-			goto st406
+			goto st396
 		}
-		goto tr417
-	st406:
+		goto tr397
+	st396:
 		if p++; p == pe {
-			goto _test_eof406
+			goto _test_eof396
 		}
-	st_case_406:
+	st_case_396:
 		switch data[p] {
 		case 80:
-			goto st407
+			goto st397
 		case 112:
-			goto st407
+			goto st397
 		}
-		goto tr417
-	st407:
+		goto tr397
+	st397:
 		if p++; p == pe {
-			goto _test_eof407
+			goto _test_eof397
 		}
-	st_case_407:
+	st_case_397:
 		switch data[p] {
 		case 79:
-			goto st408
+			goto st398
 		case 111:
-			goto st408
+			goto st398
 		}
-		goto tr417
-	st408:
+		goto tr397
+	st398:
 		if p++; p == pe {
-			goto _test_eof408
+			goto _test_eof398
 		}
-	st_case_408:
+	st_case_398:
 		switch data[p] {
 		case 83:
-			goto st409
+			goto st399
 		case 115:
-			goto st409
+			goto st399
 		}
-		goto tr417
-	st409:
+		goto tr397
+	st399:
 		if p++; p == pe {
-			goto _test_eof409
+			goto _test_eof399
 		}
-	st_case_409:
+	st_case_399:
 		switch data[p] {
 		case 73:
-			goto st410
+			goto st400
 		case 105:
-			goto st410
+			goto st400
 		}
-		goto tr417
-	st410:
+		goto tr397
+	st400:
 		if p++; p == pe {
-			goto _test_eof410
+			goto _test_eof400
 		}
-	st_case_410:
+	st_case_400:
 		switch data[p] {
 		case 84:
-			goto st411
+			goto st401
 		case 116:
-			goto st411
+			goto st401
 		}
-		goto tr417
-	st411:
+		goto tr397
+	st401:
 		if p++; p == pe {
-			goto _test_eof411
+			goto _test_eof401
 		}
-	st_case_411:
+	st_case_401:
 		switch data[p] {
 		case 73:
-			goto st412
+			goto st402
 		case 105:
-			goto st412
+			goto st402
 		}
-		goto tr417
-	st412:
+		goto tr397
+	st402:
 		if p++; p == pe {
-			goto _test_eof412
+			goto _test_eof402
 		}
-	st_case_412:
+	st_case_402:
 		switch data[p] {
 		case 79:
-			goto st413
+			goto st403
 		case 111:
-			goto st413
+			goto st403
 		}
-		goto tr417
-	st413:
+		goto tr397
+	st403:
 		if p++; p == pe {
-			goto _test_eof413
+			goto _test_eof403
 		}
-	st_case_413:
+	st_case_403:
 		switch data[p] {
 		case 78:
-			goto st414
+			goto st404
 		case 110:
-			goto st414
+			goto st404
 		}
-		goto tr417
-	st414:
+		goto tr397
+	st404:
 		if p++; p == pe {
-			goto _test_eof414
+			goto _test_eof404
 		}
-	st_case_414:
+	st_case_404:
 		switch data[p] {
 		case 9:
-			goto tr598
+			goto tr578
 		case 32:
-			goto tr598
+			goto tr578
 		case 58:
-			goto tr599
+			goto tr579
 		}
-		goto tr417
-	st415:
+		goto tr397
+	st405:
 		if p++; p == pe {
-			goto _test_eof415
+			goto _test_eof405
 		}
-	st_case_415:
+	st_case_405:
 		switch data[p] {
 		case 78:
-			goto st416
+			goto st406
 		case 110:
-			goto st416
+			goto st406
 		}
-		goto tr417
-	st416:
+		goto tr397
+	st406:
 		if p++; p == pe {
-			goto _test_eof416
+			goto _test_eof406
 		}
-	st_case_416:
+	st_case_406:
 		switch data[p] {
 		case 67:
-			goto st417
+			goto st407
 		case 99:
-			goto st417
+			goto st407
 		}
-		goto tr417
-	st417:
+		goto tr397
+	st407:
 		if p++; p == pe {
-			goto _test_eof417
+			goto _test_eof407
 		}
-	st_case_417:
+	st_case_407:
 		switch data[p] {
 		case 79:
-			goto st418
+			goto st408
 		case 111:
-			goto st418
+			goto st408
 		}
-		goto tr417
-	st418:
+		goto tr397
+	st408:
 		if p++; p == pe {
-			goto _test_eof418
+			goto _test_eof408
 		}
-	st_case_418:
+	st_case_408:
 		switch data[p] {
 		case 68:
-			goto st419
+			goto st409
 		case 100:
-			goto st419
+			goto st409
 		}
-		goto tr417
-	st419:
+		goto tr397
+	st409:
 		if p++; p == pe {
-			goto _test_eof419
+			goto _test_eof409
 		}
-	st_case_419:
+	st_case_409:
 		switch data[p] {
 		case 73:
-			goto st420
+			goto st410
 		case 105:
-			goto st420
+			goto st410
 		}
-		goto tr417
-	st420:
+		goto tr397
+	st410:
 		if p++; p == pe {
-			goto _test_eof420
+			goto _test_eof410
 		}
-	st_case_420:
+	st_case_410:
 		switch data[p] {
 		case 78:
-			goto st421
+			goto st411
 		case 110:
-			goto st421
+			goto st411
 		}
-		goto tr417
-	st421:
+		goto tr397
+	st411:
 		if p++; p == pe {
-			goto _test_eof421
+			goto _test_eof411
 		}
-	st_case_421:
+	st_case_411:
 		switch data[p] {
 		case 71:
-			goto st422
+			goto st412
 		case 103:
-			goto st422
+			goto st412
 		}
-		goto tr417
-	st422:
+		goto tr397
+	st412:
 		if p++; p == pe {
-			goto _test_eof422
+			goto _test_eof412
 		}
-	st_case_422:
+	st_case_412:
 		switch data[p] {
 		case 9:
-			goto tr607
+			goto tr587
 		case 32:
-			goto tr607
+			goto tr587
 		case 58:
-			goto tr608
+			goto tr588
 		}
-		goto tr417
-	st423:
+		goto tr397
+	st413:
 		if p++; p == pe {
-			goto _test_eof423
+			goto _test_eof413
 		}
-	st_case_423:
+	st_case_413:
 		switch data[p] {
 		case 65:
-			goto st424
+			goto st414
 		case 69:
-			goto st431
+			goto st421
 		case 97:
-			goto st424
+			goto st414
 		case 101:
-			goto st431
+			goto st421
 		}
-		goto tr417
-	st424:
+		goto tr397
+	st414:
 		if p++; p == pe {
-			goto _test_eof424
+			goto _test_eof414
 		}
-	st_case_424:
+	st_case_414:
 		switch data[p] {
 		case 78:
-			goto st425
+			goto st415
 		case 110:
-			goto st425
+			goto st415
 		}
-		goto tr417
-	st425:
+		goto tr397
+	st415:
 		if p++; p == pe {
-			goto _test_eof425
+			goto _test_eof415
 		}
-	st_case_425:
+	st_case_415:
 		switch data[p] {
 		case 71:
-			goto st426
+			goto st416
 		case 103:
-			goto st426
+			goto st416
 		}
-		goto tr417
-	st426:
+		goto tr397
+	st416:
 		if p++; p == pe {
-			goto _test_eof426
+			goto _test_eof416
 		}
-	st_case_426:
+	st_case_416:
 		switch data[p] {
 		case 85:
-			goto st427
+			goto st417
 		case 117:
-			goto st427
+			goto st417
 		}
-		goto tr417
-	st427:
+		goto tr397
+	st417:
 		if p++; p == pe {
-			goto _test_eof427
+			goto _test_eof417
 		}
-	st_case_427:
+	st_case_417:
 		switch data[p] {
 		case 65:
-			goto st428
+			goto st418
 		case 97:
-			goto st428
+			goto st418
 		}
-		goto tr417
-	st428:
+		goto tr397
+	st418:
 		if p++; p == pe {
-			goto _test_eof428
+			goto _test_eof418
 		}
-	st_case_428:
+	st_case_418:
 		switch data[p] {
 		case 71:
-			goto st429
+			goto st419
 		case 103:
-			goto st429
+			goto st419
 		}
-		goto tr417
-	st429:
+		goto tr397
+	st419:
 		if p++; p == pe {
-			goto _test_eof429
+			goto _test_eof419
 		}
-	st_case_429:
+	st_case_419:
 		switch data[p] {
 		case 69:
-			goto st430
+			goto st420
 		case 101:
-			goto st430
+			goto st420
 		}
-		goto tr417
-	st430:
+		goto tr397
+	st420:
 		if p++; p == pe {
-			goto _test_eof430
+			goto _test_eof420
 		}
-	st_case_430:
+	st_case_420:
 		switch data[p] {
 		case 9:
-			goto tr617
+			goto tr597
 		case 32:
-			goto tr617
+			goto tr597
 		case 58:
-			goto tr618
+			goto tr598
 		}
-		goto tr417
-	st431:
+		goto tr397
+	st421:
 		if p++; p == pe {
-			goto _test_eof431
+			goto _test_eof421
 		}
-	st_case_431:
+	st_case_421:
 		switch data[p] {
 		case 78:
-			goto st432
+			goto st422
 		case 110:
-			goto st432
+			goto st422
 		}
-		goto tr417
-	st432:
+		goto tr397
+	st422:
 		if p++; p == pe {
-			goto _test_eof432
+			goto _test_eof422
 		}
-	st_case_432:
+	st_case_422:
 		switch data[p] {
 		case 71:
-			goto st433
+			goto st423
 		case 103:
-			goto st433
+			goto st423
 		}
-		goto tr417
-	st433:
+		goto tr397
+	st423:
 		if p++; p == pe {
-			goto _test_eof433
+			goto _test_eof423
 		}
-	st_case_433:
+	st_case_423:
 		switch data[p] {
 		case 84:
-			goto st434
+			goto st424
 		case 116:
-			goto st434
+			goto st424
 		}
-		goto tr417
-	st434:
+		goto tr397
+	st424:
 		if p++; p == pe {
-			goto _test_eof434
+			goto _test_eof424
 		}
-	st_case_434:
+	st_case_424:
 		switch data[p] {
 		case 72:
-			goto st435
+			goto st425
 		case 104:
-			goto st435
+			goto st425
 		}
-		goto tr417
-	st435:
+		goto tr397
+	st425:
 		if p++; p == pe {
-			goto _test_eof435
+			goto _test_eof425
 		}
-	st_case_435:
+	st_case_425:
 		switch data[p] {
 		case 9:
-			goto st436
+			goto st426
 		case 32:
-			goto st436
+			goto st426
 		case 58:
-			goto st437
+			goto st427
 		}
-		goto tr417
-	st436:
+		goto tr397
+	st426:
 		if p++; p == pe {
-			goto _test_eof436
+			goto _test_eof426
 		}
-	st_case_436:
+	st_case_426:
 		switch data[p] {
 		case 9:
-			goto st436
+			goto st426
 		case 32:
-			goto st436
+			goto st426
 		case 58:
-			goto st437
+			goto st427
 		}
 		goto st0
-	st437:
+	st427:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof427
 		}
-	st_case_437:
+	st_case_427:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12585,36 +11908,36 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st437
+			goto st427
 		case 32:
-			goto st437
+			goto st427
 		case 525:
-			goto st439
+			goto st429
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr604
 		}
 		goto st0
-tr624:
+tr604:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
 
 	if clen, err = appendDigit(clen, data[p]); err != nil { return nil, err }
 
-	goto st438
-tr626:
+	goto st428
+tr606:
 //line sip.rl:224
 
 	if clen, err = appendDigit(clen, data[p]); err != nil { return nil, err }
 
-	goto st438
-	st438:
+	goto st428
+	st428:
 		if p++; p == pe {
-			goto _test_eof438
+			goto _test_eof428
 		}
-	st_case_438:
-//line msg_parse.go:12609
+	st_case_428:
+//line msg_parse.go:11932
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12623,155 +11946,155 @@ tr626:
 			}
 		}
 		if _widec == 269 {
-			goto st382
+			goto st372
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr606
 		}
 		goto st0
-	st439:
+	st429:
 		if p++; p == pe {
-			goto _test_eof439
+			goto _test_eof429
 		}
-	st_case_439:
+	st_case_429:
 		if data[p] == 10 {
-			goto st440
+			goto st430
 		}
 		goto st0
-	st440:
+	st430:
 		if p++; p == pe {
-			goto _test_eof440
+			goto _test_eof430
 		}
-	st_case_440:
+	st_case_430:
 		switch data[p] {
 		case 9:
-			goto st441
+			goto st431
 		case 32:
-			goto st441
+			goto st431
 		}
 		goto st0
-	st441:
+	st431:
 		if p++; p == pe {
-			goto _test_eof441
+			goto _test_eof431
 		}
-	st_case_441:
+	st_case_431:
 		switch data[p] {
 		case 9:
-			goto st441
+			goto st431
 		case 32:
-			goto st441
+			goto st431
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr604
 		}
 		goto st0
-	st442:
+	st432:
 		if p++; p == pe {
-			goto _test_eof442
+			goto _test_eof432
 		}
-	st_case_442:
+	st_case_432:
 		switch data[p] {
 		case 89:
-			goto st443
+			goto st433
 		case 121:
-			goto st443
+			goto st433
 		}
-		goto tr417
-	st443:
+		goto tr397
+	st433:
 		if p++; p == pe {
-			goto _test_eof443
+			goto _test_eof433
 		}
-	st_case_443:
+	st_case_433:
 		switch data[p] {
 		case 80:
-			goto st444
+			goto st434
 		case 112:
-			goto st444
+			goto st434
 		}
-		goto tr417
-	st444:
+		goto tr397
+	st434:
 		if p++; p == pe {
-			goto _test_eof444
+			goto _test_eof434
 		}
-	st_case_444:
+	st_case_434:
 		switch data[p] {
 		case 69:
-			goto st445
+			goto st435
 		case 101:
-			goto st445
+			goto st435
 		}
-		goto tr417
-	st445:
+		goto tr397
+	st435:
 		if p++; p == pe {
-			goto _test_eof445
+			goto _test_eof435
 		}
-	st_case_445:
+	st_case_435:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 58:
-			goto st367
+			goto st357
 		}
-		goto tr417
-	st446:
+		goto tr397
+	st436:
 		if p++; p == pe {
-			goto _test_eof446
+			goto _test_eof436
 		}
-	st_case_446:
+	st_case_436:
 		switch data[p] {
 		case 69:
-			goto st447
+			goto st437
 		case 101:
-			goto st447
+			goto st437
 		}
-		goto tr417
-	st447:
+		goto tr397
+	st437:
 		if p++; p == pe {
-			goto _test_eof447
+			goto _test_eof437
 		}
-	st_case_447:
+	st_case_437:
 		switch data[p] {
 		case 81:
-			goto st448
+			goto st438
 		case 113:
-			goto st448
+			goto st438
 		}
-		goto tr417
-	st448:
+		goto tr397
+	st438:
 		if p++; p == pe {
-			goto _test_eof448
+			goto _test_eof438
 		}
-	st_case_448:
+	st_case_438:
 		switch data[p] {
 		case 9:
-			goto st449
+			goto st439
 		case 32:
-			goto st449
+			goto st439
 		case 58:
-			goto st450
+			goto st440
 		}
-		goto tr417
-	st449:
+		goto tr397
+	st439:
 		if p++; p == pe {
-			goto _test_eof449
+			goto _test_eof439
 		}
-	st_case_449:
+	st_case_439:
 		switch data[p] {
 		case 9:
-			goto st449
+			goto st439
 		case 32:
-			goto st449
+			goto st439
 		case 58:
-			goto st450
+			goto st440
 		}
 		goto st0
-	st450:
+	st440:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof440
 		}
-	st_case_450:
+	st_case_440:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12781,36 +12104,36 @@ tr626:
 		}
 		switch _widec {
 		case 9:
-			goto st450
+			goto st440
 		case 32:
-			goto st450
+			goto st440
 		case 525:
-			goto st457
+			goto st447
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr617
 		}
 		goto st0
-tr637:
+tr617:
 //line sip.rl:494
 msg.CSeq=0
 //line sip.rl:232
 
 	if msg.CSeq, err = appendDigit(msg.CSeq, data[p]); err != nil { return nil, err }
 
-	goto st451
-tr640:
+	goto st441
+tr620:
 //line sip.rl:232
 
 	if msg.CSeq, err = appendDigit(msg.CSeq, data[p]); err != nil { return nil, err }
 
-	goto st451
-	st451:
+	goto st441
+	st441:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof441
 		}
-	st_case_451:
-//line msg_parse.go:12805
+	st_case_441:
+//line msg_parse.go:12128
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12820,21 +12143,21 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st452
+			goto st442
 		case 32:
-			goto st452
+			goto st442
 		case 525:
-			goto st454
+			goto st444
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr640
+			goto tr620
 		}
 		goto st0
-	st452:
+	st442:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof442
 		}
-	st_case_452:
+	st_case_442:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12844,55 +12167,55 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st452
+			goto st442
 		case 32:
-			goto st452
+			goto st442
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		case 525:
-			goto st454
+			goto st444
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 42:
-				goto tr642
+				goto tr622
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
 		}
 		goto st0
-tr642:
+tr622:
 //line sip.rl:80
 
 	mark = p
 
-	goto st453
-	st453:
+	goto st443
+	st443:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof443
 		}
-	st_case_453:
-//line msg_parse.go:12887
+	st_case_443:
+//line msg_parse.go:12210
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12902,174 +12225,307 @@ tr642:
 		}
 		switch _widec {
 		case 33:
-			goto st453
+			goto st443
 		case 37:
-			goto st453
+			goto st443
 		case 39:
-			goto st453
+			goto st443
 		case 126:
-			goto st453
+			goto st443
 		case 269:
-			goto tr644
+			goto tr624
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st453
+					goto st443
 				}
 			case _widec >= 42:
-				goto st453
+				goto st443
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st453
+					goto st443
 				}
 			case _widec >= 65:
-				goto st453
+				goto st443
 			}
 		default:
-			goto st453
+			goto st443
 		}
 		goto st0
-	st454:
+	st444:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof444
 		}
-	st_case_454:
+	st_case_444:
 		if data[p] == 10 {
-			goto st455
+			goto st445
 		}
 		goto st0
-	st455:
+	st445:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof445
 		}
-	st_case_455:
+	st_case_445:
 		switch data[p] {
 		case 9:
-			goto st456
+			goto st446
 		case 32:
-			goto st456
+			goto st446
 		}
 		goto st0
-	st456:
+	st446:
 		if p++; p == pe {
-			goto _test_eof456
+			goto _test_eof446
 		}
-	st_case_456:
+	st_case_446:
 		switch data[p] {
 		case 9:
-			goto st456
+			goto st446
 		case 32:
-			goto st456
+			goto st446
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 42:
-				goto tr642
+				goto tr622
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
+		}
+		goto st0
+	st447:
+		if p++; p == pe {
+			goto _test_eof447
+		}
+	st_case_447:
+		if data[p] == 10 {
+			goto st448
+		}
+		goto st0
+	st448:
+		if p++; p == pe {
+			goto _test_eof448
+		}
+	st_case_448:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		}
+		goto st0
+	st449:
+		if p++; p == pe {
+			goto _test_eof449
+		}
+	st_case_449:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr617
+		}
+		goto st0
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
+		switch data[p] {
+		case 65:
+			goto st451
+		case 97:
+			goto st451
+		}
+		goto tr397
+	st451:
+		if p++; p == pe {
+			goto _test_eof451
+		}
+	st_case_451:
+		switch data[p] {
+		case 84:
+			goto st452
+		case 116:
+			goto st452
+		}
+		goto tr397
+	st452:
+		if p++; p == pe {
+			goto _test_eof452
+		}
+	st_case_452:
+		switch data[p] {
+		case 69:
+			goto st453
+		case 101:
+			goto st453
+		}
+		goto tr397
+	st453:
+		if p++; p == pe {
+			goto _test_eof453
+		}
+	st_case_453:
+		switch data[p] {
+		case 9:
+			goto tr632
+		case 32:
+			goto tr632
+		case 58:
+			goto tr633
+		}
+		goto tr397
+	st454:
+		if p++; p == pe {
+			goto _test_eof454
+		}
+	st_case_454:
+		switch data[p] {
+		case 9:
+			goto tr587
+		case 32:
+			goto tr587
+		case 58:
+			goto tr588
+		case 82:
+			goto st455
+		case 86:
+			goto st464
+		case 88:
+			goto st468
+		case 114:
+			goto st455
+		case 118:
+			goto st464
+		case 120:
+			goto st468
+		}
+		goto tr397
+	st455:
+		if p++; p == pe {
+			goto _test_eof455
 		}
-		goto st0
+	st_case_455:
+		switch data[p] {
+		case 82:
+			goto st456
+		case 114:
+			goto st456
+		}
+		goto tr397
+	st456:
+		if p++; p == pe {
+			goto _test_eof456
+		}
+	st_case_456:
+		switch data[p] {
+		case 79:
+			goto st457
+		case 111:
+			goto st457
+		}
+		goto tr397
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
-		if data[p] == 10 {
+		switch data[p] {
+		case 82:
+			goto st458
+		case 114:
 			goto st458
 		}
-		goto st0
+		goto tr397
 	st458:
 		if p++; p == pe {
 			goto _test_eof458
 		}
 	st_case_458:
-		switch data[p] {
-		case 9:
-			goto st459
-		case 32:
+		if data[p] == 45 {
 			goto st459
 		}
-		goto st0
+		goto tr397
 	st459:
 		if p++; p == pe {
 			goto _test_eof459
 		}
 	st_case_459:
 		switch data[p] {
-		case 9:
-			goto st459
-		case 32:
-			goto st459
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+		case 73:
+			goto st460
+		case 105:
+			goto st460
 		}
-		goto st0
+		goto tr397
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st461
-		case 97:
+		case 110:
 			goto st461
 		}
-		goto tr417
+		goto tr397
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st462
-		case 116:
+		case 102:
 			goto st462
 		}
-		goto tr417
+		goto tr397
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st463
-		case 101:
+		case 111:
 			goto st463
 		}
-		goto tr417
+		goto tr397
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
@@ -13077,84 +12533,75 @@ tr642:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr652
+			goto tr645
 		case 32:
-			goto tr652
+			goto tr645
 		case 58:
-			goto tr653
+			goto tr646
 		}
-		goto tr417
+		goto tr397
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
-		case 9:
-			goto tr607
-		case 32:
-			goto tr607
-		case 58:
-			goto tr608
-		case 82:
+		case 69:
 			goto st465
-		case 86:
-			goto st474
-		case 88:
-			goto st478
-		case 114:
+		case 101:
 			goto st465
-		case 118:
-			goto st474
-		case 120:
-			goto st478
 		}
-		goto tr417
+		goto tr397
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st466
-		case 114:
+		case 110:
 			goto st466
 		}
-		goto tr417
+		goto tr397
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st467
-		case 111:
+		case 116:
 			goto st467
 		}
-		goto tr417
+		goto tr397
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
 		switch data[p] {
-		case 82:
-			goto st468
-		case 114:
-			goto st468
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		}
-		goto tr417
+		goto tr397
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st469
+		case 112:
 			goto st469
 		}
-		goto tr417
+		goto tr397
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
@@ -13166,43 +12613,43 @@ tr642:
 		case 105:
 			goto st470
 		}
-		goto tr417
+		goto tr397
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st471
-		case 110:
+		case 114:
 			goto st471
 		}
-		goto tr417
+		goto tr397
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st472
-		case 102:
+		case 101:
 			goto st472
 		}
-		goto tr417
+		goto tr397
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st473
-		case 111:
+		case 115:
 			goto st473
 		}
-		goto tr417
+		goto tr397
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
@@ -13210,123 +12657,163 @@ tr642:
 	st_case_473:
 		switch data[p] {
 		case 9:
-			goto tr665
+			goto st474
 		case 32:
-			goto tr665
+			goto st474
 		case 58:
-			goto tr666
+			goto st475
 		}
-		goto tr417
+		goto tr397
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
 		switch data[p] {
-		case 69:
-			goto st475
-		case 101:
+		case 9:
+			goto st474
+		case 32:
+			goto st474
+		case 58:
 			goto st475
 		}
-		goto tr417
+		goto st0
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
-		switch data[p] {
-		case 78:
-			goto st476
-		case 110:
-			goto st476
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st475
+		case 32:
+			goto st475
+		case 525:
+			goto st477
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr659
 		}
-		goto tr417
+		goto st0
+tr659:
+//line sip.rl:495
+msg.Expires=0
+//line sip.rl:240
+
+	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
+
+	goto st476
+tr661:
+//line sip.rl:240
+
+	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
+
+	goto st476
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
-		switch data[p] {
-		case 84:
-			goto st477
-		case 116:
-			goto st477
+//line msg_parse.go:12716
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st372
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr661
 		}
-		goto tr417
+		goto st0
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
-		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
+		if data[p] == 10 {
+			goto st478
 		}
-		goto tr417
+		goto st0
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st479
-		case 112:
+		case 32:
 			goto st479
 		}
-		goto tr417
+		goto st0
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
-		case 73:
-			goto st480
-		case 105:
-			goto st480
+		case 9:
+			goto st479
+		case 32:
+			goto st479
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr659
 		}
-		goto tr417
+		goto st0
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
+		case 9:
+			goto tr664
+		case 32:
+			goto tr664
+		case 58:
+			goto tr665
 		case 82:
 			goto st481
 		case 114:
 			goto st481
 		}
-		goto tr417
+		goto tr397
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st482
-		case 101:
+		case 111:
 			goto st482
 		}
-		goto tr417
+		goto tr397
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 83:
+		case 77:
 			goto st483
-		case 115:
+		case 109:
 			goto st483
 		}
-		goto tr417
+		goto tr397
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13334,13 +12821,13 @@ tr642:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st484
+			goto tr664
 		case 32:
-			goto st484
+			goto tr664
 		case 58:
-			goto st485
+			goto tr665
 		}
-		goto tr417
+		goto tr397
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
@@ -13348,163 +12835,119 @@ tr642:
 	st_case_484:
 		switch data[p] {
 		case 9:
-			goto st484
+			goto st367
 		case 32:
-			goto st484
+			goto st367
 		case 58:
+			goto st368
+		case 78:
+			goto st485
+		case 110:
 			goto st485
 		}
-		goto st0
+		goto tr397
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
-	st_case_485:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st485
-		case 32:
-			goto st485
-		case 525:
-			goto st487
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr679
-		}
-		goto st0
-tr679:
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
-
-	goto st486
-tr681:
-//line sip.rl:240
-
-	if msg.Expires, err = appendDigit(msg.Expires, data[p]); err != nil { return nil, err }
-
-	goto st486
-	st486:
-		if p++; p == pe {
-			goto _test_eof486
-		}
-	st_case_486:
-//line msg_parse.go:13393
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
+	st_case_485:
+		if data[p] == 45 {
+			goto st486
 		}
-		if _widec == 269 {
-			goto st382
+		goto tr397
+	st486:
+		if p++; p == pe {
+			goto _test_eof486
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr681
+	st_case_486:
+		switch data[p] {
+		case 82:
+			goto st487
+		case 114:
+			goto st487
 		}
-		goto st0
+		goto tr397
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st488
+		case 101:
 			goto st488
 		}
-		goto st0
+		goto tr397
 	st488:
 		if p++; p == pe {
 			goto _test_eof488
 		}
 	st_case_488:
 		switch data[p] {
-		case 9:
+		case 80:
 			goto st489
-		case 32:
+		case 112:
 			goto st489
 		}
-		goto st0
+		goto tr397
 	st489:
 		if p++; p == pe {
 			goto _test_eof489
 		}
 	st_case_489:
 		switch data[p] {
-		case 9:
-			goto st489
-		case 32:
-			goto st489
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+		case 76:
+			goto st490
+		case 108:
+			goto st490
 		}
-		goto st0
+		goto tr397
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
-		case 82:
+		case 89:
 			goto st491
-		case 114:
+		case 121:
 			goto st491
 		}
-		goto tr417
+		goto tr397
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
-		switch data[p] {
-		case 79:
-			goto st492
-		case 111:
+		if data[p] == 45 {
 			goto st492
 		}
-		goto tr417
+		goto tr397
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 77:
+		case 84:
 			goto st493
-		case 109:
+		case 116:
 			goto st493
 		}
-		goto tr417
+		goto tr397
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
 		}
 	st_case_493:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
+		case 79:
+			goto st494
+		case 111:
+			goto st494
 		}
-		goto tr417
+		goto tr397
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
@@ -13512,529 +12955,530 @@ tr681:
 	st_case_494:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto tr679
 		case 32:
-			goto st377
+			goto tr679
 		case 58:
-			goto st378
-		case 78:
-			goto st495
-		case 110:
-			goto st495
+			goto tr680
 		}
-		goto tr417
+		goto tr397
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
-		if data[p] == 45 {
-			goto st496
+		switch data[p] {
+		case 9:
+			goto tr681
+		case 32:
+			goto tr681
+		case 58:
+			goto tr682
 		}
-		goto tr417
+		goto tr397
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr553
+		case 32:
+			goto tr553
+		case 58:
+			goto tr554
+		case 65:
 			goto st497
-		case 114:
+		case 73:
+			goto st514
+		case 97:
 			goto st497
+		case 105:
+			goto st514
 		}
-		goto tr417
+		goto tr397
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
 		switch data[p] {
-		case 69:
+		case 88:
 			goto st498
-		case 101:
+		case 120:
 			goto st498
 		}
-		goto tr417
+		goto tr397
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
-		switch data[p] {
-		case 80:
-			goto st499
-		case 112:
+		if data[p] == 45 {
 			goto st499
 		}
-		goto tr417
+		goto tr397
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 76:
+		case 70:
 			goto st500
-		case 108:
+		case 102:
 			goto st500
 		}
-		goto tr417
+		goto tr397
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
 		switch data[p] {
-		case 89:
+		case 79:
 			goto st501
-		case 121:
+		case 111:
 			goto st501
 		}
-		goto tr417
+		goto tr397
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st502
+		case 114:
 			goto st502
 		}
-		goto tr417
+		goto tr397
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 84:
+		case 87:
 			goto st503
-		case 116:
+		case 119:
 			goto st503
 		}
-		goto tr417
+		goto tr397
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st504
-		case 111:
+		case 97:
 			goto st504
 		}
-		goto tr417
+		goto tr397
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
 		}
 	st_case_504:
 		switch data[p] {
-		case 9:
-			goto tr699
-		case 32:
-			goto tr699
-		case 58:
-			goto tr700
+		case 82:
+			goto st505
+		case 114:
+			goto st505
 		}
-		goto tr417
+		goto tr397
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
 		}
 	st_case_505:
 		switch data[p] {
-		case 9:
-			goto tr701
-		case 32:
-			goto tr701
-		case 58:
-			goto tr702
+		case 68:
+			goto st506
+		case 100:
+			goto st506
 		}
-		goto tr417
+		goto tr397
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
-			goto tr573
-		case 32:
-			goto tr573
-		case 58:
-			goto tr574
-		case 65:
+		case 83:
 			goto st507
-		case 73:
-			goto st524
-		case 97:
+		case 115:
 			goto st507
-		case 105:
-			goto st524
 		}
-		goto tr417
+		goto tr397
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
 		switch data[p] {
-		case 88:
+		case 9:
 			goto st508
-		case 120:
+		case 32:
 			goto st508
+		case 58:
+			goto st509
 		}
-		goto tr417
+		goto tr397
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st508
+		case 32:
+			goto st508
+		case 58:
 			goto st509
 		}
-		goto tr417
+		goto st0
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		switch data[p] {
-		case 70:
-			goto st510
-		case 102:
-			goto st510
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st509
+		case 32:
+			goto st509
+		case 525:
+			goto st511
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr697
 		}
-		goto tr417
+		goto st0
+tr697:
+//line sip.rl:496
+msg.MaxForwards=0
+//line sip.rl:244
+
+	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
+
+	goto st510
+tr699:
+//line sip.rl:244
+
+	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
+
+	goto st510
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
-		switch data[p] {
-		case 79:
-			goto st511
-		case 111:
-			goto st511
+//line msg_parse.go:13181
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st372
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr699
 		}
-		goto tr417
+		goto st0
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
-		switch data[p] {
-		case 82:
-			goto st512
-		case 114:
+		if data[p] == 10 {
 			goto st512
 		}
-		goto tr417
+		goto st0
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 87:
+		case 9:
 			goto st513
-		case 119:
+		case 32:
 			goto st513
 		}
-		goto tr417
+		goto st0
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 65:
-			goto st514
-		case 97:
-			goto st514
+		case 9:
+			goto st513
+		case 32:
+			goto st513
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr697
 		}
-		goto tr417
+		goto st0
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st515
-		case 114:
+		case 78:
+			goto st525
+		case 109:
 			goto st515
+		case 110:
+			goto st525
 		}
-		goto tr417
+		goto tr397
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st516
-		case 100:
+		case 101:
 			goto st516
 		}
-		goto tr417
+		goto tr397
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
-		switch data[p] {
-		case 83:
-			goto st517
-		case 115:
+		if data[p] == 45 {
 			goto st517
 		}
-		goto tr417
+		goto tr397
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 9:
+		case 86:
 			goto st518
-		case 32:
+		case 118:
 			goto st518
-		case 58:
-			goto st519
 		}
-		goto tr417
+		goto tr397
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
 		switch data[p] {
-		case 9:
-			goto st518
-		case 32:
-			goto st518
-		case 58:
+		case 69:
+			goto st519
+		case 101:
 			goto st519
 		}
-		goto st0
+		goto tr397
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st519
-		case 32:
-			goto st519
-		case 525:
-			goto st521
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+		switch data[p] {
+		case 82:
+			goto st520
+		case 114:
+			goto st520
 		}
-		goto st0
-tr717:
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
-
-	goto st520
-tr719:
-//line sip.rl:244
-
-	if msg.MaxForwards, err = appendDigit(msg.MaxForwards, data[p]); err != nil { return nil, err }
-
-	goto st520
+		goto tr397
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
-//line msg_parse.go:13858
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr719
+		switch data[p] {
+		case 83:
+			goto st521
+		case 115:
+			goto st521
 		}
-		goto st0
+		goto tr397
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st522
+		case 105:
 			goto st522
 		}
-		goto st0
+		goto tr397
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 9:
+		case 79:
 			goto st523
-		case 32:
+		case 111:
 			goto st523
 		}
-		goto st0
+		goto tr397
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
-			goto st523
-		case 32:
-			goto st523
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr717
+		case 78:
+			goto st524
+		case 110:
+			goto st524
 		}
-		goto st0
+		goto tr397
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 77:
-			goto st525
-		case 78:
-			goto st535
-		case 109:
-			goto st525
-		case 110:
-			goto st535
+		case 9:
+			goto tr713
+		case 32:
+			goto tr713
+		case 58:
+			goto tr714
 		}
-		goto tr417
+		goto tr397
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		switch data[p] {
-		case 69:
-			goto st526
-		case 101:
+		if data[p] == 45 {
 			goto st526
 		}
-		goto tr417
+		goto tr397
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st527
+		case 101:
 			goto st527
 		}
-		goto tr417
+		goto tr397
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 86:
+		case 88:
 			goto st528
-		case 118:
+		case 120:
 			goto st528
 		}
-		goto tr417
+		goto tr397
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st529
-		case 101:
+		case 112:
 			goto st529
 		}
-		goto tr417
+		goto tr397
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st530
-		case 114:
+		case 105:
 			goto st530
 		}
-		goto tr417
+		goto tr397
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st531
-		case 115:
+		case 114:
 			goto st531
 		}
-		goto tr417
+		goto tr397
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st532
-		case 105:
+		case 101:
 			goto st532
 		}
-		goto tr417
+		goto tr397
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st533
-		case 111:
+		case 115:
 			goto st533
 		}
-		goto tr417
+		goto tr397
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
 		}
 	st_case_533:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st534
-		case 110:
+		case 32:
 			goto st534
+		case 58:
+			goto st535
 		}
-		goto tr417
+		goto tr397
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
@@ -14042,454 +13486,450 @@ tr719:
 	st_case_534:
 		switch data[p] {
 		case 9:
-			goto tr733
+			goto st534
 		case 32:
-			goto tr733
+			goto st534
 		case 58:
-			goto tr734
+			goto st535
 		}
-		goto tr417
+		goto st0
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
-		if data[p] == 45 {
-			goto st536
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st535
+		case 32:
+			goto st535
+		case 525:
+			goto st537
 		}
-		goto tr417
+		if 48 <= _widec && _widec <= 57 {
+			goto tr725
+		}
+		goto st0
+tr725:
+//line sip.rl:497
+msg.MinExpires=0
+//line sip.rl:248
+
+	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
+
+	goto st536
+tr727:
+//line sip.rl:248
+
+	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
+
+	goto st536
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
-		switch data[p] {
-		case 69:
-			goto st537
-		case 101:
-			goto st537
+//line msg_parse.go:13531
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st372
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr727
 		}
-		goto tr417
+		goto st0
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
-		switch data[p] {
-		case 88:
-			goto st538
-		case 120:
+		if data[p] == 10 {
 			goto st538
 		}
-		goto tr417
+		goto st0
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st539
-		case 112:
+		case 32:
 			goto st539
 		}
-		goto tr417
+		goto st0
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
-		case 73:
-			goto st540
-		case 105:
-			goto st540
+		case 9:
+			goto st539
+		case 32:
+			goto st539
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr725
 		}
-		goto tr417
+		goto st0
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		case 82:
 			goto st541
 		case 114:
 			goto st541
 		}
-		goto tr417
+		goto tr397
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st542
-		case 101:
+		case 103:
 			goto st542
 		}
-		goto tr417
+		goto tr397
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st543
-		case 115:
+		case 97:
 			goto st543
 		}
-		goto tr417
+		goto tr397
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st544
-		case 32:
+		case 110:
 			goto st544
-		case 58:
-			goto st545
 		}
-		goto tr417
+		goto tr397
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
 		switch data[p] {
-		case 9:
-			goto st544
-		case 32:
-			goto st544
-		case 58:
+		case 73:
+			goto st545
+		case 105:
 			goto st545
 		}
-		goto st0
+		goto tr397
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st545
-		case 32:
-			goto st545
-		case 525:
-			goto st547
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr745
-		}
-		goto st0
-tr745:
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
-
-	goto st546
-tr747:
-//line sip.rl:248
-
-	if msg.MinExpires, err = appendDigit(msg.MinExpires, data[p]); err != nil { return nil, err }
-
-	goto st546
+		switch data[p] {
+		case 90:
+			goto st546
+		case 122:
+			goto st546
+		}
+		goto tr397
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-//line msg_parse.go:14208
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr747
+		switch data[p] {
+		case 65:
+			goto st547
+		case 97:
+			goto st547
 		}
-		goto st0
+		goto tr397
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
-		if data[p] == 10 {
+		switch data[p] {
+		case 84:
+			goto st548
+		case 116:
 			goto st548
 		}
-		goto st0
+		goto tr397
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st549
-		case 32:
+		case 105:
 			goto st549
 		}
-		goto st0
+		goto tr397
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 9:
-			goto st549
-		case 32:
-			goto st549
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr745
+		case 79:
+			goto st550
+		case 111:
+			goto st550
 		}
-		goto st0
+		goto tr397
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
+		case 78:
 			goto st551
-		case 114:
+		case 110:
 			goto st551
 		}
-		goto tr417
+		goto tr397
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 71:
-			goto st552
-		case 103:
-			goto st552
+		case 9:
+			goto tr741
+		case 32:
+			goto tr741
+		case 58:
+			goto tr742
 		}
-		goto tr417
+		goto tr397
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 65:
-			goto st553
-		case 97:
+		case 45:
 			goto st553
+		case 82:
+			goto st571
+		case 114:
+			goto st571
 		}
-		goto tr417
+		goto tr397
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st554
-		case 110:
+		case 97:
 			goto st554
 		}
-		goto tr417
+		goto tr397
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st555
-		case 105:
+		case 115:
 			goto st555
 		}
-		goto tr417
+		goto tr397
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 90:
+		case 83:
 			goto st556
-		case 122:
+		case 115:
 			goto st556
 		}
-		goto tr417
+		goto tr397
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st557
-		case 97:
+		case 101:
 			goto st557
 		}
-		goto tr417
+		goto tr397
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st558
-		case 116:
+		case 114:
 			goto st558
 		}
-		goto tr417
+		goto tr397
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st559
-		case 105:
+		case 116:
 			goto st559
 		}
-		goto tr417
+		goto tr397
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st560
-		case 111:
+		case 101:
 			goto st560
 		}
-		goto tr417
+		goto tr397
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
 		switch data[p] {
-		case 78:
+		case 68:
 			goto st561
-		case 110:
+		case 100:
 			goto st561
 		}
-		goto tr417
+		goto tr397
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
-		switch data[p] {
-		case 9:
-			goto tr761
-		case 32:
-			goto tr761
-		case 58:
-			goto tr762
+		if data[p] == 45 {
+			goto st562
 		}
-		goto tr417
+		goto tr397
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 45:
+		case 73:
+			goto st563
+		case 105:
 			goto st563
-		case 82:
-			goto st581
-		case 114:
-			goto st581
 		}
-		goto tr417
+		goto tr397
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st564
-		case 97:
+		case 100:
 			goto st564
 		}
-		goto tr417
+		goto tr397
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st565
-		case 115:
+		case 101:
 			goto st565
 		}
-		goto tr417
+		goto tr397
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 83:
+		case 78:
 			goto st566
-		case 115:
+		case 110:
 			goto st566
 		}
-		goto tr417
+		goto tr397
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st567
-		case 101:
+		case 116:
 			goto st567
 		}
-		goto tr417
+		goto tr397
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st568
-		case 114:
+		case 105:
 			goto st568
 		}
-		goto tr417
+		goto tr397
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
@@ -14501,124 +13941,135 @@ tr747:
 		case 116:
 			goto st569
 		}
-		goto tr417
+		goto tr397
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 69:
+		case 89:
 			goto st570
-		case 101:
+		case 121:
 			goto st570
 		}
-		goto tr417
+		goto tr397
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
 		switch data[p] {
-		case 68:
-			goto st571
-		case 100:
-			goto st571
+		case 9:
+			goto tr762
+		case 32:
+			goto tr762
+		case 58:
+			goto tr763
 		}
-		goto tr417
+		goto tr397
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st572
+		case 79:
+			goto st578
+		case 105:
 			goto st572
+		case 111:
+			goto st578
 		}
-		goto tr417
+		goto tr397
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st573
-		case 105:
+		case 111:
 			goto st573
 		}
-		goto tr417
+		goto tr397
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st574
-		case 100:
+		case 114:
 			goto st574
 		}
-		goto tr417
+		goto tr397
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st575
-		case 101:
+		case 105:
 			goto st575
 		}
-		goto tr417
+		goto tr397
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st576
-		case 110:
+		case 116:
 			goto st576
 		}
-		goto tr417
+		goto tr397
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st577
-		case 116:
+		case 121:
 			goto st577
 		}
-		goto tr417
+		goto tr397
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 73:
-			goto st578
-		case 105:
-			goto st578
+		case 9:
+			goto tr771
+		case 32:
+			goto tr771
+		case 58:
+			goto tr772
 		}
-		goto tr417
+		goto tr397
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
 		switch data[p] {
-		case 84:
+		case 88:
 			goto st579
-		case 116:
+		case 120:
 			goto st579
 		}
-		goto tr417
+		goto tr397
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
@@ -14630,572 +14081,563 @@ tr747:
 		case 121:
 			goto st580
 		}
-		goto tr417
+		goto tr397
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
-		switch data[p] {
-		case 9:
-			goto tr782
-		case 32:
-			goto tr782
-		case 58:
-			goto tr783
+		if data[p] == 45 {
+			goto st581
 		}
-		goto tr417
+		goto tr397
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st582
-		case 79:
-			goto st588
-		case 105:
+		case 82:
+			goto st603
+		case 97:
 			goto st582
-		case 111:
-			goto st588
+		case 114:
+			goto st603
 		}
-		goto tr417
+		goto tr397
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 79:
+		case 85:
 			goto st583
-		case 111:
+		case 117:
 			goto st583
 		}
-		goto tr417
+		goto tr397
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st584
-		case 114:
+		case 116:
 			goto st584
 		}
-		goto tr417
+		goto tr397
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 73:
+		case 72:
 			goto st585
-		case 105:
+		case 104:
 			goto st585
 		}
-		goto tr417
+		goto tr397
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st586
-		case 116:
+		case 79:
+			goto st594
+		case 101:
 			goto st586
+		case 111:
+			goto st594
 		}
-		goto tr417
+		goto tr397
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st587
-		case 121:
+		case 110:
 			goto st587
 		}
-		goto tr417
+		goto tr397
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 9:
-			goto tr791
-		case 32:
-			goto tr791
-		case 58:
-			goto tr792
+		case 84:
+			goto st588
+		case 116:
+			goto st588
 		}
-		goto tr417
+		goto tr397
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 88:
+		case 73:
 			goto st589
-		case 120:
+		case 105:
 			goto st589
 		}
-		goto tr417
+		goto tr397
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
 		switch data[p] {
-		case 89:
+		case 67:
 			goto st590
-		case 121:
+		case 99:
 			goto st590
 		}
-		goto tr417
+		goto tr397
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st591
+		case 97:
 			goto st591
 		}
-		goto tr417
+		goto tr397
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st592
-		case 82:
-			goto st613
-		case 97:
+		case 116:
 			goto st592
-		case 114:
-			goto st613
 		}
-		goto tr417
+		goto tr397
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st593
-		case 117:
+		case 101:
 			goto st593
 		}
-		goto tr417
+		goto tr397
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 84:
-			goto st594
-		case 116:
-			goto st594
+		case 9:
+			goto tr790
+		case 32:
+			goto tr790
+		case 58:
+			goto tr791
 		}
-		goto tr417
+		goto tr397
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 72:
+		case 82:
 			goto st595
-		case 104:
+		case 114:
 			goto st595
 		}
-		goto tr417
+		goto tr397
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st596
-		case 79:
-			goto st604
-		case 101:
+		case 105:
 			goto st596
-		case 111:
-			goto st604
 		}
-		goto tr417
+		goto tr397
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 78:
+		case 90:
 			goto st597
-		case 110:
+		case 122:
 			goto st597
 		}
-		goto tr417
+		goto tr397
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st598
-		case 116:
+		case 97:
 			goto st598
 		}
-		goto tr417
+		goto tr397
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st599
-		case 105:
+		case 116:
 			goto st599
 		}
-		goto tr417
+		goto tr397
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st600
-		case 99:
+		case 105:
 			goto st600
 		}
-		goto tr417
+		goto tr397
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st601
-		case 97:
+		case 111:
 			goto st601
 		}
-		goto tr417
+		goto tr397
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st602
-		case 116:
+		case 110:
 			goto st602
 		}
-		goto tr417
+		goto tr397
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 69:
-			goto st603
-		case 101:
-			goto st603
+		case 9:
+			goto tr800
+		case 32:
+			goto tr800
+		case 58:
+			goto tr801
 		}
-		goto tr417
+		goto tr397
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 69:
+			goto st604
+		case 101:
+			goto st604
 		}
-		goto tr417
+		goto tr397
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 82:
+		case 81:
 			goto st605
-		case 114:
+		case 113:
 			goto st605
 		}
-		goto tr417
+		goto tr397
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st606
-		case 105:
+		case 117:
 			goto st606
 		}
-		goto tr417
+		goto tr397
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st607
-		case 122:
+		case 105:
 			goto st607
 		}
-		goto tr417
+		goto tr397
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st608
-		case 97:
+		case 114:
 			goto st608
 		}
-		goto tr417
+		goto tr397
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st609
-		case 116:
+		case 101:
 			goto st609
 		}
-		goto tr417
+		goto tr397
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
-		case 73:
-			goto st610
-		case 105:
-			goto st610
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
-		goto tr417
+		goto tr397
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
+		case 69:
+			goto st611
 		case 79:
+			goto st666
+		case 101:
 			goto st611
 		case 111:
-			goto st611
+			goto st666
 		}
-		goto tr417
+		goto tr397
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st612
-		case 110:
+		case 70:
+			goto st622
+		case 77:
+			goto st633
+		case 80:
+			goto st646
+		case 81:
+			goto st652
+		case 84:
+			goto st657
+		case 99:
 			goto st612
+		case 102:
+			goto st622
+		case 109:
+			goto st633
+		case 112:
+			goto st646
+		case 113:
+			goto st652
+		case 116:
+			goto st657
 		}
-		goto tr417
+		goto tr397
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 9:
-			goto tr820
-		case 32:
-			goto tr820
-		case 58:
-			goto tr821
+		case 79:
+			goto st613
+		case 111:
+			goto st613
 		}
-		goto tr417
+		goto tr397
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st614
-		case 101:
+		case 114:
 			goto st614
 		}
-		goto tr417
+		goto tr397
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
 		switch data[p] {
-		case 81:
+		case 68:
 			goto st615
-		case 113:
+		case 100:
 			goto st615
 		}
-		goto tr417
+		goto tr397
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
-		switch data[p] {
-		case 85:
-			goto st616
-		case 117:
+		if data[p] == 45 {
 			goto st616
 		}
-		goto tr417
+		goto tr397
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st617
-		case 105:
+		case 114:
 			goto st617
 		}
-		goto tr417
+		goto tr397
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st618
-		case 114:
+		case 111:
 			goto st618
 		}
-		goto tr417
+		goto tr397
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st619
-		case 101:
+		case 117:
 			goto st619
 		}
-		goto tr417
+		goto tr397
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 9:
-			goto tr828
-		case 32:
-			goto tr828
-		case 58:
-			goto tr829
+		case 84:
+			goto st620
+		case 116:
+			goto st620
 		}
-		goto tr417
+		goto tr397
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
 		}
 	st_case_620:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
 		case 69:
 			goto st621
-		case 79:
-			goto st676
 		case 101:
 			goto st621
-		case 111:
-			goto st676
 		}
-		goto tr417
+		goto tr397
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
 	st_case_621:
 		switch data[p] {
-		case 67:
-			goto st622
-		case 70:
-			goto st632
-		case 77:
-			goto st643
-		case 80:
-			goto st656
-		case 81:
-			goto st662
-		case 84:
-			goto st667
-		case 99:
-			goto st622
-		case 102:
-			goto st632
-		case 109:
-			goto st643
-		case 112:
-			goto st656
-		case 113:
-			goto st662
-		case 116:
-			goto st667
+		case 9:
+			goto tr829
+		case 32:
+			goto tr829
+		case 58:
+			goto tr830
 		}
-		goto tr417
+		goto tr397
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st623
-		case 111:
+		case 101:
 			goto st623
 		}
-		goto tr417
+		goto tr397
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
@@ -15207,349 +14649,351 @@ tr747:
 		case 114:
 			goto st624
 		}
-		goto tr417
+		goto tr397
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
 		switch data[p] {
-		case 68:
-			goto st625
-		case 100:
+		case 45:
 			goto st625
+		case 82:
+			goto st628
+		case 114:
+			goto st628
 		}
-		goto tr417
+		goto tr397
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st626
+		case 116:
 			goto st626
 		}
-		goto tr417
+		goto tr397
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st627
-		case 114:
+		case 111:
 			goto st627
 		}
-		goto tr417
+		goto tr397
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 79:
-			goto st628
-		case 111:
-			goto st628
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
-		goto tr417
+		goto tr397
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st629
-		case 117:
+		case 101:
 			goto st629
 		}
-		goto tr417
+		goto tr397
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st630
-		case 116:
+		case 100:
 			goto st630
 		}
-		goto tr417
+		goto tr397
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
-		switch data[p] {
-		case 69:
-			goto st631
-		case 101:
+		if data[p] == 45 {
 			goto st631
 		}
-		goto tr417
+		goto tr397
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
 		switch data[p] {
-		case 9:
-			goto tr849
-		case 32:
-			goto tr849
-		case 58:
-			goto tr850
+		case 66:
+			goto st632
+		case 98:
+			goto st632
 		}
-		goto tr417
+		goto tr397
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 69:
-			goto st633
-		case 101:
-			goto st633
+		case 89:
+			goto st354
+		case 121:
+			goto st354
 		}
-		goto tr417
+		goto tr397
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st634
-		case 114:
+		case 111:
 			goto st634
 		}
-		goto tr417
+		goto tr397
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 45:
+		case 84:
+			goto st635
+		case 116:
 			goto st635
-		case 82:
-			goto st638
-		case 114:
-			goto st638
 		}
-		goto tr417
+		goto tr397
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st636
-		case 116:
+		case 101:
 			goto st636
 		}
-		goto tr417
+		goto tr397
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
-		switch data[p] {
-		case 79:
-			goto st637
-		case 111:
+		if data[p] == 45 {
 			goto st637
 		}
-		goto tr417
+		goto tr397
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
+		case 80:
+			goto st638
+		case 112:
+			goto st638
 		}
-		goto tr417
+		goto tr397
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st639
-		case 101:
+		case 97:
 			goto st639
 		}
-		goto tr417
+		goto tr397
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st640
-		case 100:
+		case 114:
 			goto st640
 		}
-		goto tr417
+		goto tr397
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st641
+		case 116:
 			goto st641
 		}
-		goto tr417
+		goto tr397
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
 		switch data[p] {
-		case 66:
+		case 89:
 			goto st642
-		case 98:
+		case 121:
 			goto st642
 		}
-		goto tr417
+		goto tr397
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
-		switch data[p] {
-		case 89:
-			goto st364
-		case 121:
-			goto st364
+		if data[p] == 45 {
+			goto st643
 		}
-		goto tr417
+		goto tr397
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st644
-		case 111:
+		case 105:
 			goto st644
 		}
-		goto tr417
+		goto tr397
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st645
-		case 116:
+		case 100:
 			goto st645
 		}
-		goto tr417
+		goto tr397
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
 		switch data[p] {
-		case 69:
-			goto st646
-		case 101:
-			goto st646
+		case 9:
+			goto tr853
+		case 32:
+			goto tr853
+		case 58:
+			goto tr854
 		}
-		goto tr417
+		goto tr397
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st647
+		case 108:
 			goto st647
 		}
-		goto tr417
+		goto tr397
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st648
-		case 112:
+		case 121:
 			goto st648
 		}
-		goto tr417
+		goto tr397
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
-		switch data[p] {
-		case 65:
-			goto st649
-		case 97:
+		if data[p] == 45 {
 			goto st649
 		}
-		goto tr417
+		goto tr397
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st650
-		case 114:
+		case 116:
 			goto st650
 		}
-		goto tr417
+		goto tr397
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st651
-		case 116:
+		case 111:
 			goto st651
 		}
-		goto tr417
+		goto tr397
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
 		switch data[p] {
-		case 89:
-			goto st652
-		case 121:
-			goto st652
+		case 9:
+			goto tr860
+		case 32:
+			goto tr860
+		case 58:
+			goto tr861
 		}
-		goto tr417
+		goto tr397
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st653
+		case 117:
 			goto st653
 		}
-		goto tr417
+		goto tr397
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
@@ -15561,128 +15005,126 @@ tr747:
 		case 105:
 			goto st654
 		}
-		goto tr417
+		goto tr397
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st655
-		case 100:
+		case 114:
 			goto st655
 		}
-		goto tr417
+		goto tr397
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 9:
-			goto tr873
-		case 32:
-			goto tr873
-		case 58:
-			goto tr874
+		case 69:
+			goto st656
+		case 101:
+			goto st656
 		}
-		goto tr417
+		goto tr397
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 76:
-			goto st657
-		case 108:
-			goto st657
+		case 9:
+			goto tr866
+		case 32:
+			goto tr866
+		case 58:
+			goto tr867
 		}
-		goto tr417
+		goto tr397
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st658
-		case 121:
+		case 114:
 			goto st658
 		}
-		goto tr417
+		goto tr397
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st659
+		case 121:
 			goto st659
 		}
-		goto tr417
+		goto tr397
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
-		switch data[p] {
-		case 84:
-			goto st660
-		case 116:
+		if data[p] == 45 {
 			goto st660
 		}
-		goto tr417
+		goto tr397
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st661
-		case 111:
+		case 97:
 			goto st661
 		}
-		goto tr417
+		goto tr397
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 70:
+			goto st662
+		case 102:
+			goto st662
 		}
-		goto tr417
+		goto tr397
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st663
-		case 117:
+		case 116:
 			goto st663
 		}
-		goto tr417
+		goto tr397
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st664
-		case 105:
+		case 101:
 			goto st664
 		}
-		goto tr417
+		goto tr397
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
@@ -15694,102 +15136,117 @@ tr747:
 		case 114:
 			goto st665
 		}
-		goto tr417
+		goto tr397
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 69:
-			goto st666
-		case 101:
-			goto st666
+		case 9:
+			goto tr876
+		case 32:
+			goto tr876
+		case 58:
+			goto tr877
 		}
-		goto tr417
+		goto tr397
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 85:
+			goto st667
+		case 117:
+			goto st667
 		}
-		goto tr417
+		goto tr397
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st668
-		case 114:
+		case 116:
 			goto st668
 		}
-		goto tr417
+		goto tr397
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
 		switch data[p] {
-		case 89:
+		case 69:
 			goto st669
-		case 121:
+		case 101:
 			goto st669
 		}
-		goto tr417
+		goto tr397
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
-		if data[p] == 45 {
-			goto st670
+		switch data[p] {
+		case 9:
+			goto tr881
+		case 32:
+			goto tr881
+		case 58:
+			goto tr882
 		}
-		goto tr417
+		goto tr397
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 65:
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
+		case 69:
 			goto st671
-		case 97:
+		case 85:
+			goto st676
+		case 101:
 			goto st671
+		case 117:
+			goto st676
 		}
-		goto tr417
+		goto tr397
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 70:
+		case 82:
 			goto st672
-		case 102:
+		case 114:
 			goto st672
 		}
-		goto tr417
+		goto tr397
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 84:
+		case 86:
 			goto st673
-		case 116:
+		case 118:
 			goto st673
 		}
-		goto tr417
+		goto tr397
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
@@ -15801,7 +15258,7 @@ tr747:
 		case 101:
 			goto st674
 		}
-		goto tr417
+		goto tr397
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
@@ -15813,7 +15270,7 @@ tr747:
 		case 114:
 			goto st675
 		}
-		goto tr417
+		goto tr397
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
@@ -15821,37 +15278,41 @@ tr747:
 	st_case_675:
 		switch data[p] {
 		case 9:
-			goto tr896
+			goto tr891
 		case 32:
-			goto tr896
+			goto tr891
 		case 58:
-			goto tr897
+			goto tr892
 		}
-		goto tr417
+		goto tr397
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 85:
+		case 66:
 			goto st677
-		case 117:
+		case 80:
+			goto st682
+		case 98:
 			goto st677
+		case 112:
+			goto st682
 		}
-		goto tr417
+		goto tr397
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 84:
+		case 74:
 			goto st678
-		case 116:
+		case 106:
 			goto st678
 		}
-		goto tr417
+		goto tr397
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
@@ -15863,79 +15324,69 @@ tr747:
 		case 101:
 			goto st679
 		}
-		goto tr417
+		goto tr397
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 9:
-			goto tr901
-		case 32:
-			goto tr901
-		case 58:
-			goto tr902
+		case 67:
+			goto st680
+		case 99:
+			goto st680
 		}
-		goto tr417
+		goto tr397
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
-		case 69:
+		case 84:
 			goto st681
-		case 85:
-			goto st686
-		case 101:
+		case 116:
 			goto st681
-		case 117:
-			goto st686
 		}
-		goto tr417
+		goto tr397
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 82:
-			goto st682
-		case 114:
-			goto st682
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
 		}
-		goto tr417
+		goto tr397
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 86:
+		case 80:
 			goto st683
-		case 118:
+		case 112:
 			goto st683
 		}
-		goto tr417
+		goto tr397
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st684
-		case 101:
+		case 111:
 			goto st684
 		}
-		goto tr417
+		goto tr397
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
@@ -15947,171 +15398,177 @@ tr747:
 		case 114:
 			goto st685
 		}
-		goto tr417
+		goto tr397
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr911
-		case 32:
-			goto tr911
-		case 58:
-			goto tr912
+		case 84:
+			goto st686
+		case 116:
+			goto st686
 		}
-		goto tr417
+		goto tr397
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 66:
+		case 69:
 			goto st687
-		case 80:
-			goto st692
-		case 98:
+		case 101:
 			goto st687
-		case 112:
-			goto st692
 		}
-		goto tr417
+		goto tr397
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 74:
-			goto st688
-		case 106:
-			goto st688
+		case 68:
+			goto st495
+		case 100:
+			goto st495
 		}
-		goto tr417
+		goto tr397
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 69:
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
+		case 73:
 			goto st689
-		case 101:
+		case 79:
+			goto st697
+		case 105:
 			goto st689
+		case 111:
+			goto st697
 		}
-		goto tr417
+		goto tr397
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 67:
+		case 77:
 			goto st690
-		case 99:
+		case 109:
 			goto st690
 		}
-		goto tr417
+		goto tr397
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st691
-		case 116:
+		case 101:
 			goto st691
 		}
-		goto tr417
+		goto tr397
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 83:
+			goto st692
+		case 115:
+			goto st692
 		}
-		goto tr417
+		goto tr397
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st693
-		case 112:
+		case 116:
 			goto st693
 		}
-		goto tr417
+		goto tr397
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st694
-		case 111:
+		case 97:
 			goto st694
 		}
-		goto tr417
+		goto tr397
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st695
-		case 114:
+		case 109:
 			goto st695
 		}
-		goto tr417
+		goto tr397
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st696
-		case 116:
+		case 112:
 			goto st696
 		}
-		goto tr417
+		goto tr397
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 69:
-			goto st697
-		case 101:
-			goto st697
+		case 9:
+			goto tr915
+		case 32:
+			goto tr915
+		case 58:
+			goto tr916
 		}
-		goto tr417
+		goto tr397
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
 		}
 	st_case_697:
 		switch data[p] {
-		case 68:
-			goto st505
-		case 100:
-			goto st505
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
 		}
-		goto tr417
+		goto tr397
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
@@ -16119,133 +15576,129 @@ tr747:
 	st_case_698:
 		switch data[p] {
 		case 9:
-			goto tr924
+			goto tr917
 		case 32:
-			goto tr924
+			goto tr917
 		case 58:
-			goto tr925
-		case 73:
+			goto tr918
+		case 78:
 			goto st699
-		case 79:
-			goto st707
-		case 105:
+		case 83:
+			goto st709
+		case 110:
 			goto st699
-		case 111:
-			goto st707
+		case 115:
+			goto st709
 		}
-		goto tr417
+		goto tr397
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 77:
+		case 83:
 			goto st700
-		case 109:
+		case 115:
 			goto st700
 		}
-		goto tr417
+		goto tr397
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st701
-		case 101:
+		case 117:
 			goto st701
 		}
-		goto tr417
+		goto tr397
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 83:
+		case 80:
 			goto st702
-		case 115:
+		case 112:
 			goto st702
 		}
-		goto tr417
+		goto tr397
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st703
-		case 116:
+		case 112:
 			goto st703
 		}
-		goto tr417
+		goto tr397
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st704
-		case 97:
+		case 111:
 			goto st704
 		}
-		goto tr417
+		goto tr397
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 77:
+		case 82:
 			goto st705
-		case 109:
+		case 114:
 			goto st705
 		}
-		goto tr417
+		goto tr397
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st706
-		case 112:
+		case 116:
 			goto st706
 		}
-		goto tr417
+		goto tr397
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 9:
-			goto tr935
-		case 32:
-			goto tr935
-		case 58:
-			goto tr936
+		case 69:
+			goto st707
+		case 101:
+			goto st707
 		}
-		goto tr417
+		goto tr397
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
 		}
 	st_case_707:
 		switch data[p] {
-		case 9:
-			goto tr924
-		case 32:
-			goto tr924
-		case 58:
-			goto tr925
+		case 68:
+			goto st708
+		case 100:
+			goto st708
 		}
-		goto tr417
+		goto tr397
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
@@ -16253,129 +15706,120 @@ tr747:
 	st_case_708:
 		switch data[p] {
 		case 9:
-			goto tr937
+			goto tr930
 		case 32:
-			goto tr937
+			goto tr930
 		case 58:
-			goto tr938
-		case 78:
-			goto st709
-		case 83:
-			goto st719
-		case 110:
-			goto st709
-		case 115:
-			goto st719
+			goto tr931
 		}
-		goto tr417
+		goto tr397
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st710
-		case 115:
+		case 101:
 			goto st710
 		}
-		goto tr417
+		goto tr397
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
 		switch data[p] {
-		case 85:
+		case 82:
 			goto st711
-		case 117:
+		case 114:
 			goto st711
 		}
-		goto tr417
+		goto tr397
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
-		switch data[p] {
-		case 80:
-			goto st712
-		case 112:
+		if data[p] == 45 {
 			goto st712
 		}
-		goto tr417
+		goto tr397
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 80:
+		case 65:
 			goto st713
-		case 112:
+		case 97:
 			goto st713
 		}
-		goto tr417
+		goto tr397
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 79:
+		case 71:
 			goto st714
-		case 111:
+		case 103:
 			goto st714
 		}
-		goto tr417
+		goto tr397
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st715
-		case 114:
+		case 101:
 			goto st715
 		}
-		goto tr417
+		goto tr397
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st716
-		case 116:
+		case 110:
 			goto st716
 		}
-		goto tr417
+		goto tr397
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st717
-		case 101:
+		case 116:
 			goto st717
 		}
-		goto tr417
+		goto tr397
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
 		}
 	st_case_717:
 		switch data[p] {
-		case 68:
-			goto st718
-		case 100:
-			goto st718
+		case 9:
+			goto tr940
+		case 32:
+			goto tr940
+		case 58:
+			goto tr941
 		}
-		goto tr417
+		goto tr397
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
@@ -16383,192 +15827,197 @@ tr747:
 	st_case_718:
 		switch data[p] {
 		case 9:
-			goto tr950
+			goto st719
 		case 32:
-			goto tr950
+			goto st719
 		case 58:
-			goto tr951
+			goto st720
+		case 73:
+			goto st724
+		case 105:
+			goto st724
 		}
-		goto tr417
+		goto tr397
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
 		switch data[p] {
-		case 69:
-			goto st720
-		case 101:
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 58:
 			goto st720
 		}
-		goto tr417
+		goto st0
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st720
+		case 32:
+			goto st720
+		case 269:
+			goto tr945
+		case 525:
 			goto st721
 		}
-		goto tr417
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr945
+			}
+		default:
+			goto tr945
+		}
+		goto st0
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
-		if data[p] == 45 {
+		if data[p] == 10 {
 			goto st722
 		}
-		goto tr417
+		goto st0
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 65:
+		case 9:
 			goto st723
-		case 97:
+		case 32:
 			goto st723
 		}
-		goto tr417
+		goto st0
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 71:
-			goto st724
-		case 103:
-			goto st724
+		case 9:
+			goto st723
+		case 32:
+			goto st723
 		}
-		goto tr417
+		goto tr945
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st725
-		case 101:
+		case 97:
 			goto st725
 		}
-		goto tr417
+		goto tr397
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 78:
-			goto st726
-		case 110:
-			goto st726
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 58:
+			goto st720
 		}
-		goto tr417
+		goto tr397
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st727
-		case 116:
+		case 87:
+			goto st733
+		case 97:
 			goto st727
+		case 119:
+			goto st733
 		}
-		goto tr417
+		goto tr397
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
 		switch data[p] {
-		case 9:
-			goto tr960
-		case 32:
-			goto tr960
-		case 58:
-			goto tr961
+		case 82:
+			goto st728
+		case 114:
+			goto st728
 		}
-		goto tr417
+		goto tr397
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
 		}
 	st_case_728:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st729
-		case 32:
+		case 110:
 			goto st729
-		case 58:
-			goto st730
-		case 73:
-			goto st734
-		case 105:
-			goto st734
 		}
-		goto tr417
+		goto tr397
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
 		switch data[p] {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 58:
+		case 73:
+			goto st730
+		case 105:
 			goto st730
 		}
-		goto st0
+		goto tr397
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st730
-		case 32:
-			goto st730
-		case 269:
-			goto tr965
-		case 525:
+		switch data[p] {
+		case 78:
+			goto st731
+		case 110:
 			goto st731
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr965
-			}
-		default:
-			goto tr965
-		}
-		goto st0
+		goto tr397
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
-		if data[p] == 10 {
+		switch data[p] {
+		case 71:
+			goto st732
+		case 103:
 			goto st732
 		}
-		goto st0
+		goto tr397
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
@@ -16576,101 +16025,94 @@ tr747:
 	st_case_732:
 		switch data[p] {
 		case 9:
-			goto st733
+			goto tr957
 		case 32:
-			goto st733
+			goto tr957
+		case 58:
+			goto tr958
 		}
-		goto st0
+		goto tr397
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 9:
-			goto st733
-		case 32:
-			goto st733
+		case 87:
+			goto st734
+		case 119:
+			goto st734
 		}
-		goto tr965
+		goto tr397
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
-		switch data[p] {
-		case 65:
-			goto st735
-		case 97:
+		if data[p] == 45 {
 			goto st735
 		}
-		goto tr417
+		goto tr397
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 58:
-			goto st730
+		case 65:
+			goto st736
+		case 97:
+			goto st736
 		}
-		goto tr417
+		goto tr397
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st737
-		case 87:
-			goto st743
-		case 97:
+		case 117:
 			goto st737
-		case 119:
-			goto st743
 		}
-		goto tr417
+		goto tr397
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st738
-		case 114:
+		case 116:
 			goto st738
 		}
-		goto tr417
+		goto tr397
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 78:
+		case 72:
 			goto st739
-		case 110:
+		case 104:
 			goto st739
 		}
-		goto tr417
+		goto tr397
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st740
-		case 105:
+		case 101:
 			goto st740
 		}
-		goto tr417
+		goto tr397
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
@@ -16682,212 +16124,93 @@ tr747:
 		case 110:
 			goto st741
 		}
-		goto tr417
+		goto tr397
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 71:
+		case 84:
 			goto st742
-		case 103:
+		case 116:
 			goto st742
 		}
-		goto tr417
+		goto tr397
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 9:
-			goto tr977
-		case 32:
-			goto tr977
-		case 58:
-			goto tr978
+		case 73:
+			goto st743
+		case 105:
+			goto st743
 		}
-		goto tr417
+		goto tr397
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
 		switch data[p] {
-		case 87:
+		case 67:
 			goto st744
-		case 119:
+		case 99:
 			goto st744
 		}
-		goto tr417
+		goto tr397
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st745
+		case 97:
 			goto st745
 		}
-		goto tr417
+		goto tr397
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st746
-		case 97:
+		case 116:
 			goto st746
 		}
-		goto tr417
+		goto tr397
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st747
-		case 117:
+		case 101:
 			goto st747
 		}
-		goto tr417
+		goto tr397
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
 		}
 	st_case_747:
-		switch data[p] {
-		case 84:
-			goto st748
-		case 116:
-			goto st748
-		}
-		goto tr417
-	st748:
-		if p++; p == pe {
-			goto _test_eof748
-		}
-	st_case_748:
-		switch data[p] {
-		case 72:
-			goto st749
-		case 104:
-			goto st749
-		}
-		goto tr417
-	st749:
-		if p++; p == pe {
-			goto _test_eof749
-		}
-	st_case_749:
-		switch data[p] {
-		case 69:
-			goto st750
-		case 101:
-			goto st750
-		}
-		goto tr417
-	st750:
-		if p++; p == pe {
-			goto _test_eof750
-		}
-	st_case_750:
-		switch data[p] {
-		case 78:
-			goto st751
-		case 110:
-			goto st751
-		}
-		goto tr417
-	st751:
-		if p++; p == pe {
-			goto _test_eof751
-		}
-	st_case_751:
-		switch data[p] {
-		case 84:
-			goto st752
-		case 116:
-			goto st752
-		}
-		goto tr417
-	st752:
-		if p++; p == pe {
-			goto _test_eof752
-		}
-	st_case_752:
-		switch data[p] {
-		case 73:
-			goto st753
-		case 105:
-			goto st753
-		}
-		goto tr417
-	st753:
-		if p++; p == pe {
-			goto _test_eof753
-		}
-	st_case_753:
-		switch data[p] {
-		case 67:
-			goto st754
-		case 99:
-			goto st754
-		}
-		goto tr417
-	st754:
-		if p++; p == pe {
-			goto _test_eof754
-		}
-	st_case_754:
-		switch data[p] {
-		case 65:
-			goto st755
-		case 97:
-			goto st755
-		}
-		goto tr417
-	st755:
-		if p++; p == pe {
-			goto _test_eof755
-		}
-	st_case_755:
-		switch data[p] {
-		case 84:
-			goto st756
-		case 116:
-			goto st756
-		}
-		goto tr417
-	st756:
-		if p++; p == pe {
-			goto _test_eof756
-		}
-	st_case_756:
-		switch data[p] {
-		case 69:
-			goto st757
-		case 101:
-			goto st757
-		}
-		goto tr417
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
 		switch data[p] {
 		case 9:
-			goto tr993
+			goto tr973
 		case 32:
-			goto tr993
+			goto tr973
 		case 58:
-			goto tr994
+			goto tr974
 		}
-		goto tr417
+		goto tr397
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -16901,7 +16224,7 @@ tr747:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
+	_test_eof748: cs = 748; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -16933,7 +16256,7 @@ tr747:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
+	_test_eof749: cs = 749; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -16961,7 +16284,7 @@ tr747:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
+	_test_eof750: cs = 750; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17005,7 +16328,7 @@ tr747:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
+	_test_eof751: cs = 751; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17048,7 +16371,7 @@ tr747:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
+	_test_eof752: cs = 752; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17088,7 +16411,7 @@ tr747:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
+	_test_eof753: cs = 753; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17128,7 +16451,7 @@ tr747:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
+	_test_eof754: cs = 754; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17141,51 +16464,45 @@ tr747:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
+	_test_eof755: cs = 755; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
+	_test_eof756: cs = 756; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
 	_test_eof262: cs = 262; goto _test_eof
 	_test_eof263: cs = 263; goto _test_eof
 	_test_eof264: cs = 264; goto _test_eof
 	_test_eof265: cs = 265; goto _test_eof
 	_test_eof266: cs = 266; goto _test_eof
+	_test_eof757: cs = 757; goto _test_eof
 	_test_eof267: cs = 267; goto _test_eof
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
@@ -17652,28 +16969,18 @@ tr747:
 	_test_eof745: cs = 745; goto _test_eof
 	_test_eof746: cs = 746; goto _test_eof
 	_test_eof747: cs = 747; goto _test_eof
-	_test_eof748: cs = 748; goto _test_eof
-	_test_eof749: cs = 749; goto _test_eof
-	_test_eof750: cs = 750; goto _test_eof
-	_test_eof751: cs = 751; goto _test_eof
-	_test_eof752: cs = 752; goto _test_eof
-	_test_eof753: cs = 753; goto _test_eof
-	_test_eof754: cs = 754; goto _test_eof
-	_test_eof755: cs = 755; goto _test_eof
-	_test_eof756: cs = 756; goto _test_eof
-	_test_eof757: cs = 757; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757:
+		case 272, 273, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 361, 362, 363, 364, 365, 366, 376, 377, 378, 379, 380, 381, 382, 383, 384, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 432, 433, 434, 435, 436, 437, 438, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
-	{goto st273 }
+	{goto st263 }
 
-//line msg_parse.go:17668
+//line msg_parse.go:16975
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index e5d8c75..2979a31 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -425,7 +425,7 @@ addr_angled       := addr_display? addr_spec addr_angled_end;
 addr_uri_end       = CRLF @Addr @goto_header
                    | SEMI <: any @hold @goto_addr_param
                    | COMMA <: any @Addr @hold @goto_addr;
-addr_uri          := ( uri - ";" ) %AddrUri addr_uri_end;
+addr_uri          := ( scheme ":" ( uric - [;,] )+ ) %AddrUri addr_uri_end;
 addr              := [<\"] @AddrNew @hold @goto_addr_angled
                    | unquoted_string >mark "<" @AddrNew @backtrack @goto_addr_angled
                    | scheme >mark ":" @AddrNew @backtrack @goto_addr_uri;
-- 
2.43.0


From ae5f08764801748c4dd64059696a85a9388523b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 33/45] fix: reason phrase of 500

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index 94142a9..0d0302a 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -174,7 +174,7 @@ var phrases = map[int]string{
 	StatusRequestPending:               "Request Pending",
 	StatusUndecipherable:               "Undecipherable",
 	StatusSecurityAgreementRequired:    "Security Agreement Required",
-	StatusInternalServerError:          "Internal Server Error",
+	StatusInternalServerError:          "Server Internal Error",
 	StatusNotImplemented:               "Not Implemented",
 	StatusBadGateway:                   "Bad Gateway",
 	StatusServiceUnavailable:           "Service Unavailable",
-- 
2.43.0


From d2699e3487cfb159e22a046ca6cfb1fc56b02cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 34/45] fix: retransmitted requests have lower and lower
 Max-Forwards

---
 dialog/dialog.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 54ac476..ff01d36 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -421,6 +421,11 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 			return false
 		}
 	}
+	return dls.transmit(msg)
+}
+
+// transmit sends a message without counting a hop, as for a retransmission.
+func (dls *dialogState) transmit(msg *sip.Msg) bool {
 	ts := time.Now()
 	addTimestamp(msg, ts)
 	dls.b.Reset()
@@ -441,7 +446,7 @@ func (dls *dialogState) resendRequest() bool {
 		return true
 	}
 	if dls.requestResends < *maxResends {
-		if !dls.send(dls.request) {
+		if !dls.transmit(dls.request) {
 			return false
 		}
 		dls.requestResends++
-- 
2.43.0


From 2d7a46d4c73a4e1e0e500b16076a38ee620fb92c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 35/45] fix: ACK of a re-INVITE ignored if another request came
 before it

---
 dialog/dialog.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index ff01d36..4dceabe 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -372,12 +372,19 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		dls.errChan <- errors.New("Remote froot loop detected")
 		return false
 	}
+	if msg.Method == sip.MethodAck { // Repeats the CSeq of its INVITE, so it can't be out of order.
+		if dls.response != nil && msg.CSeq == dls.response.CSeq {
+			dls.response = nil // Re-INVITE response has been ACK'd.
+			dls.responseTimer = nil
+		}
+		return true
+	}
 	if dls.rseq == 0 {
 		dls.rseq = msg.CSeq
 	} else {
 		if msg.CSeq < dls.rseq {
 			// RFC 3261 mandates a 500 response for out of order requests.
-			return !canRespond || dls.send(NewResponse(msg, sip.StatusInternalServerError))
+			return dls.send(NewResponse(msg, sip.StatusInternalServerError))
 		}
 		dls.rseq = msg.CSeq
 	}
@@ -398,10 +405,6 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
-	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-		dls.response = nil
-		dls.responseTimer = nil
-		return true
 	default:
 		return dls.send(NewResponse(msg, sip.StatusMethodNotAllowed))
 	}
-- 
2.43.0


From 2f071ee14017b14476f72c56c70ebcff7129cfde Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 36/45] fix: messages over 2048 bytes are cut off and dropped

RFC 3261 18.1.1 requires implementations to handle messages up to the
maximum datagram size.
---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 3e62513..88cfb3e 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -24,7 +24,7 @@ import (
 )
 
 func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
-	buf := make([]byte, 2048)
+	buf := make([]byte, 65535) // RFC 3261 18.1.1: any datagram has to be handled.
 	laddr := sock.LocalAddr().(*net.UDPAddr)
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
-- 
2.43.0


From 359693ab6f7f229ec5f2ad783ece4e2ec6ed33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 37/45] fix: request with Max-Forwards 1 is sent with
 Max-Forwards 70

Decrementing it gives 0, which is formatted as 70, so that a routing loop
would never end. Dialogs already refuse to send such requests.
---
 dialog/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 008f060..0a89ec8 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -19,6 +19,7 @@ package dialog
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 
@@ -88,6 +89,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	}
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
+		if msg.MaxForwards == 0 && !msg.IsResponse() { // Which would be sent as 70.
+			return errors.New("Local froot loop detected")
+		}
 	}
 	ts := time.Now()
 	addTimestamp(msg, ts)
-- 
2.43.0


From 177fac87e316de49eb213080c73208f6941a0382 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 38/45] fix: empty datagrams crash the receiver

ParseMsg returns neither a message nor an error for nil, which is what the
copy of an empty packet was.
---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 88cfb3e..882bf69 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := append([]byte(nil), buf[0:amt]...) // Messages refer to their packet.
+		packet := append([]byte{}, buf[0:amt]...) // Messages refer to their packet.
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From e4a31de130c481dae4c24ac4f2b03d039dcebbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 39/45] fix: BYE retransmitted after a provisional response to
 it

The fix for late provisional responses returned before stopping the
retransmission, which they used to stop.
---
 dialog/dialog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 4dceabe..c45dfd2 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -304,6 +304,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status < sip.StatusOK && dls.state >= Answered {
+		dls.requestTimer = nil
 		return true // Late provisional response.
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-- 
2.43.0


From 62cdb3f9b0b8b729da3a63f406a7a3fcb9edead1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 40/45] fix: redirect or failover after a hangup calls somebody
 else

A call that is being cancelled sent a new INVITE when it was redirected or
its address failed, so that the hangup was lost.
---
 dialog/dialog.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index c45dfd2..5bbe26a 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -74,6 +74,7 @@ type dialogState struct {
 	response        *sip.Msg         // Current outbound request message.
 	responseResends int              // Number of REsends of message so far.
 	responseTimer   <-chan time.Time // Resend timer for message.
+	cancelled       bool             // We sent a CANCEL for our INVITE.
 	lseq            int              // Local CSeq value.
 	rseq            int              // Remote CSeq value.
 	b               bytes.Buffer     // Outbound message buffer.
@@ -168,7 +169,7 @@ func (dls *dialogState) sendRequest(request *sip.Msg) bool {
 }
 
 func (dls *dialogState) popRoute() bool {
-	if dls.routes == nil {
+	if dls.routes == nil || (dls.cancelled && dls.request == dls.invite) {
 		dls.errChan <- errors.New("Failed to contact: " + dls.dest)
 		return false
 	}
@@ -348,7 +349,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		if dls.request != dls.invite || msg.Contact == nil {
+		if dls.request != dls.invite || dls.cancelled || msg.Contact == nil {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
@@ -495,6 +496,7 @@ func (dls *dialogState) resendResponse() bool {
 func (dls *dialogState) sendHangup() bool {
 	switch dls.state {
 	case Proceeding, Ringing:
+		dls.cancelled = true
 		return dls.send(NewCancel(dls.invite))
 	case Answered:
 		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))
-- 
2.43.0


From d471b5c78e90acd36bc89502b6db153f6eafa908 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 41/45] fix: generated CSeq of zero is taken for none and
 replaced when a call fails over

---
 util/util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7a69062..8642737 100755
--- a/util/util.go
+++ b/util/util.go
@@ -40,14 +40,15 @@ func IsIPv6(ip string) bool {
 	return strings.Index(ip, ":") >= 0
 }
 
-// Generate a secure random number between 0 and 50,000.
+// Generate a secure random number between 1 and 50,000. It's never zero, since
+// that's how messages say they don't have a CSeq yet.
 func GenerateCSeq() int {
-	nBig, err := rand.Int(rand.Reader, big.NewInt(50000))
+	nBig, err := rand.Int(rand.Reader, big.NewInt(49999))
 	if err != nil {
 		panic("could not get random int: " + err.Error())
 	}
 
-	return int(nBig.Int64())
+	return int(nBig.Int64()) + 1
 }
 
 // Generate a 48-bit secure random string like: 27c97271d363.
-- 
2.43.0


From 4f7d3a56b3f8c39dd5d6f8846256e959a0cf90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 42/45] fix: formatting a response without a reason phrase
 changes it

---
 sip/msg.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sip/msg.go b/sip/msg.go
index e9666b3..772b1b1 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -148,14 +148,15 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		msg.appendVersion(b)
 		b.WriteString("\r\n")
 	} else {
-		if msg.Phrase == "" {
-			msg.Phrase = Phrase(msg.Status)
+		phrase := msg.Phrase
+		if phrase == "" {
+			phrase = Phrase(msg.Status)
 		}
 		msg.appendVersion(b)
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		appendEscapedUTF8(b, []byte(msg.Phrase), reasonc)
+		appendEscapedUTF8(b, []byte(phrase), reasonc)
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From fa717020c0f5fca0f6f09da47311aa520de4353b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 43/45] fix: calls made from copies of one INVITE share its
 branch and session description

---
 dialog/dialog.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 5bbe26a..ef5519b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -236,16 +236,7 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 		msg.Via = &sip.Via{Host: lhost}
 	}
 	msg.Via.Port = lport
-	branch := msg.Via.Param.Get("branch")
-	if branch != nil {
-		branch.Value = util.GenerateBranch()
-	} else {
-		msg.Via.Param = &sip.Param{
-			Name:  "branch",
-			Value: util.GenerateBranch(),
-			Next:  msg.Via.Param,
-		}
-	}
+	msg.Via.Param = setBranch(msg.Via.Param, util.GenerateBranch())
 
 	if msg.Contact == nil {
 		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: lhost}}
@@ -265,20 +256,35 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 	if msg.Method == sip.MethodInvite {
 		if ms, ok := msg.Payload.(*sdp.SDP); ok {
-			if ms.Addr == "" {
-				ms.Addr = lhost
+			res := *ms // Copies of the message share it.
+			if res.Addr == "" {
+				res.Addr = lhost
 			}
-			if ms.Origin.Addr == "" {
-				ms.Origin.Addr = lhost
+			if res.Origin.Addr == "" {
+				res.Origin.Addr = lhost
 			}
-			if ms.Origin.ID == "" {
-				ms.Origin.ID = util.GenerateOriginID()
+			if res.Origin.ID == "" {
+				res.Origin.ID = util.GenerateOriginID()
 			}
+			msg.Payload = &res
 		}
 	}
 	PopulateMessage(nil, nil, msg)
 }
 
+// setBranch returns parameters with another branch. It leaves the ones it is
+// given alone, because copies of a message share them.
+func setBranch(param *sip.Param, branch string) *sip.Param {
+	old := param.Get("branch")
+	if old == nil {
+		return &sip.Param{Name: "branch", Value: branch, Next: param}
+	}
+	if param != old {
+		return &sip.Param{Name: param.Name, Value: param.Value, Next: setBranch(param.Next, branch)}
+	}
+	return &sip.Param{Name: old.Name, Value: branch, Next: old.Next}
+}
+
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	canRespond := !msg.IsResponse() && msg.Method != sip.MethodAck
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-- 
2.43.0


From 9661a884f6b295ef1b0fff713c5456ac23197ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 44/45] fix: after a redirect or failover to another interface,
 a call keeps giving its address on the first one

---
 dialog/dialog.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index ef5519b..941d982 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -78,6 +78,9 @@ type dialogState struct {
 	lseq            int              // Local CSeq value.
 	rseq            int              // Remote CSeq value.
 	b               bytes.Buffer     // Outbound message buffer.
+
+	// Whether our address was missing from the current request in these places.
+	viaHost, contactHost, mediaAddr, originAddr bool
 }
 
 // NewDialog creates a phone call.
@@ -162,6 +165,13 @@ func (dls *dialogState) sendRequest(request *sip.Msg) bool {
 		dls.errChan <- err
 		return false
 	}
+	if request != dls.request {
+		ms, ok := request.Payload.(*sdp.SDP)
+		dls.viaHost = request.Via == nil
+		dls.contactHost = request.Contact == nil
+		dls.mediaAddr = ok && ms.Addr == ""
+		dls.originAddr = ok && ms.Origin.Addr == ""
+	}
 	dls.request = request
 	dls.routes = routes
 	dls.dest = host
@@ -233,13 +243,19 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	lport := uint16(laddr.Port)
 
 	if msg.Via == nil {
-		msg.Via = &sip.Via{Host: lhost}
+		msg.Via = new(sip.Via)
+	}
+	if dls.viaHost { // It might have been sent from another interface before.
+		msg.Via.Host = lhost
 	}
 	msg.Via.Port = lport
 	msg.Via.Param = setBranch(msg.Via.Param, util.GenerateBranch())
 
 	if msg.Contact == nil {
-		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: lhost}}
+		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip"}}
+	}
+	if dls.contactHost {
+		msg.Contact.Uri.Host = lhost
 	}
 	if dls.csock != nil {
 		msg.Contact.Uri.Port = uint16(dls.csock.LocalAddr().(*net.UDPAddr).Port)
@@ -257,10 +273,10 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	if msg.Method == sip.MethodInvite {
 		if ms, ok := msg.Payload.(*sdp.SDP); ok {
 			res := *ms // Copies of the message share it.
-			if res.Addr == "" {
+			if dls.mediaAddr {
 				res.Addr = lhost
 			}
-			if res.Origin.Addr == "" {
+			if dls.originAddr {
 				res.Origin.Addr = lhost
 			}
 			if res.Origin.ID == "" {
-- 
2.43.0


From 6ec77fa74c884bfad0c68a4513bb2e5107eda98c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:22:46 +0000
Subject: [PATCH 45/45] fix: a digit that can't be sent marks the audio packets
 after it

If the first packet of a telephone event could not be written, the header
of the session kept its marker bit, so that every frame sent later had it.
---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..96801c9 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -138,11 +138,11 @@ func (rs *Session) SendDTMF(digit byte) error {
 		event[2] = byte(dur >> 8)
 		event[3] = byte(dur & 0xff)
 		_, err := rs.Sock.WriteTo(append(rs.Header.Write(rs.obuf), event[:]...), rs.Peer)
+		rs.Header.Mark = false
 		if err != nil {
 			return err
 		}
 		rs.Header.Seq++
-		rs.Header.Mark = false
 		dur += dtmfInterval
 		if dur >= dtmfDuration {
 			break
-- 
2.43.0

