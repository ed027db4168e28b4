From e8d49c7c8a37e0139b050802955d987f29cd75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 01/15] fix: rfc5424 best effort no longer drops completed
 structured data elements and params

A failure at the start of an element (or of a parameter) deleted the previous,
already completed, one because the names of the current element and parameter
were stale.
---
 rfc5424/machine.go    | 22 ++++++++++++++++++----
 rfc5424/machine.go.rl |  9 +++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..485ded1 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1974,6 +1974,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		output.structuredData = map[string]map[string]string{}
 
+		m.currentelem = ""
+
+		goto st17
+	tr634:
+
+		m.currentelem = ""
+
 		goto st17
 	st17:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2040,6 +2047,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		m.backslashat = []int{}
+		m.currentparam = ""
+
+		goto st19
+	tr98:
+
+		m.backslashat = []int{}
+		m.currentparam = ""
+
 		goto st19
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2064,8 +2080,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr43:
 
-		m.backslashat = []int{}
-
 		m.pb = m.p
 
 		goto st20
@@ -2846,7 +2860,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr98
 		case 93:
 			goto st606
 		}
@@ -2878,7 +2892,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st604
 		case 91:
-			goto st17
+			goto tr634
 		}
 		goto tr633
 	tr79:
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..72538d9 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -128,8 +128,13 @@ action set_id {
 	}
 }
 
+action ini_sdelem {
+	m.currentelem = ""
+}
+
 action ini_sdparam {
 	m.backslashat = []int{}
+	m.currentparam = ""
 }
 
 action add_slash {
@@ -289,12 +294,12 @@ paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
+sdparam = (paramname '=' dq paramvalue dq) $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
 
-sdelement = ('[' sdid (sp sdparam)* ']');
+sdelement = ('[' @ini_sdelem sdid (sp @ini_sdparam sdparam)* ']');
 
 structureddata = nilvalue | sdelement+ >ini_elements $err(err_structureddata);
 
-- 
2.43.0


From eb441ec0c199d4e105834d4285358e710cc33bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 02/15] fix: rfc3164 content ends at its first closing bracket
 and does not move the message start

A ']' in the message text overwrote the content (process id) with a part of the
message, and an opening bracket after the tag cut the head of the message when
no content followed.
---
 rfc3164/machine.go    | 315 +++++++++++++++++-------------------------
 rfc3164/machine.go.rl |  15 +-
 2 files changed, 141 insertions(+), 189 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..219192a 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -23,7 +23,7 @@ var (
 const start int = 1
 const firstFinal int = 333
 
-const enFail int = 373
+const enFail int = 371
 const enMain int = 1
 
 type machine struct {
@@ -31,6 +31,7 @@ type machine struct {
 	cs         int
 	p, pe, eof int
 	pb         int
+	msgat      int
 	err        error
 	bestEffort bool
 	yyyy       int
@@ -98,6 +99,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
@@ -243,10 +245,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase369
 		case 370:
 			goto stCase370
-		case 371:
-			goto stCase371
-		case 372:
-			goto stCase372
 		case 27:
 			goto stCase27
 		case 28:
@@ -859,8 +857,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase331
 		case 332:
 			goto stCase332
-		case 373:
-			goto stCase373
+		case 371:
+			goto stCase371
 		}
 		goto stOut
 	stCase1:
@@ -874,7 +872,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		goto st0
@@ -884,14 +882,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		goto st0
@@ -901,7 +899,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		goto st0
@@ -911,7 +909,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		goto st0
@@ -921,17 +919,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		goto st0
-	tr333:
+	tr331:
 
 		m.err = fmt.Errorf(errRFC3339, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st371
 		}
 
 		goto st0
@@ -1165,7 +1163,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			(m.p)--
 
 			{
-				goto st373
+				goto st371
 			}
 		} else {
 			if m.timezone != nil {
@@ -1179,14 +1177,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr341:
+	tr339:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
 			(m.p)--
 
 			{
-				goto st373
+				goto st371
 			}
 		} else {
 			output.timestamp = t
@@ -1253,7 +1251,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
 		goto st333
 	st333:
@@ -1272,6 +1270,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		m.pb = m.p
 
+		m.msgat = m.p
+
 		goto st334
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -1280,9 +1280,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1302,9 +1302,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1324,9 +1324,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1346,9 +1346,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1368,9 +1368,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1390,9 +1390,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1412,9 +1412,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1434,9 +1434,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1456,9 +1456,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1478,9 +1478,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1500,9 +1500,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1522,9 +1522,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1544,9 +1544,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1566,9 +1566,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1588,9 +1588,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1610,9 +1610,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1632,9 +1632,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1654,9 +1654,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1676,9 +1676,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1698,9 +1698,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1720,9 +1720,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1742,9 +1742,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1764,9 +1764,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1786,9 +1786,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1808,9 +1808,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1830,9 +1830,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1852,9 +1852,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1874,9 +1874,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1896,9 +1896,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase362:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1918,9 +1918,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase363:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1940,9 +1940,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase364:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1962,9 +1962,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase365:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1972,7 +1972,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st0
 		}
 		goto st333
-	tr347:
+	tr345:
 
 		output.tag = string(m.text())
 
@@ -2004,7 +2004,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st0
 		}
 		goto tr42
-	tr348:
+	tr346:
 
 		output.tag = string(m.text())
 
@@ -2016,15 +2016,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase368:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr381
-		case 127:
 			goto tr380
+		case 127:
+			goto tr378
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr380
+			goto tr378
 		}
-		goto tr48
-	tr380:
+		goto tr379
+	tr378:
 
 		m.pb = m.p
 
@@ -2048,41 +2048,32 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof24
 		}
 	stCase24:
-		switch (m.data)[(m.p)] {
-		case 58:
+		if (m.data)[(m.p)] == 58 {
 			goto st25
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto st0
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
 		}
 	stCase25:
-		switch (m.data)[(m.p)] {
-		case 32:
+		if (m.data)[(m.p)] == 32 {
 			goto st26
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto st0
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 127 {
+			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto st0
 		}
-		goto tr48
-	tr48:
+		goto tr42
+	tr379:
 
 		m.pb = m.p
 
@@ -2094,7 +2085,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase369:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr383
+			goto tr382
 		case 127:
 			goto st23
 		}
@@ -2102,19 +2093,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st23
 		}
 		goto st369
-	tr383:
+	tr382:
 
 		output.content = string(m.text())
 
 		goto st370
-	tr49:
-
-		output.content = string(m.text())
-
-		m.pb = m.p
-
-		goto st370
-	tr381:
+	tr380:
 
 		m.pb = m.p
 
@@ -2128,48 +2112,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase370:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto st371
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st371:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof371
-		}
-	stCase371:
-		switch (m.data)[(m.p)] {
-		case 32:
-			goto st372
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st372:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof372
-		}
-	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
+			goto st366
 		case 127:
-			goto st23
+			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto st0
 		}
-		goto tr48
+		goto st333
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -5801,7 +5751,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 602:
 			goto st324
 		}
-		goto tr333
+		goto tr331
 	st319:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof319
@@ -5828,7 +5778,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 561 {
 			goto st320
 		}
-		goto tr333
+		goto tr331
 	st320:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof320
@@ -5844,7 +5794,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st321
 		}
-		goto tr333
+		goto tr331
 	st321:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof321
@@ -5860,7 +5810,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 570 {
 			goto st322
 		}
-		goto tr333
+		goto tr331
 	st322:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof322
@@ -5876,7 +5826,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 565 {
 			goto st323
 		}
-		goto tr333
+		goto tr331
 	st323:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof323
@@ -5892,14 +5842,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st324
 		}
-		goto tr333
+		goto tr331
 	st324:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof324
 		}
 	stCase324:
 		if (m.data)[(m.p)] == 32 {
-			goto tr341
+			goto tr339
 		}
 		goto st0
 	st325:
@@ -5917,7 +5867,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 563 {
 			goto st321
 		}
-		goto tr333
+		goto tr331
 	st326:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof326
@@ -6043,18 +5993,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st373:
+	st371:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof373
+			goto _testEof371
 		}
-	stCase373:
+	stCase371:
 		switch (m.data)[(m.p)] {
 		case 10:
 			goto st0
 		case 13:
 			goto st0
 		}
-		goto st373
+		goto st371
 	stOut:
 	_testEof2:
 		m.cs = 2
@@ -6245,12 +6195,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof370:
 		m.cs = 370
 		goto _testEof
-	_testEof371:
-		m.cs = 371
-		goto _testEof
-	_testEof372:
-		m.cs = 372
-		goto _testEof
 	_testEof27:
 		m.cs = 27
 		goto _testEof
@@ -7169,8 +7113,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof332:
 		m.cs = 332
 		goto _testEof
-	_testEof373:
-		m.cs = 373
+	_testEof371:
+		m.cs = 371
 		goto _testEof
 
 	_testEof:
@@ -7178,9 +7122,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		if (m.p) == (m.eof) {
 			switch m.cs {
-			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
+			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370:
 
-				output.message = string(m.text())
+				// The message start has its own mark because the tag and the content parts move the other one while attempting to match
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
@@ -7188,7 +7133,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299:
@@ -7197,7 +7142,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 			case 318, 319, 320, 321, 322, 323, 325:
@@ -7206,7 +7151,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 			case 20, 21, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280:
@@ -7215,7 +7160,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 			case 22:
@@ -7224,7 +7169,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 			case 2, 3, 330, 331, 332:
@@ -7233,14 +7178,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st371
 				}
 
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..f4fd9c7 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -32,6 +32,10 @@ action mark {
 	m.pb = m.p
 }
 
+action markmsg {
+	m.msgat = m.p
+}
+
 action set_prival {
 	output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 	output.prioritySet = true
@@ -78,7 +82,8 @@ action set_content {
 }
 
 action set_message {
-	output.message = string(m.text())
+	// The message start has its own mark because the tag and the content parts move the other one while attempting to match
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -147,12 +152,12 @@ tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
 
 visible = print | 0x80..0xFF;
 
-# The first not alphanumeric character starts the content (usually containing a PID) part of the message part
-contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
+# The content (usually containing a PID) part of the message part ends at its first closing bracket
+contentval = (any - csb)* >mark %set_content;
 
 content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ >markmsg %set_message;
 
 msg = (tag content? ':' sp)? mex;
 
@@ -169,6 +174,7 @@ type machine struct {
 	cs           int
 	p, pe, eof   int
 	pb           int
+	msgat        int
 	err          error
 	bestEffort   bool
 	yyyy         int
@@ -242,6 +248,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
-- 
2.43.0


From 116e227b31e3a4620f5533c8172a2d912001790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 03/15] fix: rfc3164 always reports an error when it rejects
 the input

Some failing states do not set an error: Parse returned a nil message together
with a nil error (or, in best effort mode, a partial message and no error).
---
 rfc3164/machine.go    | 3 +++
 rfc3164/machine.go.rl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 219192a..79fa3ce 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7197,6 +7197,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index f4fd9c7..60c145a 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -258,6 +258,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From cbbf03c0107e073baf153c63a029328672049d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 04/15] fix: EscapeBytes keeps multi-byte characters intact

Every byte of a multi-byte character was converted to a code point on its own,
or dropped, so the serialized param values were corrupted.
---
 common/functions.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..a93d806 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -30,12 +30,13 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
 	res := ""
-	for i, c := range value {
+	for i := 0; i < len(value); i++ {
+		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
 			res += `\`
 		}
-		res += string(value[i])
+		res += value[i : i+1]
 	}
 
 	return res
-- 
2.43.0


From cd64bb72715e12a3ace4ea1cd6ba40f9fd794be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 05/15] fix: SetParameter no longer shares state between
 messages through package variables

Building two messages from two goroutines raced on the current element id and
parameter name.
---
 rfc5424/builder.go    | 20 ++++++++++----------
 rfc5424/builder.go.rl | 18 +++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..f14736f 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,12 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+	return sm.setWithin(from, value, "", "")
+}
+
+// setWithin is like set but also tells which element (and parameter) the structured data parts belong to.
+func (sm *SyslogMessage) setWithin(from entrypoint, value, currentid, currentparamname string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9209,7 +9211,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 
 			case 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581:
 
-				// Assuming SD map already exists, contains currentid key (set from outside)
+				// Assuming SD map already exists, contains currentid key
 				elements := *sm.StructuredData
 				elements[currentid][string(data[pb:p])] = ""
 
@@ -9221,7 +9223,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+				// Assuming SD map already exists, contains currentid key and currentparamname key
 				elements := *sm.StructuredData
 				elements[currentid][currentparamname] = string(text)
 
@@ -9241,7 +9243,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+				// Assuming SD map already exists, contains currentid key and currentparamname key
 				elements := *sm.StructuredData
 				elements[currentid][currentparamname] = string(text)
 
@@ -9330,12 +9332,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.setWithin(sdpn, name, id, "")
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.setWithin(sdpv, value, id, name)
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..8297140 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -62,7 +62,7 @@ action set_sdid {
 }
 
 action set_sdpn {
-    // Assuming SD map already exists, contains currentid key (set from outside)
+    // Assuming SD map already exists, contains currentid key
     elements := *sm.StructuredData
     elements[currentid][string(data[pb:p])] = ""
 }
@@ -78,7 +78,7 @@ action set_sdpv {
     if len(backslashes) > 0 {
         text = common.RemoveBytes(text, backslashes, pb)
     }
-    // Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+    // Assuming SD map already exists, contains currentid key and currentparamname key
     elements := *sm.StructuredData
     elements[currentid][currentparamname] = string(text)
 }
@@ -151,10 +151,12 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+    return sm.setWithin(from, value, "", "")
+}
+
+// setWithin is like set but also tells which element (and parameter) the structured data parts belong to.
+func (sm *SyslogMessage) setWithin(from entrypoint, value, currentid, currentparamname string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -233,12 +235,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.setWithin(sdpn, name, id, "")
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.setWithin(sdpv, value, id, name)
             }
         }
     }
-- 
2.43.0


From 343f5c95e2e13ab2108e85c664491126c861b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 06/15] fix: SetParameter keeps the value of an existing
 parameter when the new value is not valid

The existing value was replaced by the empty string.
---
 rfc5424/builder.go    | 6 +++++-
 rfc5424/builder.go.rl | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index f14736f..6867c99 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9213,7 +9213,11 @@ func (sm *SyslogMessage) setWithin(from entrypoint, value, currentid, currentpar
 
 				// Assuming SD map already exists, contains currentid key
 				elements := *sm.StructuredData
-				elements[currentid][string(data[pb:p])] = ""
+				// An existing parameter keeps its value until a valid one is given
+				name := string(data[pb:p])
+				if _, ok := elements[currentid][name]; !ok {
+					elements[currentid][name] = ""
+				}
 
 			case 583:
 
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 8297140..e8e35e7 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -64,7 +64,11 @@ action set_sdid {
 action set_sdpn {
     // Assuming SD map already exists, contains currentid key
     elements := *sm.StructuredData
-    elements[currentid][string(data[pb:p])] = ""
+    // An existing parameter keeps its value until a valid one is given
+    name := string(data[pb:p])
+    if _, ok := elements[currentid][name]; !ok {
+        elements[currentid][name] = ""
+    }
 }
 
 action markslash {
-- 
2.43.0


From abe82fa139a14d9d71b7bc9f757ad6bfcdfc5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 07/15] fix: octet counting MSGLEN accepts decimal digits only
 and no leading zero

'/' was taken as a digit and '0' as a non-zero one, so that frames with an
illegal MSGLEN were accepted (or reported as an end of file).
---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From 9b124b8b0869196698ae707cbd5eab63c0800376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 08/15] fix: octet counting does not take a NUL byte as the end
 of the stream

A NUL byte after a frame silently stopped the parsing with data still unread.
---
 octetcounting/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..6288b37 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,10 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
-	if err != nil {
-		return eof
-	}
-	return b
+	return b, err == nil
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +52,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +68,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +90,13 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	first, _ := s.read()
+	buf.WriteByte(first)
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From 0519732cf317b61672fa1bb1ccf7b8a54649acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 09/15] fix: octet counting rejects as too long also the
 lengths that overflow an int

---
 octetcounting/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..a17866b 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -86,7 +86,7 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		if p.maxMessageLength < 0 || p.s.msglen > uint64(p.maxMessageLength) {
 			p.emit(&syslog.Result{
 				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
 			})
-- 
2.43.0


From e884f7e9ae2e54215db1b74a0b6fc7baaac59dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 10/15] fix: non-transparent parser does not replay the last
 message of a previous stream

Parsing a second stream with the same parser emitted again the last candidate
(or the unterminated chunk) of the first one.
---
 nontransparent/parser.go    | 5 +++++
 nontransparent/parser.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..bdf3ff8 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget what a previous stream left behind
+	m.candidate = nil
+	m.readError = nil
+	m.lastChunk = nil
+
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..9a7b55c 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget what a previous stream left behind
+	m.candidate = nil
+	m.readError = nil
+	m.lastChunk = nil
+
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From b7857b791da0d890f0db8bb02942e0d02e02403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 11/15] fix: rfc5424 best effort reports the whole version when
 the input ends after it

---
 rfc5424/machine.go    | 36 ++++++++++++++++++------------------
 rfc5424/machine.go.rl |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index 485ded1..562b4b9 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -11938,6 +11938,24 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 				output.message = string(m.text())
 
+			case 591, 592:
+
+				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+
+				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
+				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
 			case 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
 
 				if _, ok := output.structuredData[string(m.text())]; ok {
@@ -11996,24 +12014,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 591, 592:
-
-				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
-				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-
-				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
 			case 53, 54, 56:
 
 				m.err = fmt.Errorf(ErrEscape+ColumnPositionTemplate, m.p)
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index 72538d9..0c28a56 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -270,7 +270,7 @@ nilvalue = '-';
 
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
-version = (nonzerodigit digit{0,2} <err(err_version)) >mark %from(set_version) %eof(set_version) @err(err_version);
+version = (nonzerodigit digit{0,2} %eof(set_version) <err(err_version)) >mark %from(set_version) @err(err_version);
 
 timestamp = (nilvalue | (fulldate >mark 'T' fulltime %set_timestamp %err(set_timestamp))) @err(err_timestamp);
 
-- 
2.43.0


From 13eac7647c7a5edc19e587cecaa36d7bb20a694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 12/15] fix: rfc3164 best effort reports the whole priority
 when the input ends after it

---
 rfc3164/machine.go    | 21 ++++++++++++++++++++-
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 79fa3ce..25fdbf3 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7172,7 +7172,26 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st371
 				}
 
-			case 2, 3, 330, 331, 332:
+			case 2:
+
+				m.err = fmt.Errorf(errPrival, m.p)
+				(m.p)--
+
+				{
+					goto st371
+				}
+
+				m.err = fmt.Errorf(errPri, m.p)
+				(m.p)--
+
+				{
+					goto st371
+				}
+
+			case 3, 330, 331, 332:
+
+				output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+				output.prioritySet = true
 
 				m.err = fmt.Errorf(errPrival, m.p)
 				(m.p)--
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 60c145a..0d3ec1c 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -134,7 +134,7 @@ action err_content {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' (prival >mark %from(set_prival) %eof(set_prival)) $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From f32ee46ada321516fd5fc83ed9a44f59f644bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 13/15] fix: octet counting WithBestEffort on a finished parser
 reaches the message parser

---
 octetcounting/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index a17866b..ef7b74b 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -57,6 +57,9 @@ func (p *parser) HasBestEffort() bool {
 // The generic options uses it.
 func (p *parser) WithBestEffort() {
 	p.bestEffort = true
+	if p.internal != nil {
+		p.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From 5c987249fb7943d99432ab09774fb2b0c7da389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 14/15] fix: non-transparent WithBestEffort on a finished
 parser reaches the message parser

---
 nontransparent/parser.go    | 3 +++
 nontransparent/parser.go.rl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index bdf3ff8..19feebd 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -242,6 +242,9 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
 	m.bestEffort = true
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 9a7b55c..880f2b8 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -133,6 +133,9 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
     m.bestEffort = true
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From 1542c2dc8f90f48c1de36e4865f6e23bbe25abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:05 +0000
Subject: [PATCH 15/15] fix: octet counting does not set aside a buffer of the
 maximum message length

With a large maximum (math.MaxInt, say) the size overflowed and every message
longer than 16 octets was rejected, or making the buffer panicked.
---
 octetcounting/scanner.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 6288b37..afb305d 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -23,6 +23,9 @@ func isNonZeroDigit(ch byte) bool {
 	return (ch >= 49 && ch <= 57)
 }
 
+// maxBuffer is how much is read ahead of the tokens, at most
+const maxBuffer = 64 << 10
+
 // Scanner represents the lexical scanner for octet counting transport.
 type Scanner struct {
 	r      *bufio.Reader
@@ -32,8 +35,13 @@ type Scanner struct {
 
 // NewScanner returns a pointer to a new instance of Scanner.
 func NewScanner(r io.Reader, maxLength int) *Scanner {
+	size := maxBuffer
+	if maxLength < maxBuffer {
+		size = maxLength + 20 // max uint64 is 19 characters + a space
+	}
+
 	return &Scanner{
-		r: bufio.NewReaderSize(r, maxLength+20), // max uint64 is 19 characters + a space
+		r: bufio.NewReaderSize(r, size),
 	}
 }
 
@@ -117,16 +125,15 @@ func (s *Scanner) scanMsgLen() Token {
 
 func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
-	n := int(s.msglen)
-	b, err := s.r.Peek(n)
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, s.r, int64(s.msglen))
+	b := buf.Bytes()
 	if err != nil {
 		return Token{
 			typ: EOF,
 			lit: b,
 		}
 	}
-	// Advance the reader of MSGLEN characters
-	s.r.Discard(n)
 
 	// Reset status
 	s.ready = false
-- 
2.43.0

