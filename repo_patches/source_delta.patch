From a871b9b19121dc7d045577bff4f7bd1530cc95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:37 +0000
Subject: [PATCH 01/29] fix: remove folds wherever the reads fall

A fold was missed when its CRLF and space came from different reads, and a
read ending exactly at a fold made the reader loop forever. Folds using a tab
were never removed.
---
 unfolder.go | 116 ++++++++++++++++++++++------------------------------
 1 file changed, 50 insertions(+), 66 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..0b97388 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -1,83 +1,67 @@
 package ics
 
 import (
-	"bytes"
+	"bufio"
 	"io"
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r   io.Reader
+	b   *bufio.Reader
+	err error
 }
 
+// Read reads the underlying data with every fold, a CRLF followed by a single
+// space or tab, removed. It never returns data and an error together.
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if u.b == nil {
+		u.b = bufio.NewReader(u.r)
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
+
+	n := 0
+
+	for n < len(p) {
+		if u.b.Buffered() == 0 {
+			if n > 0 {
 				break
+			} else if u.err != nil {
+				return 0, u.err
 			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
-	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else {
-			break
+
+		c, err := u.b.ReadByte()
+		if err != nil {
+			u.err = err
+
+			return n, err
+		}
+
+		if c == '\r' && u.isFold() {
+			u.b.Discard(2)
+
+			continue
 		}
+
+		p[n] = c
+		n++
 	}
-	return m, err
+
+	return n, nil
+}
+
+// isFold determines whether the data following a carriage return makes it the
+// start of a fold.
+func (u *unfolder) isFold() bool {
+	if u.err != nil && u.b.Buffered() < 2 {
+		return false
+	}
+
+	next, err := u.b.Peek(2)
+	if err != nil {
+		u.err = err
+
+		return false
+	}
+
+	return next[0] == '\n' && (next[1] == ' ' || next[1] == '\t')
 }
-- 
2.43.0


From b2515a7e03bb1489865e23701b08b24aa48c4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:19 +0000
Subject: [PATCH 02/29] fix: accept finite floats when encoding and only
 decimals when decoding

The validity check was inverted, so every calendar with a real GEO position
was refused while NaN and infinities were written. Decoding also accepted NaN,
infinities, exponents and hexadecimal, none of which are in the format.
---
 types.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index da1d385..5020aa4 100644
--- a/types.go
+++ b/types.go
@@ -395,11 +395,21 @@ func (Duration) valid() error {
 	return nil
 }
 
+// parseFloat parses a decimal number, without allowing for the exponents, bases,
+// and special values that are not part of the iCalendar format.
+func parseFloat(data string) (float64, error) {
+	if strings.Trim(data, "+-.0123456789") != "" {
+		return 0, ErrInvalidFloat
+	}
+
+	return strconv.ParseFloat(data, 64)
+}
+
 // Float contains a real-number value.
 type Float float64
 
 func (f *Float) decode(_ map[string]string, data string) error {
-	cf, err := strconv.ParseFloat(data, 64)
+	cf, err := parseFloat(data)
 	if err != nil {
 		return fmt.Errorf("error parsing Float: %w", err)
 	}
@@ -421,7 +431,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -440,9 +450,9 @@ func (t *TFloat) decode(_ map[string]string, data string) error {
 
 	var err error
 
-	if (*t)[0], err = strconv.ParseFloat(fs[0], 64); err != nil {
+	if (*t)[0], err = parseFloat(fs[0]); err != nil {
 		return fmt.Errorf("error parsing TFloat[0]: %w", err)
-	} else if (*t)[1], err = strconv.ParseFloat(fs[1], 64); err != nil {
+	} else if (*t)[1], err = parseFloat(fs[1]); err != nil {
 		return fmt.Errorf("error parsing TFloat[1]: %w", err)
 	}
 
@@ -463,13 +473,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From c59b2660a8e1e6294c0c1aae071edd5e81241a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:41 +0000
Subject: [PATCH 03/29] fix: stop caret encoding looping and caret decoding
 repeating text

Encoding a parameter containing a caret, quote or line break never moved past
it and so never returned. Decoding left each escape in the output alongside
what it stood for.
---
 genParams.sh | 5 ++++-
 params.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..2ac02e7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -358,6 +358,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -380,6 +381,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..5cb997f 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1209,6 +1209,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -1231,6 +1232,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From 5b87b870ab66f75b572709461788688844051b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:59 +0000
Subject: [PATCH 04/29] fix: quote URI and calendar address parameters

ALTREP, DELEGATED-FROM, DELEGATED-TO and URI parameters were written without
the quotes the decoder insists on, so encoded calendars could not be decoded.
---
 genParams.sh | 14 ++++++++++++--
 params.go    | 24 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 2ac02e7..d017818 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -143,7 +143,11 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	var q $vType";
 				echo;
-				echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				if $doubleQuote; then
+					echo "$indent	if err := q.decode(nil, decode6868(${vName}.Data)); err != nil {";
+				else
+					echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				fi;
 				echo "$indent		return fmt.Errorf(errDecodingType, c$type, err)";
 				echo "$indent	}";
 				echo;
@@ -232,7 +236,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
-				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+					echo "$indent	w.Write(encode6868(q.String()))";
+					echo "$indent	w.WriteString(\"\\\"\")";
+				else
+					echo "$indent	q.encode(w)";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index 5cb997f..017f548 100644
--- a/params.go
+++ b/params.go
@@ -26,7 +26,7 @@ func (t *ParamAlternativeRepresentation) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cAlternativeRepresentation, err)
 	}
 
@@ -44,7 +44,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -170,7 +172,7 @@ func (t *ParamDelegator) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelegator, err)
 		}
 
@@ -194,7 +196,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -219,7 +223,7 @@ func (t *ParamDelagatee) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelagatee, err)
 		}
 
@@ -243,7 +247,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -1066,7 +1072,7 @@ func (t *ParamURI) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cURI, err)
 	}
 
@@ -1084,7 +1090,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From adb8bf85800add7a347e22794423253c36c542df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:27 +0000
Subject: [PATCH 05/29] fix: read LAST-MODIFIED

The decoder looked for LAST-MOD, so the property was dropped from every
calendar, including those written by this package.
---
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From 48df1d22519670b800f15697cdbae087aef9e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:32 +0000
Subject: [PATCH 06/29] fix: compare component names and alarm lines without
 regard to case

END lines, nested unknown components and the lines of an alarm were only
recognised in upper case, although names are case insensitive and BEGIN lines
were already treated as such.
---
 genSections.sh    |  6 +++---
 sections.go       | 28 ++++++++++++++--------------
 sections_alarm.go |  5 +++--
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..51b0311 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -190,9 +190,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
@@ -444,7 +444,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections.go b/sections.go
index deddf38..4335fb7 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1214,7 +1214,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1817,7 +1817,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2215,7 +2215,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2419,7 +2419,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2592,7 +2592,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2771,7 +2771,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3014,7 +3014,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3331,7 +3331,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3665,7 +3665,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -3985,7 +3985,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4155,7 +4155,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
@@ -4184,7 +4184,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..d6a6345 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -47,7 +48,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -55,7 +56,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
-- 
2.43.0


From 9c0ac6b7a3d927c77c72532e9171fa8c144dce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:02 +0000
Subject: [PATCH 07/29] fix: require DURATION and REPEAT together in email and
 URI alarms

The check was inverted. It refused alarms with both or neither and accepted
those with only one of them.
---
 genSections.sh | 4 ++--
 sections.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 51b0311..1ec9c56 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -241,10 +241,10 @@ function printSection() {
 		if [ "$typ" = "AND" ]; then
 			for r in ${reqs[@]}; do
 				if $second; then
-					echo -n " &&";
+					echo -n " ||";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index 4335fb7..38124a1 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From 46d9c111f6007a80f2d423cff6acf432c72c8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:27 +0000
Subject: [PATCH 08/29] fix: refuse to encode components that break the
 requirements between properties

Decoding checked these requirements but encoding did not, so a calendar could
be written that could not then be read.
---
 genSections.sh | 134 ++++++++++++++++++++++++++++---------------------
 sections.go    |  50 ++++++++++++++++--
 2 files changed, 122 insertions(+), 62 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ec9c56..90b692f 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,81 @@ function addToSection() {
 	fi;
 }
 
+# reqTest prints the test for a field being unset (==) or set (!=).
+function reqTest() {
+	declare rName="$(getName "$1")";
+	for tline in "${currSection[@]}"; do
+		if [ "${tline%% *}" = "$rName" ]; then
+			aline=( $tline ); # 0:name 1:KEYWORD 2:required 3:multiple 4:section 5:requiredAlso 6:requiredInstead
+			if ${aline[3]}; then
+				echo "len(s.$rName) $2 0";
+			else
+				echo "s.$rName $2 nil";
+			fi;
+		fi;
+	done;
+}
+
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " ||";
+				fi;
+				if $first; then
+					echo -n " t != ($(reqTest "$r" "=="))";
+					second=true;
+				else
+					echo -n " t := $(reqTest "$r" "==");";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(reqTest "$r" "==")";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(reqTest "$r" "!=")";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "$(reqTest "$r" "==")";
+					second=true;
+				else
+					echo -n " $(reqTest "$r" "!=") && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +305,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " ||";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements "errDecodingType";
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +377,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements "errValidatingType";
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index 38124a1..aefe280 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2431,7 +2443,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cTimezone, ErrMissingRequired)
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errDecodingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3026,7 +3042,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3343,7 +3363,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3677,7 +3701,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3997,7 +4029,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3c804327c7e31a8f9b9132bc57f584616e59ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:29 +0000
Subject: [PATCH 09/29] fix: report an alarm cut short as an unexpected end of
 file

Reaching the end of the data within an alarm caused a panic.
---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index d6a6345..97f4f02 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -44,6 +44,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From ed329e634e2b0c7c3ac8471793a3cf40a3b17aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:35 +0000
Subject: [PATCH 10/29] fix: skip nested unknown components without recursion

Deeply nested unknown components exhausted the stack, which ends the program.
---
 genSections.sh | 18 +++++++++++-------
 sections.go    | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 90b692f..45a77c0 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -454,7 +454,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -464,17 +466,19 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			last := len(open) - 1
+
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[last] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:last]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index aefe280..53e7be8 100644
--- a/sections.go
+++ b/sections.go
@@ -4214,7 +4214,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4224,17 +4226,19 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			last := len(open) - 1
+
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[last] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:last]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From d85a81dea6f71f2736e13cc783fee76bd9f5d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:37 +0000
Subject: [PATCH 11/29] fix: return the error of the reader when decoding fails
 because of it

A failed read was reported as an unexpected end of file or as invalid data.
---
 decoder.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4152d50..8b0d032 100644
--- a/decoder.go
+++ b/decoder.go
@@ -4,6 +4,8 @@ package ics // import "vimagination.zapto.org/ics"
 import (
 	"io"
 	"strings"
+
+	"vimagination.zapto.org/parser"
 )
 
 type section interface {
@@ -14,8 +16,21 @@ type section interface {
 
 // Decode decodes an iCalendar object from the given reader.
 func Decode(r io.Reader) (*Calendar, error) {
-	t := newTokeniser(&unfolder{r: r})
+	u := &unfolder{r: r}
+
+	cal, err := decode(newTokeniser(u))
+	if err != nil {
+		if u.err != nil && u.err != io.EOF {
+			return nil, u.err
+		}
+
+		return nil, err
+	}
+
+	return cal, nil
+}
 
+func decode(t *parser.Parser) (*Calendar, error) {
 	if p, err := t.GetPhrase(); err != nil {
 		return nil, err
 	} else if p.Type != phraseContentLine {
-- 
2.43.0


From 94504f2160a2bce907d08e1c3ecea6a7d26cdc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:10 +0000
Subject: [PATCH 12/29] fix: require a number after the plus sign of a
 recurring day

A plus sign and a single digit caused a panic, and a plus sign without a
number was accepted although a minus sign without one is not.
---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index 5020aa4..0858620 100644
--- a/types.go
+++ b/types.go
@@ -793,7 +793,12 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				}
 
 				if day[0] == '+' {
+					numCheck = false
 					day = day[1:]
+
+					if len(day) < 2 {
+						return ErrInvalidRecur
+					}
 				} else if day[0] == '-' {
 					neg = true
 					numCheck = false
-- 
2.43.0


From 2e2360760cb333aeceee35e7feee4c2e603ae894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:33 +0000
Subject: [PATCH 13/29] fix: reject repeated parts in a recurrence rule

FREQ, UNTIL, COUNT, INTERVAL of zero and WKST could be repeated, with the last
one silently winning. COUNT and UNTIL could also be combined when one of them
was zero.
---
 types.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/types.go b/types.go
index 0858620..52bb846 100644
--- a/types.go
+++ b/types.go
@@ -647,15 +647,17 @@ type Recur struct {
 }
 
 func (r *Recur) decode(params map[string]string, data string) error {
-	var freq bool
+	seen := make(map[string]bool)
 
 	for _, rule := range strings.Split(data, ";") {
 		parts := strings.SplitN(rule, "=", 2)
 
-		if len(parts) != 2 {
+		if len(parts) != 2 || seen[parts[0]] {
 			return ErrInvalidRecur
 		}
 
+		seen[parts[0]] = true
+
 		switch parts[0] {
 		case "FREQ":
 			switch parts[1] {
@@ -676,12 +678,8 @@ func (r *Recur) decode(params map[string]string, data string) error {
 			default:
 				return ErrInvalidRecur
 			}
-
-			freq = true
 		case "UNTIL":
-			if r.Count > 0 {
-				return ErrInvalidRecur
-			} else if len(parts[1]) > 10 {
+			if len(parts[1]) > 10 {
 				var d DateTime
 
 				if err := d.decode(params, parts[1]); err != nil {
@@ -701,10 +699,6 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				r.UntilTime = false
 			}
 		case "COUNT":
-			if !r.Until.IsZero() {
-				return ErrInvalidRecur
-			}
-
 			n, err := strconv.ParseUint(parts[1], 10, 64)
 			if err != nil {
 				return ErrInvalidRecur
@@ -972,7 +966,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 		}
 	}
 
-	if !freq {
+	if !seen["FREQ"] || seen["COUNT"] && seen["UNTIL"] {
 		return ErrInvalidRecur
 	}
 
-- 
2.43.0


From 8c0627060452e92758040c917b5bd6c8bffca647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:35 +0000
Subject: [PATCH 14/29] fix: refuse to encode recurrence rules that cannot be
 decoded

A day could have an occurrence beyond the allowed range. A rule with both a
count and an end lost the end without any error.
---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index 52bb846..0eec606 100644
--- a/types.go
+++ b/types.go
@@ -1176,6 +1176,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1200,6 +1204,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 515bac6acf3365bdbef3b24bef0bba26e1b776d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:55 +0000
Subject: [PATCH 15/29] fix: require exactly one T before the time of a
 duration

Hours, minutes and seconds were accepted without it, and repeating it allowed
a unit to be given twice.
---
 types.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 0eec606..9e8497e 100644
--- a/types.go
+++ b/types.go
@@ -235,11 +235,15 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 		return ErrInvalidDuration
 	}
 
-	var level uint8
+	var (
+		level  uint8
+		inTime bool
+	)
 
 	for t.Peek() != -1 {
-		if t.Accept("T") {
+		if !inTime && t.Accept("T") {
 			level = 1
+			inTime = true
 		}
 
 		t.Get()
@@ -277,7 +281,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Days = num
 			level = 1
 		case 'H':
-			if level > 1 {
+			if level > 1 || !inTime {
 				return ErrInvalidDuration
 			}
 
@@ -286,7 +290,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Hours = num
 			level = 2
 		case 'M':
-			if level > 2 {
+			if level > 2 || !inTime {
 				return ErrInvalidDuration
 			}
 
@@ -295,7 +299,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Minutes = num
 			level = 3
 		case 'S':
-			if level > 3 {
+			if level > 3 || !inTime {
 				return ErrInvalidDuration
 			}
 
-- 
2.43.0


From 50825c9d708906090070986162cd643e9dc52956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:57 +0000
Subject: [PATCH 16/29] fix: refuse to encode durations mixing weeks with other
 units

The format has no way to write these, and the other units were dropped.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 9e8497e..7b30434 100644
--- a/types.go
+++ b/types.go
@@ -395,7 +395,11 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 569e41eceeb55dd4dcd3887296a12d0256a05cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:59 +0000
Subject: [PATCH 17/29] fix: refuse to encode UTC offsets of a hundred hours or
 more

The hours of these were silently written as zero or wrapped around.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 7b30434..210aac2 100644
--- a/types.go
+++ b/types.go
@@ -1586,7 +1586,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u >= 100*3600 || u <= -100*3600 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From cd23e5a1ba885cb06de55791e1d01e2ac53ccadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:01 +0000
Subject: [PATCH 18/29] fix: encode periods whose ends name the same timezone

Decoding a period loads its timezone twice, and the two were compared by
address, so no decoded period with a TZID could be encoded again. The duration
of a period is now checked as any other duration is.
---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 210aac2..748904a 100644
--- a/types.go
+++ b/types.go
@@ -569,10 +569,10 @@ func (p Period) valid() error {
 	if p.Start.IsZero() {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From ab792f46f5ca8f32c23538bf8d5bbb6e7c1c198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:41 +0000
Subject: [PATCH 19/29] fix: write timezone names as parameter values

A time in a location without a name was written with an empty TZID, which is
read as another instant, and is now written in UTC. Other names were written
as they are, so one containing a separator or line break corrupted the line.
---
 types.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 748904a..f2400b7 100644
--- a/types.go
+++ b/types.go
@@ -195,6 +195,7 @@ func (d DateTime) aencode(w writer) {
 
 func (d DateTime) encode(w writer) {
 	b := make([]byte, 0, 16)
+	d.Time = inNamedZone(d.Time)
 
 	switch d.Location() {
 	case time.UTC:
@@ -213,7 +214,7 @@ func (d DateTime) valid() error {
 		return ErrInvalidTime
 	}
 
-	return nil
+	return ParamTimezoneID(d.Location().String()).valid()
 }
 
 // Duration is a duration of time.
@@ -566,7 +567,7 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative || p.Duration.valid() != nil {
@@ -1188,6 +1189,12 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecur
 	}
 
+	if !r.Until.IsZero() {
+		if err := (DateTime{r.Until}).valid(); err != nil {
+			return err
+		}
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1440,6 +1447,7 @@ func (t Time) aencode(w writer) {
 
 func (t Time) encode(w writer) {
 	b := make([]byte, 0, 7)
+	t.Time = inNamedZone(t.Time)
 
 	switch t.Location() {
 	case time.UTC:
@@ -1594,12 +1602,21 @@ func (u UTCOffset) valid() error {
 	return nil
 }
 
+// inNamedZone converts times in a location without a name, such as those parsed
+// from a numeric offset, to UTC as there is no TZID that could be written.
+func inNamedZone(t time.Time) time.Time {
+	if t.Location().String() == "" {
+		return t.UTC()
+	}
+
+	return t
+}
+
 func writeTimezone(w writer, t time.Time) {
-	switch l := t.Location(); l {
+	switch l := inNamedZone(t).Location(); l {
 	case time.UTC, time.Local:
 	default:
-		w.WriteString(";TZID=")
-		w.WriteString(l.String())
+		ParamTimezoneID(l.String()).encode(w)
 	}
 }
 
-- 
2.43.0


From d9339156586f36ff095f092c655fc14667a086e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:42 +0000
Subject: [PATCH 20/29] fix: refuse to encode times outside of the years 0 to
 9999

Only four digits are available for the year, so these were written as values
that could not be decoded.
---
 types.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index f2400b7..f93560f 100644
--- a/types.go
+++ b/types.go
@@ -143,7 +143,7 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -210,7 +210,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(inNamedZone(d.Time)) {
 		return ErrInvalidTime
 	}
 
@@ -573,7 +573,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
@@ -1602,6 +1602,11 @@ func (u UTCOffset) valid() error {
 	return nil
 }
 
+// validYear determines whether the year of a time can be written in four digits.
+func validYear(t time.Time) bool {
+	return t.Year() >= 0 && t.Year() <= 9999
+}
+
 // inNamedZone converts times in a location without a name, such as those parsed
 // from a numeric offset, to UTC as there is no TZID that could be written.
 func inNamedZone(t time.Time) time.Time {
-- 
2.43.0


From 3b00e1953035fc99a716a86f25efcd5bd4531540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:28 +0000
Subject: [PATCH 21/29] fix: treat format types as the other text parameters
 are

Carets in a format type were encoded but not decoded. Only part of the value
had to look like a format type, so it could contain control characters that
made the line unreadable.
---
 genParams.sh | 6 +++---
 params.go    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index d017818..0cb48cf 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -189,11 +189,11 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	if !regex${type}.MatchString(decode6868(${vName}.Data)) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(decode6868(${vName}.Data))";
 				fi;
 			fi;
 			if $multiple; then
@@ -316,7 +316,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) {";
+					echo "$indent	if !regex${type}.Match([]byte($vName)) || strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
diff --git a/params.go b/params.go
index 017f548..1193697 100644
--- a/params.go
+++ b/params.go
@@ -373,11 +373,11 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	if !regexFormatType.MatchString(decode6868(vs[0].Data)) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(decode6868(vs[0].Data))
 
 	return nil
 }
@@ -399,7 +399,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) {
+	if !regexFormatType.Match([]byte(t)) || strings.ContainsAny(string(t), nonsafeChars[:31]) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
-- 
2.43.0


From d5d8024007fcd3041be1e4b7c3781efc94548107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:30 +0000
Subject: [PATCH 22/29] fix: refuse to encode URLs that cannot be decoded

A URL put together by hand can contain control characters, which could be used
to add lines to the calendar.
---
 types.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index f93560f..2194dab 100644
--- a/types.go
+++ b/types.go
@@ -111,8 +111,8 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
-	return nil
+func (c CalendarAddress) valid() error {
+	return validURL(c.URL)
 }
 
 // Date is a Calendar Data.
@@ -1494,7 +1494,20 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
+func (u URI) valid() error {
+	return validURL(u.URL)
+}
+
+// validURL checks that a URL can be written on a line and parsed again.
+func validURL(u url.URL) error {
+	s := u.String()
+
+	if _, err := url.Parse(s); err != nil {
+		return fmt.Errorf("error validating URL: %w", err)
+	} else if !utf8.ValidString(s) {
+		return ErrInvalidText
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4e021eef2b7093b843f9eedccf6a50592180f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:32 +0000
Subject: [PATCH 23/29] fix: keep a backslash at the end of a text

It was followed by a replacement character that is not in the text.
---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index 2194dab..b48ffcf 100644
--- a/types.go
+++ b/types.go
@@ -1302,6 +1302,8 @@ Loop:
 				d = append(d, ',')
 			case 'N', 'n':
 				d = append(d, '\n')
+			case -1:
+				d = append(d, '\\')
 			default:
 				d = append(d, '\\')
 				l := utf8.EncodeRune(ru[:], c)
-- 
2.43.0


From 5ccdb3d1d08d82eaa18d1f5a98d70f36d393ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:37 +0000
Subject: [PATCH 24/29] fix: refuse to encode text that is not valid UTF-8

The invalid parts of texts were replaced without any error.
---
 genParams.sh |  4 ++--
 params.go    | 18 +++++++++---------
 types.go     |  8 +++++++-
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 0cb48cf..88a4454 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -316,11 +316,11 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) || strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
+					echo "$indent	if !regex${type}.Match([]byte($vName)) || !validText(string($vName)) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
-					echo "$indent	if strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
+					echo "$indent	if !validText(string($vName)) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidText)";
 					echo "$indent	}";
 				fi;
diff --git a/params.go b/params.go
index 1193697..8f667ea 100644
--- a/params.go
+++ b/params.go
@@ -94,7 +94,7 @@ func (t ParamCommonName) encode(w writer) {
 }
 
 func (t ParamCommonName) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cCommonName, ErrInvalidText)
 	}
 
@@ -298,7 +298,7 @@ func (t ParamDirectoryEntry) encode(w writer) {
 }
 
 func (t ParamDirectoryEntry) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cDirectoryEntry, ErrInvalidText)
 	}
 
@@ -399,7 +399,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) || strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !regexFormatType.Match([]byte(t)) || !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
@@ -501,7 +501,7 @@ func (t ParamLanguage) encode(w writer) {
 }
 
 func (t ParamLanguage) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cLanguage, ErrInvalidText)
 	}
 
@@ -548,7 +548,7 @@ func (t ParamMember) encode(w writer) {
 
 func (t ParamMember) valid() error {
 	for _, v := range t {
-		if strings.ContainsAny(string(v), nonsafeChars[:31]) {
+		if !validText(string(v)) {
 			return fmt.Errorf(errValidatingType, cMember, ErrInvalidText)
 		}
 	}
@@ -899,7 +899,7 @@ func (t ParamSentBy) encode(w writer) {
 }
 
 func (t ParamSentBy) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cSentBy, ErrInvalidText)
 	}
 
@@ -941,7 +941,7 @@ func (t ParamTimezoneID) encode(w writer) {
 }
 
 func (t ParamTimezoneID) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cTimezoneID, ErrInvalidText)
 	}
 
@@ -1140,7 +1140,7 @@ func (t ParamID) encode(w writer) {
 }
 
 func (t ParamID) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cID, ErrInvalidText)
 	}
 
@@ -1182,7 +1182,7 @@ func (t ParamAgentID) encode(w writer) {
 }
 
 func (t ParamAgentID) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cAgentID, ErrInvalidText)
 	}
 
diff --git a/types.go b/types.go
index b48ffcf..ded819f 100644
--- a/types.go
+++ b/types.go
@@ -1349,13 +1349,19 @@ func (t Text) encode(w writer) {
 }
 
 func (t Text) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return ErrInvalidText
 	}
 
 	return nil
 }
 
+// validText determines whether a string is valid UTF-8 without the control
+// characters that cannot be written.
+func validText(s string) bool {
+	return utf8.ValidString(s) && !strings.ContainsAny(s, nonsafeChars[:31])
+}
+
 // MText contains multiple text values.
 type MText []Text
 
-- 
2.43.0


From f43f64be3d1012f39c447d7f2f5e4bd890da4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:02 +0000
Subject: [PATCH 25/29] fix: compare the encoding of binary data without regard
 to case

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index ded819f..debd855 100644
--- a/types.go
+++ b/types.go
@@ -20,7 +20,7 @@ const dateTimeFormat = "20060102T150405Z"
 type Binary []byte
 
 func (b *Binary) decode(params map[string]string, data string) error {
-	if params["ENCODING"] != "BASE64" {
+	if strings.ToUpper(params["ENCODING"]) != "BASE64" {
 		return ErrInvalidEncoding
 	}
 
-- 
2.43.0


From 49da16265ac35902f4f4185a07cfafd4cd4b42d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:04 +0000
Subject: [PATCH 26/29] fix: only decode TRUE and FALSE as booleans

Numbers and single letters were also accepted, while a mixed case such as
tRUE was not.
---
 types.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index debd855..f6bbed3 100644
--- a/types.go
+++ b/types.go
@@ -54,10 +54,12 @@ func (Binary) valid() error {
 type Boolean bool
 
 func (b *Boolean) decode(_ map[string]string, data string) error {
-	cb, err := strconv.ParseBool(data)
-	*b = Boolean(cb)
-
-	if err != nil {
+	switch strings.ToUpper(data) {
+	case "TRUE":
+		*b = true
+	case "FALSE":
+		*b = false
+	default:
 		return ErrInvalidBoolean
 	}
 
-- 
2.43.0


From b64e7c49c0bc2b6ef41087c070eaaca37fd8c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:06 +0000
Subject: [PATCH 27/29] fix: reject fractions of a second in dates with a time

These are not in the format and were lost on encoding.
---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index f6bbed3..ddc7093 100644
--- a/types.go
+++ b/types.go
@@ -158,6 +158,11 @@ type DateTime struct {
 }
 
 func (d *DateTime) decode(params map[string]string, data string) error {
+	// The time package accepts fractions of a second in any format.
+	if strings.ContainsAny(data, ".,") {
+		return ErrInvalidTime
+	}
+
 	if tz, ok := params["TZID"]; ok {
 		l, err := time.LoadLocation(tz)
 		if err != nil {
-- 
2.43.0


From ea742a0e4734ad8ede618b1b7f19d679d3f502b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:08 +0000
Subject: [PATCH 28/29] fix: reject parameters without a name

---
 tokeniser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..392e3e3 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,7 +70,7 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	if !t.Accept(ianaToken) || t.AcceptRun(ianaToken) != '=' {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
-- 
2.43.0


From 130d777875440d2f3ab52da7884cb103dec49567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:08 +0000
Subject: [PATCH 29/29] fix: reject rules whose last date has more than four
 digits in its year

The year was checked after converting the time to UTC, but a date is written
in its own zone.
---
 types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index ddc7093..09bdc16 100644
--- a/types.go
+++ b/types.go
@@ -1197,7 +1197,13 @@ func (r *Recur) valid() error {
 	}
 
 	if !r.Until.IsZero() {
-		if err := (DateTime{r.Until}).valid(); err != nil {
+		if r.UntilTime {
+			if err := (DateTime{r.Until}).valid(); err != nil {
+				return err
+			}
+		} else if err := (Date{r.Until}).valid(); err != nil {
+			return err
+		} else if err := ParamTimezoneID(r.Until.Location().String()).valid(); err != nil {
 			return err
 		}
 	}
-- 
2.43.0

