package main

import (
	"fmt"
	"strings"
)

// Mutators damage or vary texts. They decide nothing: what a damaged text
// means is up to the judge.

// splitLine cuts a content line before its value.
func splitLine(l string) (head, value string) {
	quoted := false
	for i := 0; i < len(l); i++ {
		switch l[i] {
		case '"':
			quoted = !quoted
		case ':':
			if !quoted {
				return l[:i], l[i+1:]
			}
		}
	}
	bad("no value in %q", l)
	return "", ""
}

var commonPieces = []string{" ", "\t", "0", "1", "9", "-", "+", ".", ",", ";", ":", "/", "=", "T", "Z", "x", "\"", "\\", "^", "é", "00", "1e5", "0x1", "_", "NaN", "Inf"}

var kindPieces = map[kind][]string{
	kText:     {"\\", "\\,", "\\;", "\\n", "\\N", "\\\\", ",", ";", "\\x", "a"},
	kMText:    {"\\", "\\,", "\\;", "\\n", ",", ";", ",,", "\\\\"},
	kURI:      {"%", "%zz", "%20", ":", "//", "[", "]", "http://", " ", "#", "?", "@", "://", "\u007f"},
	kAddr:     {"%", "%zz", "%20", ":", "//", "[", "]", "mailto:", " ", "#", "?", "@"},
	kDate:     {"0229", "1301", "0000", "00", "31", "T000000", "Z", "-", "T", "20010229", "20000229"},
	kDateTime: {"T", "Z", "t", "z", "24", "60", "0000", "000000", ".5", ",5", "+0100", "-", "T240000", "0229", ":"},
	kDuration: {"P", "T", "W", "D", "H", "M", "S", "PT", "1W", "2D", "3H", "4M", "5S", "-", "+", "0", "18446744073709551616", "18446744073709551615", "w", "Y", "1"},
	kPeriod:   {"/", "P", "PT1H", "-", "+", "Z", "T", "1D", "W", "//", "20010101T000000", "20010101T000000Z", "/-PT1H", "/PT1H"},
	kRecur: {";", ",", "=", "FREQ=DAILY", "FREQ=", "COUNT=1", "UNTIL=20010101", "UNTIL=20010101T000000Z", "INTERVAL=2", "BYDAY=MO", "BYDAY=+1MO", "BYDAY=-54MO", "BYDAY=53SU", "BYMONTH=13", "BYMONTH=1", "BYHOUR=24", "BYHOUR=23",
		"BYSECOND=60", "BYSECOND=61", "BYMINUTE=60", "BYMONTHDAY=0", "BYMONTHDAY=-31", "BYMONTHDAY=32", "BYYEARDAY=367", "BYYEARDAY=-366", "BYWEEKNO=54", "BYWEEKNO=-53", "BYSETPOS=0", "BYSETPOS=366", "WKST=SU", "WKST=1SU", "WKST=XX", "X-A=1", "0", "+", "-", "1", "999", "18446744073709551616", "MO", "BYEASTER=1"},
	kInteger: {"-", "+", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "0", "00", " ", ".", ".0", "1e1", "0x", "_", "9999999999999999999999"},
	kOffset:  {"+", "-", "00", "60", "59", "0000", "000000", "99", ":", "Z", "5959", "1", "235959"},
	kGeo:     {";", ".", "-", "+", "NaN", "Inf", "-Inf", "+inf", "infinity", "1e5", "E", "0x1p3", "0", "00", ",", "_", " ", "1.5", "9999999999999999999999999", ";;"},
	kBool:    {"TRUE", "FALSE", "true", "T", "F", "1", "0", "YES", "t", "f", " ", ""},
	kBinary:  {"=", "==", "A", "AA", "AAA", "AAAA", "-", "_", " ", "+", "/", "===", "*", "é"},
	kEnum:    {"-", "X", "S", "PUBLIC", " ", "X-", "TRANSPARENT", "COMPLETED"},
}

// edit makes one small random change to a string.
func (g *G) edit(s string, pieces []string) string {
	return strings.ToValidUTF8(g.rawEdit(s, pieces), "")
}

func (g *G) rawEdit(s string, pieces []string) string {
	piece := func() string {
		if g.in(4) || len(pieces) == 0 {
			return pick(g, commonPieces)
		}
		return pick(g, pieces)
	}
	at := func() int { return g.n(len(s) + 1) }
	switch g.n(8) {
	case 0: // insert
		i := at()
		return s[:i] + piece() + s[i:]
	case 1: // append
		return s + piece()
	case 2: // prepend
		return piece() + s
	case 3: // delete a range
		if s == "" {
			return piece()
		}
		i := g.n(len(s))
		j := i + 1 + g.n(3)
		if j > len(s) {
			j = len(s)
		}
		return s[:i] + s[j:]
	case 4: // replace an octet
		if s == "" {
			return piece()
		}
		i := g.n(len(s))
		return s[:i] + piece() + s[i+1:]
	case 5: // repeat a range
		if s == "" {
			return piece()
		}
		i := g.n(len(s))
		j := i + 1 + g.n(len(s)-i)
		return s[:j] + s[i:j] + s[j:]
	case 6: // truncate
		return s[:g.n(len(s)+1)]
	}
	return piece() + piece()
}

func (g *G) mutVal(k kind, raw string) string {
	for n := 1 + g.n(3); n > 0; n-- {
		raw = g.edit(raw, kindPieces[k])
	}
	return raw
}

// huge is more than any number type holds.
var huge = strings.Repeat("9", 400)

// badCatalogue lists values that no reading of the standard allows.
var badCatalogue = map[kind][]string{
	kText:  {";", ",", "a;b", "a,b", "a\\n;", "\\\\,", "\\\\;x", "é,é", "x\\\\\\\\,", "\\n,\\n"},
	kMText: {";", "a;b", "a,b;c", "\\\\;", "a\\,b;", ";,"},
	kURI:   {"%", "http://%zz/", "http://[::1/", ":", "http://a b/", "%zz", "http://h:port/", "1:%", "://x", "http://[::1]x/"},
	kAddr:  {"%", "mailto:%\u007f", "http://[::1/", ":", "http://a b/", "%zz", "http://h:port/", "://x"},
	kDate:  {"", "2001", "200101", "20010", "2001010", "200101011", "20011301", "20010001", "20010100", "20010132", "20010230", "20010229", "21000229", "2001-01-01", "20010101T000000", "20010101T000000Z", "20010101Z", "a0010101", " 20010101", "20010101 ", "+20010101", "-0010101", "２００１0101"},
	kDateTime: {"", "20010101", "20010101T", "20010101T00", "20010101T0000", "20010101T00000", "20010101T0000000", "20010101T240000", "20010101T006000", "20010101T000061", "20010101T000000z", "20010101t000000", "20010101 000000",
		"20010101T000000.5", "20010101T000000,5", "20010101T000000.5Z", "20010101T000000.Z", "20010101T000000+0100", "20010101T000000ZZ", "20010230T000000", "20010229T000000Z", "20011301T000000", "2001-01-01T00:00:00", "T000000", "20010101T000000Z ", " 20010101T000000Z", "20010101T0000-1", "20010101T-10000"},
	kDuration: {"", "P", "PT", "-P", "+PT", "P1", "P1X", "PT1D", "P1H", "P1M", "P1S", "P1W1D", "P1WT1H", "P1DT", "PT1S1M", "PT1M1H", "P1D1D", "PT1H1H", "PTT1S", "P1DTT1S", "P1D1W", "1D", "T1H", "--P1D", "+-P1D", "P-1D", "PT1.5S", "PT1,5S", "P1Y", "P1DT1D", " P1D", "P1D ", "P 1D", "PD", "PTS", "P18446744073709551616D",
		"P99999999999999999999999W", "PT18446744073709551616S", "PT1H18446744073709551620M", "P1DT1H1M1S1", "P1DT1", "P1D/", "P0x1D", "P1_0D", "-", "+", "PT1HM", "PT1W"},
	kPeriod: {"", "/", "20010101T000000Z", "20010101T000000Z/", "/20010101T000000Z", "/PT1H", "20010101T000000Z/PT", "20010101T000000Z/-PT1H", "20010101/20010102", "20010101T000000Z/20010102", "20010101T000000Z/P1H", "20010101T000000Z/20010101T010000Z/", "20010101T000000Z//PT1H", "PT1H/20010101T000000Z", "PT1H/PT1H",
		"20010101T000000Z/1H", "20010101T000000Z-20010101T010000Z", "20010101T000000Z/PT1H/PT1H", "20010101T000000Z,20010101T010000Z", "20010101T000000Z/20010101T250000Z", "20010101T250000Z/20010101T250000Z", "20010101T000000.5Z/PT1H", "20010101T000000Z/20010101T010000.5Z", "20010101T000000Z/P1W1D"},
	kRecur: {"", "FREQ", "FREQ=", "FREQ=;", "COUNT=1", "INTERVAL=1", "FREQ=FORTNIGHTLY", "FREQ=BIWEEKLY", "FREQ=DAY", "FREQ=ANNUALLY", "FREQ=QUARTERLY", "FREQ=D", "FREQ=WEEKDAYS", "FREQ=NEVER", "FREQ=0", "FREQ=1", "FREQ=DAILY;BYDAY=MON", "FREQ=DAILY;BYDAY=MONDAY", "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=WD", "FREQ=DAILY;WKST=MON", "FREQ=DAILY;WKST=0", "FREQ=DAILY;WKST=1", "FREQ=DAILY;BYMONTH=5L", "FREQ=DAILY;", ";FREQ=DAILY", "FREQ=DAILY;;COUNT=1", "FREQ=DAILY;COUNT", "FREQ=DAILY;COUNT=", "FREQ=DAILY;COUNT=-1", "FREQ=DAILY;COUNT=+1", "FREQ=DAILY;COUNT=1.5", "FREQ=DAILY;COUNT=18446744073709551616", "FREQ=DAILY;COUNT=x",
		"FREQ=DAILY;INTERVAL=", "FREQ=DAILY;INTERVAL=-1", "FREQ=DAILY;INTERVAL=18446744073709551616", "FREQ=DAILY;COUNT=1;UNTIL=20010101", "FREQ=DAILY;UNTIL=20010101T000000Z;COUNT=2", "FREQ=DAILY;UNTIL=", "FREQ=DAILY;UNTIL=2001", "FREQ=DAILY;UNTIL=20010230", "FREQ=DAILY;UNTIL=20010101T000000.5Z", "FREQ=DAILY;UNTIL=20010101T250000Z", "FREQ=DAILY;UNTIL=P1D",
		"FREQ=DAILY;FREQ=DAILY", "FREQ=DAILY;INTERVAL=1;INTERVAL=1", "FREQ=DAILY;COUNT=1;COUNT=1", "FREQ=DAILY;WKST=MO;WKST=MO", "FREQ=DAILY;BYDAY=MO;BYDAY=MO", "FREQ=DAILY;BYMONTH=1;BYMONTH=2", "FREQ=DAILY;BYHOUR=1;BYHOUR=2", "FREQ=DAILY;BYMINUTE=1;BYMINUTE=2", "FREQ=DAILY;BYSECOND=1;BYSECOND=2", "FREQ=DAILY;BYMONTHDAY=1;BYMONTHDAY=2", "FREQ=DAILY;BYYEARDAY=1;BYYEARDAY=2", "FREQ=DAILY;BYWEEKNO=1;BYWEEKNO=2", "FREQ=DAILY;BYSETPOS=1;BYSETPOS=2", "FREQ=DAILY;UNTIL=20010101;UNTIL=20010101",
		"FREQ=DAILY;BYSECOND=61", "FREQ=DAILY;BYSECOND=-1", "FREQ=DAILY;BYSECOND=+1", "FREQ=DAILY;BYSECOND=", "FREQ=DAILY;BYSECOND=1,", "FREQ=DAILY;BYSECOND=,1", "FREQ=DAILY;BYSECOND=1,,2", "FREQ=DAILY;BYSECOND=256", "FREQ=DAILY;BYMINUTE=60", "FREQ=DAILY;BYMINUTE=1,60", "FREQ=DAILY;BYMINUTE=", "FREQ=DAILY;BYMINUTE=-1", "FREQ=DAILY;BYMINUTE=300", "FREQ=DAILY;BYHOUR=24", "FREQ=DAILY;BYHOUR=", "FREQ=DAILY;BYHOUR=-1", "FREQ=DAILY;BYHOUR=257",
		"FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYDAY=M", "FREQ=DAILY;BYDAY=MOO", "FREQ=DAILY;BYDAY=XX", "FREQ=DAILY;BYDAY=0MO", "FREQ=DAILY;BYDAY=54MO", "FREQ=DAILY;BYDAY=-54MO", "FREQ=DAILY;BYDAY=+MO", "FREQ=DAILY;BYDAY=-MO", "FREQ=DAILY;BYDAY=+1", "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=MO,", "FREQ=DAILY;BYDAY=MO1", "FREQ=DAILY;BYDAY=--1MO", "FREQ=DAILY;BYDAY=99MO", "FREQ=DAILY;BYDAY=1 MO",
		"FREQ=DAILY;BYMONTHDAY=0", "FREQ=DAILY;BYMONTHDAY=32", "FREQ=DAILY;BYMONTHDAY=-32", "FREQ=DAILY;BYMONTHDAY=", "FREQ=DAILY;BYMONTHDAY=257", "FREQ=DAILY;BYMONTHDAY=1,0", "FREQ=DAILY;BYYEARDAY=0", "FREQ=DAILY;BYYEARDAY=367", "FREQ=DAILY;BYYEARDAY=-367", "FREQ=DAILY;BYYEARDAY=65537", "FREQ=DAILY;BYWEEKNO=0", "FREQ=DAILY;BYWEEKNO=54", "FREQ=DAILY;BYWEEKNO=-54", "FREQ=DAILY;BYWEEKNO=257",
		"FREQ=DAILY;BYMONTH=0", "FREQ=DAILY;BYMONTH=13", "FREQ=DAILY;BYMONTH=-1", "FREQ=DAILY;BYMONTH=JAN", "FREQ=DAILY;BYMONTH=257", "FREQ=DAILY;BYSETPOS=0", "FREQ=DAILY;BYSETPOS=367", "FREQ=DAILY;BYSETPOS=-367", "FREQ=DAILY;BYSETPOS=", "FREQ=DAILY;WKST=", "FREQ=DAILY;WKST=1MO", "FREQ=DAILY;WKST=MO,TU", "FREQ=DAILY;WKST=XX", "FREQ=DAILY;X-FOO=1", "FREQ=DAILY;BYEASTER=1", "FREQ=DAILY;=1", "FREQ=DAILY;COUNT=0;UNTIL=20010101", "FREQ=DAILY;UNTIL=20010101T000000Z;COUNT=0", "FREQ=DAILY;COUNT=0;COUNT=1", "FREQ=DAILY;COUNT=1;COUNT=0", "FREQ=DAILY;INTERVAL=0;INTERVAL=1", "FREQ=DAILY;INTERVAL=1;INTERVAL=0", "FREQ=SECONDLY;FREQ=DAILY", "FREQ=DAILY;FREQ=SECONDLY", "FREQ=DAILY;WKST=SU;WKST=MO", "FREQ=DAILY,COUNT=1", "FREQ=DAILY ;COUNT=1", "FREQ=DAILY;COUNT=1=1"},
	kInteger: {"", "+", "-", "x", "1x", "x1", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775808", "1.0", "1.5", "1e3", "0x10", "1_000", "1,000", "--1", "+-1", " 1", "1 ", "1;2", "one", "１"},
	kOffset:  {"", "+", "-", "+1", "+100", "+01", "+01000", "+0100000", "+010", "+0160", "+0199", "+010060", "-0000", "-000000", "Z", "+01:00", "+ 100", "+0a00", "++100", "+-100", "0100+", "+1 00", "+01000x", "+010000 "},
	kGeo:     {"", ";", "1", "1;", ";1", "1;2;3", "1,2", "NaN;1", "1;NaN", "Inf;1", "1;Inf", "-Inf;+Inf", "+inf;1", "infinity;1", "1e5;1", "1;1E5", "1;1e-5", "0x1p1;1", "1;0x10", "1_0;1", " 1;2", "1; 2", "1 ;2", "1;2 ", "a;b", "1.2.3;1", "--1;2", "+-1;2", "1;-", "1;+", "nan;nan", "1;2;", huge + ";1", "1;" + huge, "-" + huge + ";-" + huge, "1;" + huge + ".5"},
	kBool:    {"", "T", "F", "t", "f", "1", "0", "YES", "NO", "ON", "TRUEX", "TRUE ", " TRUE", "TRU", "FALSEE", "FALS", "NULL", "TRUE,FALSE", "-1"},
	kBinary:  {"A", "AA", "AAA", "AAAAA", "A===", "====", "=", "AA=A", "AAA==", "AAAA=", "AA==AAAA", "A-_A", "AA A", "*AAA", "AAA*", "AA==x"},
	kEnum:    {"", "X-OTHER", "PUBLICX", " PUBLIC", "PUBLIC ", "X", "0", "1", "UNKNOWN", "PUBLIC,PRIVATE", "TENTATIV", "OPAQUEE", "NEEDS_ACTION", "IN PROCESS", "COMPLETED;", "CANCELED", "ACTIV"},
}

// badValue draws a value that must be rejected, and says how it was made.
func (g *G) badValue(def *propDef, k kind, raw, zone string) (string, string) {
	for try := 0; try < 12; try++ {
		var v, how string
		if g.in(3) {
			v, how = g.mutVal(k, raw), "edited value"
		} else {
			v, how = pick(g, badCatalogue[k]), "bad value"
		}
		if strings.ContainsAny(v, "\r\n\u007f") {
			continue
		}
		if _, verdict := judgeVal(def, k, v, zone); verdict == vReject {
			return v, how
		}
	}
	for _, v := range badCatalogue[k] {
		if _, verdict := judgeVal(def, k, v, zone); verdict == vReject && !strings.ContainsAny(v, "\u007f") {
			return v, "bad value"
		}
	}
	bad("no bad value for %s of kind %s", def.Name, k)
	return "", ""
}

var badLines = []string{
	"NOCOLON", ":v", "", " ", "BAD NAME:x", "X;:v", "X;B:v", "X;=x:v", "X;B=\"unterminated:v", "X;B=a\"b\"c:v", "X;B=\"a\"b:v", "X_A:v", "X.A:v", "É:v", "X;B=a", "X;B", "X;", "X;B=\"a\"", "X;B=a;:v", "X;;B=a:v", "X;B =a:v", "X ;B=a:v", "X; B=a:v",
	"SUMMARY", "SUMMARY;LANGUAGE=en", "SUMMARY;LANGUAGE:x", "UID;=x:v", "X:a\x00b", "X:a\x01", "X:\x1b", "X:\x7f", "X:a\x0bb", "X;B=a\x01:v", "X;B=\"a\x02\":v", "X\x00:v", "X;B\x01=c:v", "X:a\rb", "X:a\nb", "X:\r", "X:\n", "X;B=a\nb:v", "X;B=\"a\rb\":v", "X\r:v", "X;B=\"a\"\"b\":v", "X;B=a,\"b:v", "X;B=,\"b\"c:v", "\"X\":v", "X=Y", ";A=b:v", "X:a\x08", "DTSTART\n:20010101T000000Z", "X;B=a\x7f:v", "/:v", "X/Y:v", "X*:v", "X,Y:v",
}

// badLine draws a lexically broken content line.
func (g *G) badLine(like string) (string, string) {
	for try := 0; try < 8; try++ {
		v, how := pick(g, badLines), "bad line"
		if g.in(3) {
			v, how = g.edit(like, []string{"\x00", "\x07", "\x7f", "\r", "\n", "\"", ";", "=", ":", " ", ";X", ";=", "é", "\x1f"}), "edited line"
		}
		if strings.Contains(v, "\r\n") || v == " " || strings.HasPrefix(v, " ") || strings.HasPrefix(v, "\t") {
			continue
		}
		if _, err := lex(v); err != nil {
			return v, how
		}
	}
	return "NOCOLON", "bad line"
}

// badParam damages the spelling of one parameter and gives the new text of
// the parameter section entry.
func (g *G) badParam(def *paramDef) (string, string) {
	n := def.Name + "="
	quoted := def.Kind == pQText || def.Kind == pQTexts || def.Kind == pQURI || def.Kind == pQAddrs
	ok := map[paramKind]string{pText: "abc", pQText: `"abc"`, pQTexts: `"abc"`, pQURI: `"http://a/"`, pQAddrs: `"mailto:a@b"`, pEnum: "X-FOO", pBool: "TRUE", pFmt: "text/plain", pRange: "THISANDFUTURE"}[def.Kind]
	if def.Kind == pEnum && g.bool() {
		ok = def.Enum[0]
	}
	list := def.Kind == pQTexts || def.Kind == pQAddrs
	var opts [][2]string
	add := func(how string, vals ...string) {
		for _, v := range vals {
			opts = append(opts, [2]string{v, how})
		}
	}
	add("repeated parameter", n+ok+";"+n+ok, n+ok+";X-Y=z;"+n+ok, n+ok+";"+strings.ToLower(n)+ok)
	empty := ""
	if quoted {
		empty = `""`
	}
	if def.Kind == pText || def.Kind == pQText || def.Kind == pQTexts || def.Kind == pEnum {
		add("repeated parameter", n+empty+";"+n+ok, n+empty+";"+n+empty, n+ok+";"+n+empty)
	}
	if !list {
		add("several values", n+ok+","+ok, n+ok+",x,y", n+ok+",", n+","+ok, n+`"a","b"`)
	}
	if quoted {
		add("unquoted value", n+"abc", n+"", n+"http://x", n+"a^nb")
		add("mixed values", n+ok+",abc", n+"abc,"+ok)
	}
	switch def.Kind {
	case pQURI, pQAddrs:
		add("bad URI", n+`"%zz"`, n+`":"`, n+`"http://[::1"`, n+`"http://a b/"`, n+`"http://h:port/"`)
		if list {
			add("bad URI in list", n+`"mailto:a@b",":"`, n+`"%",`+ok)
		}
	case pBool:
		add("bad boolean", n+"1", n+"YES", n+"", n+"TRUEE", n+"T", n+"f", n+"0", n+"FALS")
	case pRange:
		add("bad range", n+"THISANDPRIOR", n+"", n+"THISANDFUTUR", n+"ALL")
	case pFmt:
		add("bad media type", n+"text", n+"plain", n+"textplain", n+"x", n+"text.plain")
	}
	o := pick(g, opts)
	return o[0], o[1]
}

// ---- whole documents ----

// lineEdits makes a few changes to the order, number and nesting of lines.
func (g *G) lineEdits(lines []string) []string {
	lines = append([]string(nil), lines...)
	for n := 1 + g.n(3); n > 0 && len(lines) > 1; n-- {
		i := g.u(len(lines))
		switch g.n(7) {
		case 0: // delete
			lines = append(lines[:i:i], lines[i+1:]...)
		case 1: // repeat in place
			lines = append(lines[:i+1:i+1], lines[i:]...)
		case 2: // repeat elsewhere
			j := g.u(len(lines) + 1)
			l := lines[i]
			lines = append(lines[:j:j], append([]string{l}, lines[j:]...)...)
		case 3: // swap
			j := g.u(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
		case 4: // move
			l := lines[i]
			lines = append(lines[:i:i], lines[i+1:]...)
			j := g.u(len(lines) + 1)
			lines = append(lines[:j:j], append([]string{l}, lines[j:]...)...)
		case 5: // insert a structural line
			c := pick(g, []string{"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "X-FOO", "", "EVENT", "TIMEZONE", "VSTANDARD", "ALARM", "CALENDAR"})
			l := pick(g, []string{"BEGIN:", "END:"}) + c
			lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
		case 6: // delete a run
			j := i + 1 + g.n(4)
			if j > len(lines) {
				j = len(lines)
			}
			lines = append(lines[:i:i], lines[j:]...)
		}
	}
	return lines
}

func texts(l []rline) []string {
	out := make([]string, len(l))
	for i := range l {
		out[i] = l[i].Text
	}
	return out
}

func join(lines []string) string { return strings.Join(lines, "\r\n") + "\r\n" }

// target is one property of a model and its line in a rendering.
type target struct {
	Line int
	Comp *Comp
	Prop *Prop
}

// find gives the lines of the focused property (any property if none given).
func find(lines []rline, p pair) []target {
	var out []target
	for i, l := range lines {
		if l.Prop >= 0 && l.Comp.Name == p.Comp && (p.Prop == "" || l.Comp.Props[l.Prop].Name == p.Prop) {
			out = append(out, target{i, l.Comp, &l.Comp.Props[l.Prop]})
		}
	}
	return out
}

func (g *G) target(lines []rline, p pair) target {
	ts := find(lines, p)
	if len(ts) == 0 {
		bad("no line for %s", p)
	}
	return ts[g.u(len(ts))]
}

// octets damages a text without regard to its structure.
func (g *G) octets(s string) string {
	dict := []string{"\r\n", "\r", "\n", "\r\n ", "\r\n\t", "BEGIN:", "END:", "VALARM", "VCALENDAR", "VEVENT", ":", ";", "=", "\"", "\\", "^", "\x00", "\xff", "\x80", "é"[:1], "\xf0\x9f", " ", ",", "TZID=", "VALUE=DATE", "VALUE=", "ENCODING=BASE64", "ACTION:", "+", "-", "P", "T", "/", "BYDAY=+", "FREQ=", "\ufeff", "%", "BEGIN:VALARM\r\n", "END:VALARM\r\n", "END:VCALENDAR\r\n", "18446744073709551616"}
	for n := 1 + g.n(6); n > 0; n-- {
		switch g.n(6) {
		case 0:
			if s != "" {
				i := g.u(len(s))
				s = s[:i] + string([]byte{byte(g.n(256))}) + s[i+1:]
			}
		case 1:
			i := g.u(len(s) + 1)
			s = s[:i] + pick(g, dict) + s[i:]
		case 2:
			if s != "" {
				i := g.u(len(s))
				j := i + 1 + g.n(20)
				if j > len(s) {
					j = len(s)
				}
				s = s[:i] + s[j:]
			}
		case 3:
			if s != "" {
				i := g.u(len(s))
				j := i + 1 + g.n(60)
				if j > len(s) {
					j = len(s)
				}
				k := g.u(len(s) + 1)
				s = s[:k] + s[i:j] + s[k:]
			}
		case 4:
			s = s[:g.u(len(s)+1)]
		case 5:
			i := g.u(len(s) + 1)
			j := g.u(len(s) + 1)
			if i > j {
				i, j = j, i
			}
			s = s[:i] + s[j:]
		}
	}
	return s
}

func note(format string, a ...any) string { return clip(fmt.Sprintf(format, a...)) }
