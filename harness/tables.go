package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"
)

// A table lists the values of a kind that code is most likely to treat
// specially: all small numbers, all usual offsets, every minute of a day, words
// that mean something elsewhere. Many of them are put into one calendar, each
// into a component of its own; what fails is cut down to one value.

const tableBatch = 400

// words mean something to other formats, languages or programs, or look as if
// they could be left out, cleaned up or expanded.
var words = []string{
	"null", "NULL", "nil", "None", "none", "undefined", "NaN", "inf", "Infinity", "true", "false", "TRUE", "FALSE", "yes", "no", "on", "off",
	"0", "1", "-1", "00", "007", "0x10", "1e3", "1.0", "-0", "+1", "1,000", "1.000,5", "12:30", "12/31/2020", "2020-01-01", "20200101", "20200101T000000Z", "P1D", "PT15M", "-PT15M", "+0100",
	"&amp;", "&lt;", "&#10;", "&nbsp;", "<br>", "<b>x</b>", "<!-- x -->", "]]>", "%20", "%0A", "%0D%0A", "%25", "%", "%s", "%d", "%!v", "%n", "%%", "=0A", "=0D=0A", "=3D", "=", "==", "=?UTF-8?Q?x?=", "=?utf-8?b?eA==?=",
	"\\u0041", "\\x41", "\\101", "\\0", "\\r", "\\t", "\\r\\n", "\\a", "\\b", "\\e", "\\\"", "\\'", "\\:", "\\-", "\\ ", "\\\\n", "\\\\\\n", "\\\\,", "\\N", "\\\n", "\n\\", "\\;", "\\,",
	"${x}", "$x", "$1", "$(x)", "`x`", "{{x}}", "{x}", "{}", "[]", "[x]", "()", "(x)", "<x>", "<>", "@x", "#x", "#", "##", "~", "~x", "!", "!x", "*", "**", "*x*", "_x_", "--", "---", "-", "–", "—", "...", "…", "/", "//", "/*", "*/", "\\", "\\\\", "|", "||", "&", "&&", "^", "^^", "^n", "^'", "^^n", "^\"", "^,", "'", "''", "'x'", "\"", "\"\"", "\"x\"", "\"x", "x\"", "`", "´", "“x”", "«x»", "‘x’", "„x“",
	",", ",,", ";", ";;", ":", "::", "a,", ",a", "a;", ";a", "a:", ":a", "a=b", "A=B;C=D", ";A=B", ";A=B:c", ":;", ";:", "a;b,c:d",
	" ", "  ", "   ", " x", "x ", " x ", "x  y", "\t", "\tx", "x\t", "x\ty", "\t ", " \t", "\n", "\n\n", "\n\n\n", "\nx", "x\n", "x\ny", "x\n y", "x\n\ty", "x \ny", " \n", "\n ",
	"\u00a0", "\u00a0x", "x\u00a0", "\u200b", "\u200bx", "\u200d", "\ufeff", "\ufeffx", "x\ufeff", "\u2028", "\u2029", "\u3000", "\u00ad", "\u202e", "\u2066x\u2069", "\ufffc", "\ufffd", "\ufffe", "\uffff", "\U0001fffe", "\U0010ffff", "\ue000", "\U000e0041",
	"e\u0301", "\u00e9", "\u1e9b\u0323", "\ufb01", "\u01c4", "\u01c5", "\u0130", "\u0131", "\u017f", "\u00df", "\u1e9e", "\u03a3", "\u03c2", "\u212a", "\u2126", "Ａ", "①", "½", "²", "\u0660", "๑", "你好", "こんにちは", "안녕", "שלום", "مرحبا", "नमस्ते", "👨\u200d👩\u200d👧", "🇬🇧", "👍🏽", "☺\ufe0f",
	"BEGIN", "BEGIN:", "BEGIN:VEVENT", "BEGIN:VCALENDAR", "END", "END:", "END:VEVENT", "END:VCALENDAR", "END:VALARM", "begin:vevent", "end:vcalendar", "\nEND:VEVENT\n", "\nEND:VCALENDAR", "x\nBEGIN:VALARM\ny", "UID:x", "DTSTAMP:20200101T000000Z", "VERSION:2.0", "2.0", "VCALENDAR", "VEVENT", "X-", "X-FOO", "x-foo", "TZID=", "TZID=Europe/London:", "VALUE=DATE", "UTC", "GMT", "Z", "T", "Local", "Europe/London", "REQ-PARTICIPANT", "CHAIR", "THISANDFUTURE", "BASE64", "UNKNOWN", "PUBLIC", "NONE",
	"en", "en-US", "EN", "x-klingon", "zh-Hant-TW", "de_DE", "i-default", "text/plain", "a/b", "mailto:", "mailto:a@b", "MAILTO:A@B", "a@b", "a@b.c", "http://", "http://a", "http://a/b?c=d#e", "HTTP://A", "ftp://a", "urn:x", "cid:x", "data:,", "file:///", "//a", "www.a.b", "127.0.0.1", "::1", "[::1]", "a.b", "a.b.", ".a", ".", "..", "../x", "./x", "C:\\x", "/etc/passwd", "~/x",
	"x'; DROP TABLE y; --", "<script>", "javascript:x", "; rm x", "| x", "> x", "x & y", "AT&T", "R&D", "100%", "50% off", "C#", "C++", "A+", "Q&A", "TODO", "FIXME", "Re: x", "Fwd: x", "Re:", "No. 1", "O'Neil", "Müller", "naïve", "Łódź", "Straße", "Ελλάδα", "Москва", "İstanbul", "ﬁne", "ŒUVRE",
	"lorem ipsum dolor sit amet", "UPPER", "lower", "MiXeD", "camelCase", "snake_case", "kebab-case", "a", "A", "ab", "x", "X", "n", "N", "t", "é", "世", "😀",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"550e8400-e29b-41d4-a716-446655440000", "19970901T130000Z-123401@example.com", "-//A//B//EN", "+1-201-555-0123", "(201) 555-0123", "US-Eastern", "GREGORIAN", "PUBLISH", "REQUEST",
}

var tableURIs = []string{
	"http://a", "http://a/", "http://a.", "http://a./", "http://a.b./c", "http://a:80", "http://a:80/", "https://a:443/", "http://a:443/", "ftp://a:21/", "http://a:8080/", "http://a:/", "http://a:080/", "http://a:65535/", "http://a:65536/", "http://a:0/",
	"http://A/", "http://A.B/C", "http://WWW.Example.COM/Path", "http://xn--a-1fa/", "http://é/", "http://127.0.0.1/", "http://127.1/", "http://[::1]/", "http://[::1]:80/", "http://[fe80::1%25eth0]/", "http://[::FFFF:1.2.3.4]/", "http://a_b/", "http://-a/", "http://a%2db/", "http://*.a/",
	"http://u@a/", "http://u:@a/", "http://:p@a/", "http://@a/", "http://u:p@a/", "http://u:p:q@a/", "http://u%40b:p%3a@a/", "http://U:P@a/", "http://u;x=y@a/", "http://a@b@c/",
	"http://a/b", "http://a/b/", "http://a//b", "http://a/b//c", "http://a///", "http://a/./b", "http://a/../b", "http://a/b/../c", "http://a/b/..", "http://a/b/.", "http://a/..", "http://a/.", "http://a/...", "http://a/~b", "http://a/%7Eb", "http://a/%7eb", "http://a/B", "http://a/b;c", "http://a/b;c=d", "http://a/b,c", "http://a/b:c", "http://a/b@c", "http://a/b+c", "http://a/b%2Bc", "http://a/b%20c", "http://a/b%2Fc", "http://a/b%2fc", "http://a/%2F", "http://a/%", "http://a/%zz", "http://a/%00", "http://a/%0A", "http://a/%0D%0A", "http://a/%E9", "http://a/%C3%A9", "http://a/%c3%a9", "http://a/é", "http://a/世", "http://a/b c", "http://a/b\\c", "http://a/b|c", "http://a/b^c", "http://a/b`c", "http://a/{b}", "http://a/[b]", "http://a/<b>", "http://a/\"b\"", "http://a/'b'", "http://a/(b)", "http://a/b!", "http://a/b*", "http://a/$b", "http://a/&b", "http://a/=b", "http://a/index.html", "http://a/b.ics", "http://a/B.PNG",
	"http://a?", "http://a/?", "http://a?b", "http://a/?b", "http://a/?b=", "http://a/?=b", "http://a/?b=c&d=e", "http://a/?d=e&b=c", "http://a/?b=c&b=d", "http://a/?b=c&amp;d=e", "http://a/?b;c", "http://a/?b+c", "http://a/?b%20c", "http://a/?b%2Bc", "http://a/?b=%26", "http://a/?b=%3D", "http://a/?b=%2f", "http://a/?b=/c", "http://a/?b=?c", "http://a/??", "http://a/?&", "http://a/?&b", "http://a/?b&", "http://a/?b=c,d", "http://a/?b=c:d", "http://a/?b='c'", "http://a/?b=\"c\"", "http://a/?b[]=c", "http://a/?b={c}", "http://a/?b=^", "http://a/?b=|", "http://a/?b=\\", "http://a/?é", "http://a/?%E9", "http://a/?utm_source=x", "http://a/?url=http://b/?c=d",
	"http://a#", "http://a/#", "http://a#b", "http://a/#b", "http://a/#/b", "http://a/#!b", "http://a/#b?c", "http://a/#b%20c", "http://a/#b c", "http://a/#b#c", "http://a/#b,c;d:e", "http://a/#é", "http://a/#%C3%A9", "http://a/?b#", "http://a/?#", "http://a/?#b", "http://a/?b=c#d",
	"HTTP://a/", "Http://a/", "https://a/", "HTTPS://a/", "ws://a/", "webcal://a/b.ics", "file:///", "file:///a", "file://a/b", "file:a", "file:/a", "ftp://a/b;type=i", "ldap://a/b?c?d", "news:a", "tel:+1", "TEL:+1", "tel:1;ext=2", "sms:+1?body=a%20b", "sip:a@b", "sips:a@b;c=d?e=f", "xmpp:a@b/c", "geo:1,2", "urn:a:b", "URN:A:B", "urn:a:b:c", "urn:uuid:550E8400-E29B-41D4-A716-446655440000", "cid:a@b", "mid:a@b", "data:,", "data:,a", "data:text/plain,a%20b", "data:text/plain;charset=utf-8,a", "data:;base64,", "data:;base64,QQ==", "javascript:a", "about:blank", "tag:a,2020:b", "magnet:?xt=urn:a:b", "view-source:http://a/", "x:y", "x:", "x:/", "x://", "x:///", "x:?", "x:#", "x-a:b", "a+b:c", "a.b:c", "a-b:c", "a1:b",
	"mailto:", "mailto:a", "mailto:a@b", "MAILTO:a@b", "mailto:A@B", "Mailto:A.B@C.D", "mailto:a+b@c", "mailto:a%2Bb@c", "mailto:a%40b@c", "mailto:a@b,c@d", "mailto:a@b;c@d", "mailto:a@b?subject=c", "mailto:a@b?subject=c%20d&body=e", "mailto:?to=a@b", "mailto:%22a%20b%22@c", "mailto:\"a\"@b", "mailto:a.b.@c", "mailto:a@[1.2.3.4]", "mailto:a@b.", "mailto:a@é", "mailto:é@b", "mailto:a@xn--b", "mailto:a#b", "mailto:/a", "mailto://a@b", "mailto:a@b ", "invalid:nomail", "noreply@a", "a@b", "a", "a/b", "/a", "//a", "//a/b", "///a", "./a", "../a", ".", "..", "?", "?a", "#", "#a", "a:b:c", "a?b", "a#b", "a;b", "a,b", "%41", "%C3%A9", "é",
}

func (g *G) genTable(p pair, k kind, param string) *Case {
	g.Small = true
	def := defOf(p.Comp, p.Prop)
	if k == "" {
		k = def.Kinds[0]
	}
	m := g.focused(p, k, func() Val { return simpleVal(def, k) })
	// nothing but what is needed, as there will be many of them
	for i := range m.Subs {
		lean(&m.Subs[i], p)
	}
	c := &Case{How: "table", Model: m, Recipe: param}
	for i := 0; i < 6; i++ {
		c.Ops = append(c.Ops, g.u(1<<16))
	}
	return c
}

// lean drops the properties that are not needed.
func lean(c *Comp, p pair) {
	for i := len(c.Props) - 1; i >= 0; i-- {
		n := c.Props[i].Name
		if c.Name == p.Comp && n == p.Prop || cardOf(c.Name, n) == one {
			continue
		}
		d := cloneComp(c)
		d.Props = append(d.Props[:i:i], d.Props[i+1:]...)
		if obeys(d) && !(isAlarm(c.Name) && (n == "DURATION" || n == "REPEAT")) {
			*c = *d
		}
	}
	for i := range c.Subs {
		lean(&c.Subs[i], p)
	}
}

// tabled gives the calendar one component for each value.
func tabled(m *Comp, p pair, param string, vals []Val) *Comp {
	put := func(root *Comp, v Val) *Comp {
		c, i := firstOf(root, p)
		if c == nil {
			return root
		}
		q := &c.Props[i]
		if param == "" {
			q.Val, q.Params = v, nil
			return root
		}
		one := &Comp{Name: root.Name, Props: root.Props, Subs: root.Subs}
		return withText(one, p, param, string(v.S))
	}
	m = cloneComp(m)
	for i := range m.Subs {
		if c, _ := firstOf(&m.Subs[i], p); c == nil {
			continue
		}
		base := m.Subs[i]
		var subs []Comp
		for _, v := range vals {
			subs = append(subs, *put(cloneComp(&base), v))
		}
		m.Subs = append(m.Subs[:i:i], append(subs, m.Subs[i+1:]...)...)
		return m
	}
	return put(m, vals[0])
}

// runTable tries each value of the table in the focused place.
func runTable(c *Case, o *obs, rel func(m *Comp) string) string {
	p := parsePair(c.Site)
	var vals []Val
	if c.Recipe != "" {
		vals = paramTable(paramDefs[c.Recipe].Kind)
	} else {
		vals = table(kind(strings.Split(c.Site, "|")[1]), c.Ops)
	}
	ctl := c.Model
	if c.Recipe == "" {
		ctl = control(c.Model, p)
	}
	if rel(ctl) != "" {
		o.label("control fails")
		return ""
	}
	o.Nontrivial = true
	if c.N > 0 {
		return rel(tabled(c.Model, p, c.Recipe, vals[c.N-1:c.N]))
	}
	batch := tableBatch
	if p.Comp == "VCALENDAR" {
		batch = 1
	}
	for at := 0; at < len(vals); at += batch {
		lo, hi := at, min(at+batch, len(vals))
		for i := lo; i < hi; i++ {
			b, _ := json.Marshal(vals[i])
			o.each(c.Site + string(b))
		}
		fail := rel(tabled(c.Model, p, c.Recipe, vals[lo:hi]))
		if fail == "" {
			continue
		}
		for hi-lo > 1 {
			mid := (lo + hi) / 2
			if f := rel(tabled(c.Model, p, c.Recipe, vals[lo:mid])); f != "" {
				hi, fail = mid, f
			} else if f := rel(tabled(c.Model, p, c.Recipe, vals[mid:hi])); f != "" {
				lo, fail = mid, f
			} else {
				// only together
				return fail
			}
		}
		d := *c
		d.N = lo + 1
		o.Narrow = &d
		return fmt.Sprintf("value %d of the table: %s", lo, fail)
	}
	return ""
}

func paramTable(k paramKind) []Val {
	var out []Val
	if k == pQURI || k == pQAddrs {
		for _, s := range tableURIs {
			if t := stableURI(s); t != "" {
				out = append(out, Val{S: Str(t)})
			}
		}
		return out
	}
	for _, w := range words {
		out = append(out, Val{S: Str(w)}, Val{S: Str("a " + w)}, Val{S: Str(w + " b")}, Val{S: Str(w + w)})
	}
	return out
}

// powers lists the numbers around powers of two and of ten up to a limit.
func powers(max uint64) []uint64 {
	var out []uint64
	for _, b := range []uint64{2, 10} {
		for x := b; x <= max; x *= b {
			out = append(out, x-1, x)
			if x < max {
				out = append(out, x+1)
			}
			if x > max/b {
				break
			}
		}
	}
	return out
}

// table lists the values of a kind. The numbers vary what cannot be complete.
func table(k kind, ops []int) []Val {
	var out []Val
	add := func(v Val) {
		v.K = k
		out = append(out, v)
	}
	op := func(i int) int {
		if i < len(ops) {
			return ops[i]
		}
		return 0
	}
	switch k {
	case kInteger:
		for i := int64(-1500); i <= 3000; i++ {
			add(Val{I: i})
		}
		for _, x := range powers(math.MaxInt32) {
			add(Val{I: int64(x)})
			add(Val{I: -int64(x)})
		}
		for i := int64(0); i < 100; i++ {
			add(Val{I: i * 1000})
			add(Val{I: int64(op(0))*997 + i})
		}
		add(Val{I: math.MinInt32})
	case kOffset:
		for i := int64(-1440); i <= 1440; i++ {
			add(Val{I: i * 60})
		}
		for i := int64(-700); i <= 700; i++ {
			add(Val{I: i})
		}
		for h := int64(0); h < 100; h++ {
			for _, s := range []int64{0, 1, 59, 60, 61, 1800, 1801, 3540, 3599, int64(op(0)) % 3600} {
				add(Val{I: h*3600 + s})
				add(Val{I: -h*3600 - s})
			}
		}
	case kGeo:
		pair := func(a, b float64) { add(Val{F: []Flt{Flt(a), Flt(b)}}) }
		for i := -180; i <= 180; i++ {
			f := float64(i)
			pair(f/2, f)
			pair(f, f)
			pair(f, -f)
			pair(f/10, 0)
			pair(0, f/8)
			pair(f+0.000001, f-0.000001)
			pair(f*2, f*10)
		}
		odd := []float64{0, math.Copysign(0, -1), 0.1, 1.0 / 3, 1e-5, 1e-7, 1e-20, 90, -90, 180, -180, 90.000001, 180.5, 1e6, 1e15, 1e17, 1e21, 1e22, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e-300, 37.386013, -122.082932, 123456789.123456789}
		for _, a := range odd {
			for _, b := range odd {
				pair(a, b)
			}
		}
		for i := 0; i < 17; i++ {
			x := math.Pow(10, float64(-i))
			pair(x, -x)
			pair(1+x, 45-x)
			pair(12.5+x, math.Nextafter(x, 1))
		}
	case kBinary:
		fills := []func(n, i int) byte{
			func(n, i int) byte { return 0 },
			func(n, i int) byte { return 0xff },
			func(n, i int) byte { return byte(i) },
			func(n, i int) byte { return byte((i + n) * (op(0) | 1) >> 3) },
			func(n, i int) byte { return 'A' },
			func(n, i int) byte { return "\r\n"[i%2] },
		}
		fill := func(n int, f func(n, i int) byte) {
			b := make([]byte, n)
			for i := range b {
				b[i] = f(n, i)
			}
			add(Val{B: b})
		}
		for n := 0; n <= 130; n++ {
			for _, f := range fills {
				fill(n, f)
			}
		}
		for _, x := range powers(8192) {
			fill(int(x), fills[3])
		}
		for i := 0; i < 256; i++ {
			add(Val{B: []byte{byte(i)}})
			add(Val{B: []byte{byte(i), byte(i)}})
			add(Val{B: []byte{'x', byte(i), 0}})
		}
		for _, s := range []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x89PNG\r\n\x1a\n", "%PDF-1.7", "\xff\xd8\xff\xe0", "GIF89a", "PK\x03\x04", "\x1f\x8b\x08", "BM", "RIFF", "MZ", "\x7fELF", "#!/bin/sh\n", "<?xml", "{\"a\":1}", "BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "\r\n ", "\x00\x00\x00", "\xc3\xa9", "\xed\xa0\x80", "\xf4\x90\x80\x80"} {
			for _, t := range []string{"", "x", "some more of it", "\x00", "\x00\x00", "\n", "\r\n", "====", strings.Repeat("long ", 30) + "\x00\x00"} {
				add(Val{B: []byte(s + t)})
				add(Val{B: []byte(t + s)})
			}
		}
	case kDuration:
		for _, d := range durations(op(0)) {
			d := d
			add(Val{D: &d})
		}
	case kDate:
		first := time.Date(1900+op(0)%200, 1, 1, 0, 0, 0, 0, time.UTC)
		day := func(t time.Time) {
			if x := tableTm(t, "UTC"); x != nil {
				add(Val{T: x})
			}
		}
		for i := 0; i < 1500; i++ {
			day(first.AddDate(0, 0, i))
		}
		for i := 0; i < 800; i++ {
			day(time.Date(2020, 1, 1+i, 0, 0, 0, 0, time.UTC))
		}
		for y := op(1) % 5; y < 10000; y += 5 {
			day(time.Date(y, 3, 0, 0, 0, 0, 0, time.UTC))
			day(time.Date(y, time.Month(1+op(2)%12), 1+(op(3)+y)%28, 0, 0, 0, 0, time.UTC))
		}
		for _, t := range notable() {
			y, mo, d := t.Date()
			day(time.Date(y, mo, d, 0, 0, 0, 0, time.UTC))
		}
	case kDateTime:
		zones := tableZones(op(0), op(1))
		for _, z := range zones {
			for _, t := range notable() {
				if x := tableTm(t, z); x != nil {
					add(Val{T: x})
				}
				// the same wall clock
				y, mo, d := t.Date()
				h, mi, s := t.Clock()
				add(Val{T: settle(&Tm{Y: y, Mo: int(mo), D: d, H: h, Mi: mi, S: s, Zone: z})})
			}
		}
		n := 0
		wall := func(t time.Time) {
			y, mo, d := t.Date()
			h, mi, s := t.Clock()
			n++
			add(Val{T: settle(&Tm{Y: y, Mo: int(mo), D: d, H: h, Mi: mi, S: s, Zone: zones[n%len(zones)]})})
		}
		date := time.Date(1970+op(2)%70, time.Month(1+op(3)%12), 1+op(4)%28, 0, 0, 0, 0, time.UTC)
		for i := 0; i < 1440; i++ {
			wall(date.Add(time.Duration(i) * time.Minute))
		}
		for i := 0; i < 600; i++ {
			wall(date.Add(time.Duration(op(5)%86400+i) * time.Second))
		}
		for i := 0; i < 800; i++ {
			wall(date.AddDate(0, 0, i).Add(time.Duration(i*7919%86400) * time.Second))
		}
		for y := op(1) % 7; y < 10000; y += 7 {
			wall(date.AddDate(y-date.Year(), 0, 0).Add(time.Duration(y*7919%86400) * time.Second))
		}
	case kPeriod:
		zones := tableZones(op(0), op(1))
		start := time.Date(1970+op(2)%70, time.Month(1+op(3)%12), 1+op(4)%28, op(5)%24, 0, 0, 0, time.UTC)
		n := 0
		until := func(d time.Duration) {
			n++
			z := zones[n%len(zones)]
			a, b := tableTm(start, z), tableTm(start.Add(d), z)
			if a != nil && b != nil {
				add(Val{T: a, E: b})
			}
		}
		for i := 1; i <= 400; i++ {
			until(time.Duration(i) * time.Second)
			until(time.Duration(i) * time.Minute)
			until(time.Duration(i) * 15 * time.Minute)
			until(time.Duration(i) * time.Hour)
			until(time.Duration(i) * 24 * time.Hour)
		}
		for i, d := range durations(op(0)) {
			d := d
			d.Neg = false
			if t := tableTm(start, zones[i%len(zones)]); t != nil && (i%3 == 0 || d.W > 0) {
				add(Val{T: t, D: &d})
			}
		}
	case kRecur:
		for _, r := range recs(ops) {
			r := r
			add(Val{R: &r})
		}
	case kText:
		for _, w := range words {
			add(Val{S: Str(w)})
			add(Val{S: Str("a " + w)})
			add(Val{S: Str(w + " b")})
			add(Val{S: Str(w + w)})
		}
	case kMText:
		for _, w := range words {
			add(Val{L: []Str{Str(w)}})
			add(Val{L: []Str{Str(w), "x", Str(w)}})
			add(Val{L: []Str{"x", Str(w + " b")}})
			add(Val{L: []Str{Str("a " + w), Str(w), "", Str(w + w)}})
		}
	case kURI, kAddr:
		for _, s := range tableURIs {
			if t := stableURI(s); t != "" {
				add(Val{S: Str(t)})
			}
		}
		for _, w := range words {
			for _, h := range []string{"", "http://h/", "http://h/?", "http://h/#", "mailto:", "x:"} {
				if t := stableURI(h + w); t != "" {
					add(Val{S: Str(t)})
				}
			}
		}
	default:
		bad("no table of %s", k)
	}
	return out
}

func durations(seed int) []Dur {
	var out []Dur
	for i := uint(0); i <= 1000; i++ {
		neg := i%2 == 1
		out = append(out, Dur{W: i, Neg: neg}, Dur{D: i, Neg: !neg}, Dur{H: i, Neg: neg}, Dur{M: i, Neg: !neg}, Dur{S: i, Neg: neg})
	}
	for _, x := range []uint{1, 5, 7, 10, 12, 14, 15, 20, 24, 28, 30, 31, 36, 40, 45, 48, 59, 60, 61, 72, 90, 100, 120, 180, 240, 300, 360, 365, 366, 480, 600, 720, 900, 1440, 1800, 2880, 3599, 3600, 3601, 5400, 7200, 10080, 43200, 86399, 86400, 86401, 604800, 31536000} {
		for u := 0; u < 10; u++ {
			d := Dur{Neg: u >= 5}
			*[]*uint{&d.W, &d.D, &d.H, &d.M, &d.S}[u%5] = x
			out = append(out, d)
		}
	}
	few := []uint{0, 1, 7, 15, 24, 30, 59, 60, 90, 100, 3600, uint(seed)}
	for i, a := range few {
		for j, b := range few {
			neg := (i+j)%2 == 1
			out = append(out, Dur{D: a, H: b, Neg: neg}, Dur{D: a, M: b, Neg: neg}, Dur{D: a, S: b, Neg: neg}, Dur{H: a, M: b, Neg: neg}, Dur{H: a, S: b, Neg: neg}, Dur{M: a, S: b, Neg: neg},
				Dur{D: 1, H: a, M: b, Neg: neg}, Dur{H: 1, M: a, S: b, Neg: neg}, Dur{D: a, H: b, M: a, S: b, Neg: neg}, Dur{D: 2, H: a, S: b, Neg: neg})
		}
	}
	for _, x := range powers(math.MaxInt64) {
		for u := 0; u < 5; u++ {
			d := Dur{Neg: u%2 == 1}
			*[]*uint{&d.W, &d.D, &d.H, &d.M, &d.S}[u] = uint(x)
			out = append(out, d)
		}
	}
	return out
}

// notable are instants at which counters end or calendars change.
func notable() []time.Time {
	var out []time.Time
	for _, x := range []int64{0, 1 << 31, -1 << 31, 1 << 32, -1 << 32, 1 << 33, 1 << 16, 1 << 24, 1 << 30, 1e9, 1e10, -1e9, 1234567890, 1111111111, 2222222222, 2147483647, 946684800, 915148800, 978307200, 1e11, 2e9, -2208988800, 1 << 35, 253402300799 - 86400} {
		for _, d := range []int64{-1, 0, 1} {
			out = append(out, time.Unix(x+d, 0).UTC())
		}
	}
	for _, y := range []int{1, 4, 100, 400, 1000, 1582, 1583, 1600, 1752, 1753, 1800, 1883, 1900, 1901, 1904, 1970, 1972, 1980, 1999, 2000, 2001, 2004, 2010, 2016, 2020, 2024, 2037, 2038, 2039, 2069, 2070, 2099, 2100, 2106, 2400, 9998} {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {2, 29}, {3, 1}, {6, 30}, {7, 1}, {10, 4}, {10, 15}, {12, 31}} {
			for _, s := range []int{0, 43200, 86399} {
				if t := time.Date(y, time.Month(md[0]), md[1], 0, 0, s, 0, time.UTC); !t.IsZero() {
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// tableTm gives the wall clock of an instant in a zone, unless it occurs twice or
// cannot be written.
func tableTm(t time.Time, zone string) *Tm {
	x := &Tm{Zone: zone}
	l := t.In(x.Location())
	y, mo, d := l.Date()
	x.Y, x.Mo, x.D = y, int(mo), d
	x.H, x.Mi, x.S = l.Clock()
	if y < 0 || y > 9999 || x.Time().IsZero() || !x.Time().Equal(t) {
		return nil
	}
	return x
}

func tableZones(a, b int) []string {
	return []string{"UTC", "Local", moreZones[a%len(moreZones)], zoneNames[b%len(zoneNames)]}
}

func recs(ops []int) []Rec {
	op := func(i int) int {
		if i < len(ops) {
			return ops[i]
		}
		return 0
	}
	var out []Rec
	n := 0
	add := func(r Rec) {
		n++
		r.Freq = n % 7
		out = append(out, r)
	}
	for i := uint64(1); i <= 800; i++ {
		add(Rec{Count: i})
		add(Rec{Interval: i})
	}
	for _, x := range powers(math.MaxInt64) {
		add(Rec{Count: x})
		add(Rec{Interval: x})
		add(Rec{Count: x, Interval: x})
	}
	lists := []struct {
		lo, hi int
		to     func(r *Rec) *[]int
	}{
		{0, 60, func(r *Rec) *[]int { return &r.BySecond }},
		{0, 59, func(r *Rec) *[]int { return &r.ByMinute }},
		{0, 23, func(r *Rec) *[]int { return &r.ByHour }},
		{-31, 31, func(r *Rec) *[]int { return &r.ByMonthDay }},
		{-366, 366, func(r *Rec) *[]int { return &r.ByYearDay }},
		{-53, 53, func(r *Rec) *[]int { return &r.ByWeekNo }},
		{1, 12, func(r *Rec) *[]int { return &r.ByMonth }},
		{-366, 366, func(r *Rec) *[]int { return &r.BySetPos }},
	}
	var parts []func(r *Rec)
	for _, l := range lists {
		l := l
		var all, back []int
		for i := l.lo; i <= l.hi; i++ {
			if i == 0 && l.lo < 0 {
				continue
			}
			var r Rec
			*l.to(&r) = []int{i}
			add(r)
			var s Rec
			*l.to(&s) = []int{i, i}
			add(s)
			all = append(all, i)
			back = append([]int{i}, back...)
		}
		for _, x := range [][]int{all, back, all[:len(all)-1], all[1:], append(append([]int{}, all...), all...)} {
			var r Rec
			*l.to(&r) = x
			add(r)
		}
		for _, x := range []int{l.lo, l.hi, all[op(0)%len(all)]} {
			x := x
			parts = append(parts, func(r *Rec) { *l.to(r) = []int{x} })
		}
	}
	var week [][2]int
	for d := 1; d <= 7; d++ {
		week = append(week, [2]int{0, d})
		for o := -53; o <= 53; o++ {
			add(Rec{ByDay: [][2]int{{o, d}}})
		}
		add(Rec{ByDay: append([][2]int(nil), week...)})
		for w := 0; w <= 7; w++ {
			for f := 0; f < 7; f++ {
				add(Rec{WkSt: w, ByDay: [][2]int{{0, d}}, Interval: uint64(f)})
			}
		}
	}
	for i := 0; i < 7; i++ {
		add(Rec{ByDay: week[1:6]})
		add(Rec{ByDay: week[:5]})
		add(Rec{ByDay: [][2]int{{0, 1}, {0, 7}}})
		add(Rec{ByDay: week, BySetPos: []int{1}})
		add(Rec{ByDay: week, BySetPos: []int{-1}})
	}
	until := tableTm(time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC), "UTC")
	parts = append(parts,
		func(r *Rec) { r.Count = 1 }, func(r *Rec) { r.Count = 10 }, func(r *Rec) { r.Interval = 1 }, func(r *Rec) { r.Interval = 2 },
		func(r *Rec) { r.WkSt = 1 }, func(r *Rec) { r.WkSt = 2 }, func(r *Rec) { r.WkSt = 7 },
		func(r *Rec) { r.ByDay = [][2]int{{0, 1}} }, func(r *Rec) { r.ByDay = [][2]int{{-1, 6}} }, func(r *Rec) { r.ByDay = [][2]int{{1, 2}, {2, 2}} },
		func(r *Rec) { r.Until, r.UntilTime, r.Count = until, false, 0 }, func(r *Rec) { r.Until, r.UntilTime, r.Count = until, true, 0 })
	for i, a := range parts {
		for _, b := range parts[:i] {
			for f := 0; f < 2; f++ {
				var r Rec
				a(&r)
				b(&r)
				if r.Until != nil && r.Count != 0 {
					continue
				}
				add(r)
			}
		}
	}
	zones := tableZones(op(1), op(2))
	for i := 0; i < 400; i++ {
		t := time.Date(1990+op(3)%60, 1, 1+i, 0, 0, 0, 0, time.UTC)
		add(Rec{Until: tableTm(t, "UTC")})
		if x := tableTm(t.Add(time.Duration(i*7919%86400)*time.Second), zones[i%len(zones)]); x != nil {
			add(Rec{Until: x, UntilTime: true})
		}
	}
	for i, t := range notable() {
		y, mo, d := t.Date()
		if x := tableTm(time.Date(y, mo, d, 0, 0, 0, 0, time.UTC), "UTC"); x != nil {
			add(Rec{Until: x})
		}
		if x := tableTm(t, zones[i%len(zones)]); x != nil {
			add(Rec{Until: x, UntilTime: true})
		}
	}
	return out
}

// tableSites lists the places of values, and of parameters, that have tables.
func tableSites(kinds []kind, params []paramKind) []string {
	var out []string
	for _, s := range (&valueCheck{kinds: kinds, modes: []string{"table"}}).sites() {
		if p := parsePair(s); p.Prop != "VERSION" && p.Prop != "REQUEST-STATUS" {
			out = append(out, s)
		}
	}
	return append(out, (&paramCheck{kinds: params, modes: []string{"table"}}).sites()...)
}

// withTables gives a check tables too.
func withTables(ck *check, kinds []kind, params []paramKind, rel func(m *Comp) string) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string { return append(sites(), tableSites(kinds, params)...) }
	ck.Gen = func(g *G, site string) *Case {
		if !strings.HasSuffix(site, "|table") {
			return gen(g, site)
		}
		p, f := parsePair(site), strings.Split(site, "|")
		if strings.HasPrefix(f[1], ";") {
			return g.genTable(p, "", f[1][1:])
		}
		return g.genTable(p, kind(f[1]), "")
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.How != "table" {
			return old(c, o)
		}
		o.label("table")
		return runTable(c, o, rel)
	}
}

var tableKinds = []kind{kText, kMText, kURI, kAddr, kDate, kDateTime, kDuration, kPeriod, kRecur, kInteger, kGeo, kOffset, kBinary}
var tableParams = []paramKind{pText, pQText, pQTexts, pQURI, pQAddrs}
