package main

import (
	"math"
	"net/url"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// G draws everything from rapid, so that every case can be replayed and shrunk.
type G struct {
	t     *rapid.T
	Loose bool // also draw encoder-side variety that the text cannot carry (sub-seconds, unused fields)
	Small bool // prefer short values
}

var intGens = map[int]*rapid.Generator[int]{}

// n draws a number in [0,k).
func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	gen := intGens[k]
	if gen == nil {
		gen = rapid.IntRange(0, k-1)
		intGens[k] = gen
	}
	return gen.Draw(g.t, "n")
}

var boolGen = rapid.Bool()

func (g *G) bool() bool { return boolGen.Draw(g.t, "b") }

// u draws a number in [0,k) with equal odds.
func (g *G) u(k int) int {
	if k <= 1 {
		return 0
	}
	for try := 0; ; try++ {
		v := 0
		for m := 1; m < k; m <<= 1 {
			v <<= 1
			if g.bool() {
				v |= 1
			}
		}
		if v < k {
			return v
		}
		if try > 20 {
			return v % k
		}
	}
}

// one in k
func (g *G) in(k int) bool { return g.n(k) == k-1 }

func pick[T any](g *G, l []T) T { return l[g.u(len(l))] }

func (g *G) span(lo, hi int) int { return lo + g.n(hi-lo+1) }

// ---- texts ----

var textPieces = []string{
	"a", "b", "Z", "0", " ", "é", "世", "😀", "n", "N", "T",
	"\\", ",", ";", ":", "\"", "^", "'", "=", "\n", "\t", "/", "%", "&", "-", "+", "@", "|", "<", "{",
	"\\n", "\\N", "\\\\", "\\,", "\\;", "\\x", "^n", "^^", "^'", "^x", "\n\n", "\\\n", " \n ", "\n ", "\n\t", "  ", ";X=Y:z", "\nBEGIN:VEVENT\n", "END:VCALENDAR",
	"\u2028", "\u00a0", "\ufeff", "\ufffd", "\U0010ffff", "e\u0301", "\u200d", "\u00df", "\u0131", "\u0130", "\ud7ff", "\ue000", "\ufdfa", "\ufb00",
	"~", "!", "#", "$", "*", "(", ")", "[", "]", "`", "?", ".", "_",
}

func (g *G) text(max int) string {
	var b strings.Builder
	switch g.n(6) {
	case 0:
		return pick(g, []string{"x", "", "Meeting", "a,b;c", "line one\nline two", "\\", "\"quoted\"", "^"})
	case 1, 2, 3: // short, from the interesting pieces
		for k := g.span(1, 8); k > 0; k-- {
			b.WriteString(pick(g, textPieces))
		}
	case 4: // arbitrary characters
		for k := g.span(1, 12); k > 0; k-- {
			b.WriteRune(g.char())
		}
	case 5: // long
		if max < 40 || g.Small {
			return "long"
		}
		p := pick(g, []string{"abcdefghij", "é", "世界", "😀", "ab😀,", "x;\\", " ", "word ", "\n", "\t"})
		k := g.span(1, max/len(p))
		b.WriteString(strings.Repeat(p, k))
		b.WriteString(pick(g, textPieces))
	}
	return b.String()
}

// char draws any character that is not a control character.
func (g *G) char() rune {
	for {
		var r rune
		switch g.n(5) {
		case 0:
			r = rune(g.span(0x20, 0x7e))
		case 1:
			r = rune(g.span(0xa0, 0x7ff))
		case 2:
			r = rune(g.span(0x800, 0xffff))
		case 3:
			r = rune(g.span(0x10000, 0x10ffff))
		case 4:
			r = pick(g, []rune{'\t', '\n', '\\', ',', ';', ':', '"', '^'})
		}
		if r >= 0xd800 && r <= 0xdfff {
			r = 0x4e00
		}
		return r
	}
}

// ---- URIs ----

var uriSamples = []string{
	"http://example.com/", "https://user@example.com:8080/a/b?c=d&e=f#frag", "mailto:jane@example.com", "MAILTO:Jane_Doe@Example.COM",
	"urn:uuid:550e8400-e29b-41d4-a716-446655440000", "cid:part3.msg.970415T083000@example.com", "data:text/plain;base64,SGVsbG8=",
	"ftp://example.com/pub/sounds/bell-01.aud", "CID:jsmith.part3.960817T083000.xyzMail@example.com", "file:///a/b", "http://[2001:db8::1]:80/x",
	"relative/path", "/absolute/path", "//host/path", "?query", "#frag", "http://example.com/%7Euser/%20x%2Fy", "ldap://example.com:6666/o=ABC%20Industries,c=US???(cn=Jim%20Dolittle)",
	"mailto:\"a;b,c:d\"@example.com", "tel:+1-201-555-0123", "sip:alice@atlanta.com;transport=tcp", "x:^n^^^'", "mailto:a^b@x", "http://example.com/;p=1,2:3", "geo:37.386013,-122.082932;u=1",
	"http://example.com/?q=\"x\"", "http://example.com/?a=^n", "http://example.com/%22quoted%22", "http://example.com/é", "http://example.com/?é=世", "mailto:é@x", "http://u:p@h/", "a:b c",
}

func (g *G) uri() string {
	for try := 0; try < 20; try++ {
		var s string
		switch g.n(4) {
		case 0, 1:
			s = pick(g, uriSamples)
		case 2:
			s = pick(g, []string{"http://example.com/", "mailto:", "urn:x:", "https://h/?", "http://h/#", "x-s:", ""})
			for k := g.span(1, 6); k > 0; k-- {
				s += pick(g, textPieces)
			}
		case 3:
			s = pick(g, []string{"http", "https", "ftp", "x+y.z-1"}) + "://"
			if g.in(3) {
				s += "user" + pick(g, []string{"", ":pw", ":p%40w"}) + "@"
			}
			s += pick(g, []string{"example.com", "127.0.0.1", "[::1]", "EXAMPLE.org", "a.b.c", "xn--bcher-kva.ch"}) + pick(g, []string{"", ":80", ":"}) + "/"
			for k := g.n(4); k > 0; k-- {
				s += pick(g, []string{"a", "b%20c", "..", ";v=1", "x,y", "%C3%A9", "'q'", "(p)", "*"}) + "/"
			}
			if g.in(4) {
				s += strings.Repeat("long/", g.span(1, 40))
			}
			s += pick(g, []string{"", "?a=b", "?", "?x;y,z:w", "?a=%22"}) + pick(g, []string{"", "#f", "#a%20b"})
		}
		if t := stableURI(s); t != "" {
			return t
		}
	}
	return "http://example.com/"
}

// stableURI gives the form of a URI that the standard parser reads and writes
// unchanged, or nothing.
func stableURI(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] == 0x7f {
			return ""
		}
	}
	u, err := url.Parse(s)
	if err != nil {
		return ""
	}
	s = u.String()
	v, err := url.Parse(s)
	if err != nil || v.String() != s {
		return ""
	}
	return s
}

// ---- times ----

var zoneNames = []string{
	"America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/Argentina/Buenos_Aires",
	"Etc/GMT+5", "EST5EDT", "GMT", "Asia/Tokyo", "Africa/Cairo", "America/North_Dakota/New_Salem", "Etc/UTC", "Europe/Dublin", "Asia/Kathmandu", "Antarctica/Troll",
}

const (
	zUTC = 1 << iota
	zLocal
	zNamed
	zFixed // unnamed fixed offset
)

func (g *G) wall() (y, mo, d, h, mi, s int) {
	switch g.n(4) {
	case 0, 1:
		y = g.span(1970, 2037)
	case 2:
		y = g.span(0, 9999)
	case 3:
		y = pick(g, []int{0, 1, 9999, 1600, 1900, 2000, 2024, 2100, 999, 99, 2038, 1883, 1582})
	}
	mo, d, h, mi, s = 1+g.n(12), 1+g.n(31), g.n(24), g.n(60), g.n(60)
	if g.in(4) {
		h, mi, s = pick(g, []int{0, 23}), pick(g, []int{0, 59}), pick(g, []int{0, 59})
	}
	if g.in(6) {
		mo, d = pick(g, []int{1, 2, 12}), pick(g, []int{1, 28, 29, 31})
	}
	if max := daysIn(y, mo); d > max {
		d = max
	}
	return
}

func daysIn(y, m int) int { return time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day() }

// settle makes the wall clock fields those that the zone really has.
func settle(t *Tm) *Tm {
	g := t.Time()
	y, mo, d := g.Date()
	h, mi, s := g.Clock()
	r := *t
	r.Y, r.Mo, r.D, r.H, r.Mi, r.S = y, int(mo), d, h, mi, s
	if g.IsZero() || y < 0 || y > 9999 {
		r.Y = 2001
		return settle(&r)
	}
	if !r.Time().Equal(g) && r.Zone != "UTC" {
		// ambiguous or skipped local time
		r.Mo, r.D, r.H = 1, 15, 12
	}
	return &r
}

func (g *G) tm(zones int) *Tm {
	t := &Tm{}
	t.Y, t.Mo, t.D, t.H, t.Mi, t.S = g.wall()
	var opts []int
	for _, z := range []int{zUTC, zLocal, zNamed, zFixed} {
		if zones&z != 0 {
			opts = append(opts, z)
		}
	}
	switch opts[g.n(len(opts))] {
	case zUTC:
		t.Zone = "UTC"
	case zLocal:
		t.Zone = "Local"
	case zNamed:
		t.Zone = pick(g, zoneNames)
		if g.in(3) {
			t.Zone = pick(g, moreZones)
		}
	case zFixed:
		t.Zone = "fixed:"
		t.Off = pick(g, []int{0, 3600, -3600, 19800, -12600, 50400, -43200, 1, -1, 3661})
		if t.Y < 2 {
			t.Y = 2
		} else if t.Y > 9998 {
			t.Y = 9998
		}
	}
	if g.Loose && g.in(6) {
		t.Ns = pick(g, []int{1, 500000000, 999999999})
	}
	return settle(t)
}

func (g *G) zones() int {
	if g.Loose {
		return zUTC | zLocal | zNamed | zFixed
	}
	return zUTC | zLocal | zNamed
}

// after draws a time in the same zone strictly later by at least a second.
func (g *G) after(t *Tm) *Tm {
	for try := 0; try < 8; try++ {
		e := *t
		switch g.n(4) {
		case 0:
			e.S++
		case 1:
			e.D += g.span(1, 60)
		case 2:
			e.Y += g.span(1, 30)
		case 3:
			e.H += g.span(1, 30)
		}
		n := settle(&e)
		if n.Time().Sub(t.Time()) >= time.Second && n.Y <= 9999 {
			return n
		}
	}
	e := *t
	if e.Y < 9000 {
		e.Y += 2
	} else {
		t.Y -= 100
	}
	n := settle(&e)
	*t = *settle(t)
	return n
}

func (g *G) uintVal() uint {
	switch g.n(5) {
	case 0, 1:
		return uint(g.n(10))
	case 2:
		return uint(g.n(400))
	case 3:
		return uint(g.n(100000))
	}
	return pick(g, []uint{1, 10, 59, 60, 23, 24, 99, 100, 4294967295, 4294967296, 9223372036854775807, 18446744073709551615, 18446744073709551610, 1000000000000})
}

func (g *G) dur(signed bool) *Dur {
	d := &Dur{}
	if signed && g.in(3) {
		d.Neg = true
	}
	switch g.n(6) {
	case 0:
		d.W = g.uintVal()
	case 1:
		d.D = g.uintVal()
	case 2:
		switch g.n(3) {
		case 0:
			d.H = g.uintVal()
		case 1:
			d.M = g.uintVal()
		case 2:
			d.S = g.uintVal()
		}
	default:
		m := g.u(16)
		if m&1 != 0 {
			d.D = g.uintVal()
		}
		if m&2 != 0 {
			d.H = g.uintVal()
		}
		if m&4 != 0 {
			d.M = g.uintVal()
		}
		if m&8 != 0 {
			d.S = g.uintVal()
		}
	}
	return d
}

func (g *G) period() Val {
	v := Val{K: kPeriod, T: g.tm(g.zones())}
	if g.bool() {
		v.E = g.after(v.T)
		if g.Loose && g.in(3) {
			v.D = &Dur{H: 3} // ignored
		}
	} else {
		v.D = g.dur(false)
	}
	return v
}

func (g *G) list(f func() int) []int {
	k := 1
	switch g.n(4) {
	case 1:
		k = 2
	case 2:
		k = g.span(1, 5)
	case 3:
		k = g.span(1, 12)
	}
	l := make([]int, k)
	for i := range l {
		l[i] = f()
	}
	return l
}

func (g *G) ranged(lo, hi int) func() int {
	return func() int {
		if g.in(4) {
			return pick(g, []int{lo, hi})
		}
		return g.span(lo, hi)
	}
}

func (g *G) signed(max int) func() int {
	return func() int {
		v := g.ranged(1, max)()
		if g.bool() {
			return -v
		}
		return v
	}
}

func (g *G) big() uint64 {
	switch g.n(4) {
	case 0, 1:
		return uint64(g.span(1, 30))
	case 2:
		return uint64(g.span(1, 1000000))
	}
	return pick(g, []uint64{1, 255, 256, 65536, math.MaxInt32, math.MaxUint32, math.MaxInt64, math.MaxUint64, 10})
}

func (g *G) rec() *Rec {
	r := &Rec{Freq: g.u(7)}
	switch g.n(4) {
	case 1:
		r.Count = g.big()
	case 2:
		r.Until = g.tm(zUTC)
		r.Until.H, r.Until.Mi, r.Until.S = 0, 0, 0
		if g.Loose {
			r.Until = g.tm(g.zones())
		} else if r.Until.Time().IsZero() {
			r.Until.Y = 2
		}
	case 3:
		r.Until, r.UntilTime = g.tm(g.zones()), true
	}
	if g.bool() {
		r.Interval = g.big()
	}
	p := func() bool { return g.n(3) == 2 }
	if p() {
		r.BySecond = g.list(g.ranged(0, 60))
	}
	if p() {
		r.ByMinute = g.list(g.ranged(0, 59))
	}
	if p() {
		r.ByHour = g.list(g.ranged(0, 23))
	}
	if p() {
		for _, d := range g.list(func() int { return g.span(1, 7) }) {
			o := 0
			if g.bool() {
				o = g.signed(53)()
			}
			r.ByDay = append(r.ByDay, [2]int{o, d})
		}
	}
	if p() {
		r.ByMonthDay = g.list(g.signed(31))
	}
	if p() {
		r.ByYearDay = g.list(g.signed(366))
	}
	if p() {
		r.ByWeekNo = g.list(g.signed(53))
	}
	if p() {
		r.ByMonth = g.list(g.ranged(1, 12))
	}
	if p() {
		r.BySetPos = g.list(g.signed(366))
	}
	if p() {
		r.WkSt = 1 + g.u(7)
	}
	return r
}

func (g *G) integer() int64 {
	switch g.n(4) {
	case 0, 1:
		return int64(g.n(10))
	case 2:
		return int64(g.span(-100000, 100000))
	}
	return pick(g, []int64{0, -1, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, 255, 256, 32768, 65536, -128, 100})
}

func (g *G) offset() int64 {
	var v int64
	switch g.n(4) {
	case 0, 1:
		v = int64(g.n(15))*3600 + int64(g.n(4))*900
	case 2:
		v = int64(g.n(360000))
	case 3:
		v = pick(g, []int64{0, 1, 59, 60, 3599, 3600, 359999, 35999, 36000, 86399, 86400})
	}
	if g.bool() {
		return -v
	}
	return v
}

func (g *G) float() Flt {
	switch g.n(5) {
	case 0, 1:
		return Flt(float64(g.span(-180000000, 180000000)) / 1e6)
	case 2:
		return Flt(g.span(-180, 180))
	case 3:
		for {
			f := math.Float64frombits(rapid.Uint64().Draw(g.t, "bits"))
			if finite(f) {
				return Flt(f)
			}
			return 1.5
		}
	}
	return pick(g, []Flt{0, Flt(math.Copysign(0, -1)), 1e-7, -1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 123456789.123456789, 90, -90, 1e21})
}

func (g *G) binary() []byte {
	var n int
	switch g.n(4) {
	case 0:
		n = g.n(4)
	case 1:
		n = g.n(20)
	case 2:
		n = g.span(50, 70)
	case 3:
		n = g.n(300)
	}
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	fill := rapid.Uint64().Draw(g.t, "fill")
	for i := range b {
		fill = fill*6364136223846793005 + 1442695040888963407
		b[i] = byte(fill >> 56)
	}
	if g.in(3) {
		b[g.n(n)] = pick(g, []byte{0, 0xff, '\r', '\n'})
	}
	return b
}

func (g *G) val(def *propDef, k kind) Val {
	v := Val{K: k}
	switch k {
	case kText:
		v.S = Str(g.text(300))
	case kMText:
		n := 1 + g.n(4)
		for i := 0; i < n; i++ {
			v.L = append(v.L, Str(g.text(100)))
		}
		if g.Loose && g.in(8) {
			v.L = nil
		}
	case kURI, kAddr:
		v.S = Str(g.uri())
	case kDate:
		if g.Loose {
			v.T = g.tm(g.zones())
		} else {
			v.T = g.tm(zUTC)
			v.T.H, v.T.Mi, v.T.S = 0, 0, 0
			if v.T.Time().IsZero() {
				v.T.Y = 2
			}
		}
	case kDateTime:
		v.T = g.tm(g.zones())
	case kDuration:
		v.D = g.dur(true)
	case kPeriod:
		v = g.period()
	case kRecur:
		v.R = g.rec()
	case kInteger:
		v.I = g.integer()
	case kOffset:
		v.I = g.offset()
	case kGeo:
		v.F = []Flt{g.float(), g.float()}
	case kBool:
		v.I = int64(g.u(2))
	case kBinary:
		v.B = g.binary()
	case kEnum:
		v.S = Str(pick(g, def.Enum))
	default:
		bad("gen kind %s", k)
	}
	return v
}

var fmtTypes = []string{"text/plain", "application/octet-stream", "image/svg+xml", "application/vnd.ms-word", "audio/basic", "x/y", "a-b/c_d", "text/x-1"}

func (g *G) paramText() string {
	for try := 0; try < 5; try++ {
		if s := g.text(120); s != "" {
			return s
		}
	}
	return "x"
}

func (g *G) param(def *paramDef) Param {
	p := Param{Name: def.Name}
	switch def.Kind {
	case pText, pQText:
		p.Vals = []Str{Str(g.paramText())}
		if g.Loose && g.in(10) {
			p.Vals[0] = ""
		}
	case pQTexts:
		for k := 1 + g.n(3); k > 0; k-- {
			p.Vals = append(p.Vals, Str(g.text(120)))
		}
	case pQURI:
		p.Vals = []Str{Str(g.uri())}
	case pQAddrs:
		for k := 1 + g.n(3); k > 0; k-- {
			p.Vals = append(p.Vals, Str(g.uri()))
		}
	case pFmt:
		p.Vals = []Str{Str(pick(g, fmtTypes))}
	case pEnum:
		k := g.u(len(def.Enum) + 1)
		if k == len(def.Enum) {
			p.Vals = []Str{"UNKNOWN"}
			if !g.Loose && g.bool() {
				p.Vals[0] = Str(pick(g, []string{"X-FOO", "X-UNKNOWN", "OTHER-THING", def.Enum[0] + "X", "X" + def.Enum[0]}))
			}
		} else {
			p.Vals = []Str{Str(def.Enum[k])}
		}
		if g.Loose && g.in(8) {
			r := pick(g, []int{100, 255, len(def.Enum) + 1})
			p.Raw, p.Vals = &r, []Str{"UNKNOWN"}
		}
	case pBool:
		p.Vals = []Str{Str(pick(g, []string{"TRUE", "FALSE"}))}
	case pRange:
		p.Vals = []Str{"THISANDFUTURE"}
	}
	return p
}

// prop draws a property; focus makes all its parameters likely.
func (g *G) prop(comp, name string, focus bool) Prop {
	def := defOf(comp, name)
	p := Prop{Name: name}
	p.Val = g.val(def, def.Kinds[g.u(len(def.Kinds))])
	for _, n := range def.Params {
		if focus && g.bool() || !focus && g.in(4) {
			p.Params = append(p.Params, g.param(paramDefs[n]))
		}
	}
	return p
}

// ---- components ----

func (c *Comp) has(name string) bool { return c.count(name) > 0 }

func (c *Comp) count(name string) int {
	n := 0
	for i := range c.Props {
		if c.Props[i].Name == name {
			n++
		}
	}
	return n
}

func (c *Comp) drop(name string) {
	var o []Prop
	for _, p := range c.Props {
		if p.Name != name {
			o = append(o, p)
		}
	}
	c.Props = o
}

func (c *Comp) hasSub(name string) bool {
	for i := range c.Subs {
		if c.Subs[i].Name == name {
			return true
		}
	}
	return false
}

func cardOf(comp, prop string) card {
	for _, u := range compDefs[comp].Props {
		if u.Name == prop {
			return u.Card
		}
	}
	bad("no %s in %s", prop, comp)
	return 0
}

// component draws a valid component. The focused property is always there.
func (g *G) component(name, focus string, density, depth int) Comp {
	def := compDefs[name]
	c := Comp{Name: name}
	for _, u := range def.Props {
		k := 0
		switch {
		case u.Card == one:
			k = 1
		case u.Name == focus:
			k = 1
			if u.Card == many {
				k = g.span(1, 3)
			}
		case g.in(density):
			k = 1
			if u.Card == many {
				k = g.span(1, 3)
			}
		}
		for ; k > 0; k-- {
			c.Props = append(c.Props, g.prop(name, u.Name, u.Name == focus))
		}
	}
	for _, s := range def.Subs {
		k := 0
		if depth > 0 && g.in(3) {
			k = g.span(1, 2)
		}
		for ; k > 0; k-- {
			n := s
			if s == "VALARM" {
				n = "VALARM:" + pick(g, alarmKinds)
			}
			c.Subs = append(c.Subs, g.component(n, "", density+2, depth-1))
		}
	}
	g.repair(&c, focus)
	return c
}

// repair makes a component obey the rules tying properties together.
func (g *G) repair(c *Comp, focus string) {
	if isAlarm(c.Name) && c.Name != "VALARM:NONE" && c.has("DURATION") != c.has("REPEAT") {
		if focus == "REPEAT" || focus != "DURATION" && c.has("REPEAT") {
			c.Props = append(c.Props, g.prop(c.Name, "DURATION", false))
		} else {
			c.Props = append(c.Props, g.prop(c.Name, "REPEAT", false))
		}
	}
	for _, r := range rules {
		if r.Comp != c.Name {
			continue
		}
		switch r.Kind {
		case "excl":
			if c.has(r.A) && c.has(r.B) {
				if r.A == focus || r.B != focus && g.bool() {
					c.drop(r.B)
				} else {
					c.drop(r.A)
				}
			}
		case "needs":
			if c.has(r.A) && !c.has(r.B) {
				c.Props = append(c.Props, g.prop(c.Name, r.B, false))
			}
		case "oneof":
			if !c.hasSub(r.A) && !c.hasSub(r.B) {
				c.Subs = append(c.Subs, g.component(pick(g, []string{r.A, r.B}), "", 4, 0))
			}
		}
	}
}

// calendar draws a valid calendar holding the focused component with the
// focused property.
func (g *G) calendar(comp, prop string, extra bool) *Comp {
	root := Comp{Name: "VCALENDAR"}
	for _, n := range []string{"VERSION", "PRODID"} {
		root.Props = append(root.Props, g.prop("VCALENDAR", n, n == prop))
	}
	density := pick(g, []int{2, 4, 8})
	if !extra {
		density = 12
	}
	if comp != "" && comp != "VCALENDAR" {
		c := g.component(comp, prop, density, 1)
		for c.Name != "VCALENDAR" {
			pn := compDefs[c.Name].Parent
			if pn == "VALARM" {
				pn = pick(g, []string{"VEVENT", "VTODO"})
			}
			if pn == "VCALENDAR" {
				root.Subs = append(root.Subs, c)
				break
			}
			p := g.component(pn, "", 12, 0)
			// place the focused component at a random place among its siblings
			at := g.n(len(p.Subs) + 1)
			p.Subs = append(p.Subs[:at:at], append([]Comp{c}, p.Subs[at:]...)...)
			c = p
		}
	}
	if extra {
		for k := g.n(3); k > 0; k-- {
			n := pick(g, compDefs["VCALENDAR"].Subs)
			c := g.component(n, "", 6, 1)
			if g.bool() {
				root.Subs = append([]Comp{c}, root.Subs...)
			} else {
				root.Subs = append(root.Subs, c)
			}
		}
	}
	if g.in(4) {
		g.echo(&root, pair{comp, prop})
	}
	return &root
}

// ---- sites ----

type pair struct{ Comp, Prop string }

func (p pair) String() string { return p.Comp + "/" + p.Prop }

// allPairs lists every property of every component.
func allPairs() []pair {
	var out []pair
	for _, c := range compList {
		for _, u := range c.Props {
			out = append(out, pair{c.Name, u.Name})
		}
		if len(c.Props) == 0 {
			out = append(out, pair{c.Name, ""})
		}
	}
	return out
}

func pairsWith(f func(d *propDef) bool) []string {
	var out []string
	for _, p := range allPairs() {
		if p.Prop != "" && f(defOf(p.Comp, p.Prop)) {
			out = append(out, p.String())
		}
	}
	return out
}

func hasKind(d *propDef, kinds ...kind) bool {
	for _, k := range kinds {
		for _, x := range d.Kinds {
			if x == k {
				return true
			}
		}
	}
	return false
}

func pairStrings() []string {
	var out []string
	for _, p := range allPairs() {
		out = append(out, p.String())
	}
	return out
}

func parsePair(s string) pair {
	s, _, _ = strings.Cut(s, "|")
	c, p, _ := strings.Cut(s, "/")
	return pair{c, p}
}
