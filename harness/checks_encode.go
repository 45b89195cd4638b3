package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"vimagination.zapto.org/ics"
)

// ---- values that must not be encoded ----

var ctlPieces = []string{"\x00", "\x01", "\x07", "\x08", "\x0b", "\x0c", "\r", "\r\n", "\x0e", "\x1b", "\x1f", "\x7f"}
var brokenUTF8 = []string{"\xff", "\x80", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80"}

// spoil puts a character into a text that it cannot hold.
func (g *G) spoil(s Str) (Str, string) {
	t := string(s)
	at := 0
	if n := len([]rune(t)); n > 0 {
		at = len(string([]rune(t)[:g.n(n+1)]))
	}
	if g.in(4) {
		return Str(t[:at] + pick(g, brokenUTF8) + t[at:]), "broken UTF-8"
	}
	return Str(t[:at] + pick(g, ctlPieces) + t[at:]), "control character"
}

// badURL draws URL parts whose text form holds raw control characters or is
// not UTF-8.
func (g *G) badURL() (RawU, string) {
	x, how := g.spoil(Str(pick(g, []string{"", "abc", "a@b", "x=y&z"})))
	switch g.n(3) {
	case 0:
		return RawU{Scheme: "mailto", Opaque: x}, how + " in opaque part"
	case 1:
		return RawU{Scheme: "http", Host: "example.com", Path: "/", RawQuery: x}, how + " in query"
	}
	return RawU{Scheme: "urn", Opaque: "a:" + x, Fragment: "f"}, how + " in opaque part"
}

func (g *G) badTm(t *Tm) (*Tm, string) {
	n := *t
	if strings.HasPrefix(n.Zone, "fixed:") {
		n.Zone, n.Off = "UTC", 0 // written as an instant, which may fall into another year
	}
	switch g.n(4) {
	case 0:
		return &Tm{Zero: true}, "unset time"
	case 1:
		n.Y = pick(g, []int{10000, 10001, 20000, 99999, 292277})
		return &n, "year beyond 9999"
	case 2:
		n.Y = pick(g, []int{-1, -2, -400, -9999})
		return &n, "year before 0"
	}
	x, how := g.spoil(Str(pick(g, []string{"Zone", "Europe/London", "America/New_York", "UTC", "Local", "Etc/GMT+5", ""})))
	n.Zone, n.Off = "fixed:"+string(x), 3600
	if n.Y < 2 || n.Y > 9998 {
		n.Y = 2000
	}
	return &n, how + " in zone name"
}

// badVal draws a value of the kind that cannot be represented; ok is false if
// the kind has none.
func (g *G) badVal(def *propDef, k kind) (v Val, how string, ok bool) {
	v, ok = g.val(def, k), true
	switch k {
	case kText:
		v.S, how = g.spoil(v.S)
	case kMText:
		if len(v.L) == 0 {
			v.L = []Str{"a"}
		}
		i := g.u(len(v.L))
		v.L[i], how = g.spoil(v.L[i])
	case kURI, kAddr:
		var u RawU
		u, how = g.badURL()
		v.S, v.U = "", &u
	case kDate:
		for {
			v.T, how = g.badTm(v.T)
			if !strings.Contains(how, "zone") { // a date has no zone
				break
			}
			v.T = &Tm{Y: 2001, Mo: 1, D: 1, Zone: "UTC"}
		}
	case kDateTime:
		v.T, how = g.badTm(v.T)
	case kDuration:
		v.D, how = g.mixedDur(), "weeks mixed with other units"
	case kPeriod:
		v.T = g.tm(zUTC | zLocal | zNamed)
		v.T.Ns = 0
		v.E, v.D = nil, nil
		end := *v.T
		switch g.n(7) {
		case 0:
			v.T, how = g.badTm(v.T)
			v.D = &Dur{H: 1}
			how = "start: " + how
		case 1:
			v.E, how = &end, "end equals start"
		case 2:
			if end.Y < 100 {
				end.Y += 100
				v.T.Y = end.Y
			}
			switch g.n(3) {
			case 0:
				end.S--
			case 1:
				end.D -= g.span(1, 40)
			case 2:
				end.Y -= g.span(1, 40)
			}
			v.E, how = settle(&end), "end before start"
			if !v.E.Time().Before(settle(v.T).Time()) {
				v.E = v.T
			}
			v.T = settle(v.T)
		case 3:
			v.D, how = g.dur(false), "negative length"
			v.D.Neg = true
			if *v.D == (Dur{Neg: true}) {
				v.D.S = 1
			}
		case 4:
			v.D, how = g.mixedDur(), "length mixing weeks"
			v.D.Neg = false
		case 5:
			v.T.Y, v.T.Zone, v.T.Off = 2000, "UTC", 0
			v.E = &Tm{Y: 2000 + g.span(1, 9), Mo: 1, D: 1, Zone: pick(g, []string{"Local", "Europe/London", "Asia/Tokyo"})}
			if g.bool() {
				v.T.Zone = "America/New_York"
			}
			how = "ends in different zones"
			if v.E.Zone == "Local" && time.Local.String() == v.T.Zone {
				v.E.Zone = "Asia/Tokyo"
			}
		case 6:
			v.T.Y = 9000
			v.T = settle(v.T)
			end = *v.T
			end.Y = pick(g, []int{10000, 12000})
			v.E, how = &end, "end beyond year 9999"
		}
	case kRecur:
		how = g.badRec(v.R)
	case kGeo:
		v.F[g.u(2)] = Flt(pick(g, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}))
		how = "non-finite coordinate"
	case kOffset:
		v.I = pick(g, []int64{360000, 360001, 400000, 3600000, math.MaxInt32, math.MaxInt64})
		if g.bool() {
			v.I = -v.I
			if g.in(3) {
				v.I = math.MinInt64
			}
		}
		how = "offset of a hundred hours or more"
	case kEnum:
		max := 0
		for i := range def.Enum {
			if c := int(enumConst(def.Name, i)); c > max {
				max = c
			}
		}
		v.Bad, v.S = "range", ""
		v.I = int64(pick(g, []int{max + 1, max + 2, 100, 127, 128, 200, 254, 255}))
		how = "constant out of range"
	default:
		return v, "", false
	}
	return v, how, true
}

func (g *G) mixedDur() *Dur {
	d := &Dur{Neg: g.bool(), W: uint(g.span(1, 60))}
	x := uint(g.span(1, 100))
	switch g.u(4) {
	case 0:
		d.D = x
	case 1:
		d.H = x
	case 2:
		d.M = x
	case 3:
		d.S = x
	}
	return d
}

func (g *G) badRec(r *Rec) string {
	at := func(l []int, v int) []int {
		i := g.n(len(l) + 1)
		return append(append(append([]int(nil), l[:i]...), v), l[i:]...)
	}
	days := func(o, d int) {
		i := g.n(len(r.ByDay) + 1)
		r.ByDay = append(append(append([][2]int(nil), r.ByDay[:i]...), [2]int{o, d}), r.ByDay[i:]...)
	}
	switch g.u(16) {
	case 0:
		r.Freq = pick(g, []int{7, 8, 100, 255})
		return "frequency out of range"
	case 1:
		r.Until, r.Count, r.UntilTime = &Tm{Y: 2001, Mo: 1, D: 1, Zone: "UTC"}, g.big(), g.bool()
		return "count and until"
	case 2:
		r.Count, r.UntilTime = 0, g.bool()
		r.Until = &Tm{Y: pick(g, []int{10000, 20000, -1}), Mo: 1, D: 1, Zone: "UTC"}
		return "until outside the years"
	case 3:
		r.BySecond = at(r.BySecond, pick(g, []int{61, 62, 100, 255}))
		return "BYSECOND out of range"
	case 4:
		r.ByMinute = at(r.ByMinute, pick(g, []int{60, 61, 100, 255}))
		return "BYMINUTE out of range"
	case 5:
		r.ByHour = at(r.ByHour, pick(g, []int{24, 25, 100, 255}))
		return "BYHOUR out of range"
	case 6:
		days(g.n(3), pick(g, []int{0, 8, 9, 255}))
		return "BYDAY day out of range"
	case 7:
		days(pick(g, []int{54, -54, 100, -100, 127, -128}), 1+g.u(7))
		return "BYDAY occurrence out of range"
	case 8:
		r.ByMonthDay = at(r.ByMonthDay, pick(g, []int{32, -32, 127, -128}))
		return "BYMONTHDAY out of range"
	case 9:
		r.ByYearDay = at(r.ByYearDay, pick(g, []int{367, -367, 1000, -32768, 32767}))
		return "BYYEARDAY out of range"
	case 10:
		r.ByWeekNo = at(r.ByWeekNo, pick(g, []int{54, -54, 127, -128}))
		return "BYWEEKNO out of range"
	case 11:
		r.ByMonth = at(r.ByMonth, pick(g, []int{0, 13, 14, 255}))
		return "BYMONTH out of range"
	case 12:
		r.BySetPos = at(r.BySetPos, pick(g, []int{367, -367, 1000, -32768, 32767}))
		return "BYSETPOS out of range"
	case 13:
		r.WkSt = pick(g, []int{8, 9, 100, 255})
		return "WKST out of range"
	case 14:
		switch g.u(4) {
		case 0:
			r.ByMonthDay = at(r.ByMonthDay, 0)
		case 1:
			r.ByYearDay = at(r.ByYearDay, 0)
		case 2:
			r.ByWeekNo = at(r.ByWeekNo, 0)
		case 3:
			r.BySetPos = at(r.BySetPos, 0)
		}
		return "zero in a list"
	}
	r.Until, r.Count, r.UntilTime = &Tm{Y: 2001, Mo: 1, D: 1, Zone: "fixed:a\x01b", Off: 60}, 0, true
	return "control character in zone of until"
}

// badParamVal spoils a parameter value.
func (g *G) badParamVal(def *paramDef) (p Param, how string, ok bool) {
	p = g.param(def)
	switch def.Kind {
	case pText, pQText:
		p.Vals[0], how = g.spoil(p.Vals[0])
	case pQTexts:
		i := g.u(len(p.Vals))
		p.Vals[i], how = g.spoil(p.Vals[i])
	case pFmt:
		how = "bad media type"
		p.Vals[0] = Str(pick(g, []string{"text", "x", "plain text", "text.plain"}))
		if g.bool() {
			p.Vals[0], how = g.spoil(p.Vals[0])
		}
	case pQURI, pQAddrs:
		var u RawU
		u, how = g.badURL()
		p.URLs = []RawU{u}
		if def.Kind == pQURI {
			p.Vals = nil
		}
	default:
		return p, "", false
	}
	return p, how, true
}

func c09Sites() []string {
	var out []string
	for _, p := range allPairs() {
		if p.Prop == "" {
			continue
		}
		def := defOf(p.Comp, p.Prop)
		for _, k := range def.Kinds {
			switch k {
			case kInteger, kBool, kBinary:
			default:
				out = append(out, p.String()+"|value "+string(k))
			}
		}
		for _, n := range def.Params {
			switch paramDefs[n].Kind {
			case pEnum, pBool, pRange:
			default:
				out = append(out, p.String()+"|param "+n)
			}
		}
		if len(def.Kinds) > 1 {
			out = append(out, p.String()+"|union")
		}
	}
	for i, r := range rules {
		out = append(out, fmt.Sprintf("%s/|rule %d", r.Comp, i))
	}
	for _, k := range alarmKinds {
		out = append(out, "VALARM:"+k+"/|nil", "VALARM:"+k+"/|foreign")
	}
	return out
}

// plant puts something invalid into the model. It says what, or nothing if
// the place admits nothing invalid.
func (g *G) plant(m *Comp, p pair, how string) string {
	cs := findComp(m, p.Comp)
	var with []*Comp
	for _, c := range cs {
		if p.Prop == "" || c.has(p.Prop) {
			with = append(with, c)
		}
	}
	if len(with) == 0 {
		return ""
	}
	c := with[g.u(len(with))]
	what, arg, _ := strings.Cut(how, " ")
	var prop *Prop
	if p.Prop != "" {
		k := g.u(c.count(p.Prop))
		for i := range c.Props {
			if c.Props[i].Name == p.Prop {
				if k == 0 {
					prop = &c.Props[i]
					break
				}
				k--
			}
		}
	}
	switch what {
	case "value":
		v, made, ok := g.badVal(defOf(p.Comp, p.Prop), kind(arg))
		if !ok {
			return ""
		}
		prop.Val = v
		return made
	case "param":
		q, made, ok := g.badParamVal(paramDefs[arg])
		if !ok {
			return ""
		}
		var keep []Param
		for _, x := range prop.Params {
			if x.Name != arg {
				keep = append(keep, x)
			}
		}
		at := g.n(len(keep) + 1)
		prop.Params = append(keep[:at:at], append([]Param{q}, keep[at:]...)...)
		return made + " in " + arg
	case "union":
		def := defOf(p.Comp, p.Prop)
		mask := g.u(1 << len(def.Kinds))
		b, n := "set ", 0
		for i, k := range def.Kinds {
			if mask&(1<<i) != 0 {
				b += "<" + string(k) + ">"
				n++
			}
		}
		if n == 1 {
			b = "set "
		}
		prop.Val = Val{K: def.Kinds[0], Bad: b}
		return "choice of value: " + b
	case "rule":
		var n int
		fmt.Sscan(arg, &n)
		g.breakRule(c, rules[n])
		return "rule " + rules[n].Kind + " " + rules[n].A + " " + rules[n].B
	case "nil", "foreign":
		c.Bad = what + "-alarm"
		return what + " alarm"
	}
	bad("plant %q", how)
	return ""
}

func genInvalid(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	g.Loose = g.in(3)
	m := g.calendar(p.Comp, p.Prop, g.bool())
	if g.in(5) {
		g.pad(m, p)
	}
	b := cloneComp(m)
	made := g.plant(b, p, how)
	if made == "" {
		bad("nothing invalid for %s", site)
	}
	return &Case{Model: b, Models: []*Comp{m}, Note: made}
}

func runInvalid(c *Case, o *obs) string {
	cal := build(c.Models[0])
	if _, err, fail := encode(cal); err != nil || fail != "" {
		o.label("no baseline")
		return ""
	}
	o.Nontrivial = true
	o.label("invalid: " + c.Note)
	if fail := mustRefuse(build(c.Model)); fail != "" {
		return fail
	}
	// nor may one that was valid when it was last encoded
	encode(cal)
	fill(reflect.ValueOf(cal).Elem(), reflect.ValueOf(build(c.Model)).Elem())
	if fail := mustRefuse(cal); fail != "" {
		return "made invalid after it was encoded: " + fail
	}
	return ""
}

// ---- C10 ----

var oddZones = []string{"My Zone", "A\"B", "a;b", "a:b", "a,b", "x\ny", "é", "^n", "^", "^^n", " ", "UTC+3", "a\tb", "Zone;X=y", "Z\nBEGIN:VEVENT", "\"", "...", "'", "=", "%", "世界/東京", "a\\nb"}
var oddTexts = []string{"\u0080", "\u009f", "\u0085", "￾", "￿", "​", "‮", "\r", "\x00", "\x1b[0m", "\x7f", "\xff", "a\xc3", "\r\nX-A:b", "\n", "\"", "^", "\\", ":", ";", ",", "", "\t", " ", "\r\n ", "x\r\n y", "�", "\U000e0001"}
var oddURLs = []RawU{
	{Scheme: "mailto", Opaque: "a b"}, {Scheme: "mailto", Opaque: "\"x\""}, {Scheme: "mailto", Opaque: "a;b:c,d"}, {Scheme: "x", Opaque: "^n^^"}, {Opaque: "opaque"}, {Path: "rel ative"}, {Path: "a:b"}, {Path: "//x"}, {Host: "h"}, {Scheme: "http", Host: "h o", Path: "/"},
	{Scheme: "http", Host: "h", Path: "no slash"}, {Scheme: "http", Host: "[::1]", Path: "/%"}, {Scheme: "http", Host: "h", Path: "/a b", RawPath: "/a%20b"}, {Scheme: "http", Host: "h", Path: "/x", RawPath: "/%78"}, {Scheme: "http", Host: "h", RawQuery: "a\"b"}, {Scheme: "http", Host: "h", RawQuery: "é^'"}, {Scheme: "http", Host: "h", Fragment: "a\"b\nc"},
	{Scheme: "http", User: "u:p@q", Host: "h"}, {Scheme: "1bad", Host: "h"}, {Scheme: "ht tp", Host: "h"}, {Scheme: "http", Host: "h:port"}, {Scheme: "http", Host: "h\r\nX:y"}, {Scheme: "x", Opaque: "\r\nX:y"}, {Scheme: "x", Opaque: "%zz"}, {Scheme: "http", Host: "%41"}, {Fragment: "only"}, {RawQuery: "only"}, {}, {Scheme: "HTTP", Host: "H"}, {Scheme: "x"}, {Scheme: "x", Path: "y"}, {Scheme: "x", Opaque: "\xff"},
	{Scheme: "http", Host: "h", RawQuery: "a b"}, {Scheme: "http", Host: "h", RawQuery: "\t"}, {Scheme: "mailto", Opaque: "\n"}, {Scheme: "http", Host: "é"}, {Scheme: "é", Host: "h"}, {Path: "\r\n"}, {Path: "%"}, {Path: "a#b?c"}, {Scheme: "x", Opaque: "#?"}, {Scheme: "x", Opaque: "//h"},
}

// odd makes a property strange, valid or not.
func (g *G) odd(c *Comp, p *Prop, zones, edge bool) string {
	def := defOf(c.Name, p.Name)
	text := func(s Str) Str {
		t := string(s)
		at := g.n(len(t) + 1)
		return Str(t[:at] + pick(g, oddTexts) + t[at:])
	}
	if len(def.Params) > 0 && !edge && g.bool() {
		pd := paramDefs[pick(g, def.Params)]
		q := g.param(pd)
		switch pd.Kind {
		case pText, pQText, pFmt:
			q.Vals[0] = text(q.Vals[0])
		case pQTexts:
			i := g.u(len(q.Vals))
			q.Vals[i] = text(q.Vals[i])
		case pQURI:
			q.Vals, q.URLs = nil, []RawU{pick(g, oddURLs)}
		case pQAddrs:
			q.URLs = []RawU{pick(g, oddURLs), pick(g, oddURLs)}
		case pEnum:
			r := g.n(256)
			q.Raw = &r
		}
		var keep []Param
		for _, x := range p.Params {
			if x.Name != pd.Name {
				keep = append(keep, x)
			}
		}
		p.Params = append(keep, q)
		return "odd " + pd.Name
	}
	oddTm := func(t *Tm) *Tm {
		n := *t
		if edge || g.in(5) {
			// the first and last moments that four digits can say, there or elsewhere
			e := pick(g, [][6]int{{10000, 1, 1, 0, 0, 0}, {9999, 12, 31, 23, 59, 59}, {0, 1, 1, 0, 0, 0}, {-1, 12, 31, 23, 59, 59}, {1, 1, 1, 0, 0, 0}})
			n = Tm{Y: e[0], Mo: e[1], D: e[2], H: e[3], Mi: e[4], S: e[5], Zone: "UTC"}
			switch g.n(5) {
			case 1, 2, 3:
				n.Zone, n.Off = "fixed:", pick(g, []int{1, -1, 3600, -3600, 50400, -43200, 86399, -86399})
			case 4:
				n.Zone = pick(g, []string{"Local", "Asia/Tokyo", "America/New_York"})
			}
			if g.in(3) {
				n.S += pick(g, []int{1, -1, n.Off, -n.Off})
			}
			return &n
		}
		switch g.n(4) {
		case 0:
			if zones {
				z := pick(g, oddZones)
				if g.bool() {
					// a known name with something in it
					x := pick(g, []string{"Europe/London", "America/New_York", "Asia/Tokyo", "UTC", "Local", "Z", "GMT"})
					at := g.n(len(x) + 1)
					if z = x[:at] + pick(g, oddTexts) + x[at:]; z == x {
						z += "!"
					}
				}
				n.Zone, n.Off = "fixed:"+z, pick(g, []int{0, 3600, -3600, 20000})
			}
		case 1:
			n.Y = pick(g, []int{-1, 0, 1, 9999, 10000, 100000, -10000})
		case 2:
			n.Zone, n.Off = "fixed:", pick(g, []int{86399, -86399, 1, 50400})
			n.Y = pick(g, []int{0, 9999, 1, 2000, 10000, -1})
			n.Mo, n.D = pick(g, []int{1, 12}), pick(g, []int{1, 31})
		case 3:
			n.H, n.Mi, n.S, n.Ns = g.n(60), g.n(100), g.n(100), pick(g, []int{0, 999999999})
		}
		return &n
	}
	v := &p.Val
	switch v.K {
	case kText:
		v.S = text(v.S)
	case kMText:
		switch g.n(3) {
		case 0:
			v.L = nil
		case 1:
			v.L = []Str{"", ""}
		}
		v.L = append(v.L, text("a"))
	case kURI, kAddr:
		u := pick(g, oddURLs)
		v.S, v.U = "", &u
	case kDate, kDateTime:
		v.T = oddTm(v.T)
	case kDuration:
		v.D = &Dur{Neg: g.bool(), W: uint(g.n(3)), D: uint(g.n(3)), H: uint(g.n(3)), M: uint(g.n(3)), S: uint(g.n(3))}
	case kPeriod:
		v.T = oddTm(v.T)
		if v.E != nil && g.bool() {
			v.E = oddTm(v.E)
		} else {
			v.E = nil
			v.D = &Dur{Neg: g.in(4), W: uint(g.n(3)), D: uint(g.n(2)), H: uint(g.n(2)), S: uint(g.n(2))}
		}
	case kRecur:
		r := *v.R
		v.R = &r
		how := g.n(4)
		if edge {
			how = 3
		}
		switch how {
		case 0:
			r.ByDay = append(r.ByDay, [2]int{g.span(-128, 127), g.n(10)})
		case 1:
			r.BySecond, r.ByMonth = append(r.BySecond, g.n(256)), append(r.ByMonth, g.n(256))
		case 2:
			r.BySetPos, r.ByWeekNo = append(r.BySetPos, g.span(-400, 400)), append(r.ByWeekNo, g.span(-128, 127))
		case 3:
			r.Until, r.UntilTime = oddTm(&Tm{Y: 2001, Mo: 2, D: 3, Zone: "UTC"}), g.bool()
			r.Count = uint64(g.n(2))
		}
	case kGeo:
		v.F = []Flt{Flt(pick(g, []float64{math.NaN(), math.Inf(1), math.Copysign(0, -1), 5e-324, 1e308, 1e-9})), g.float()}
	case kOffset:
		v.I = pick(g, []int64{math.MaxInt64, math.MinInt64, 359999, 360000, -359999, -360000, -1, 59, 0})
	case kEnum:
		v.Bad, v.S, v.I = "range", "", int64(g.n(256))
	default:
		return ""
	}
	return "odd " + string(v.K)
}

func genWild(g *G, site string) *Case {
	p := parsePair(site)
	zones, edge := strings.HasSuffix(site, "|zones"), strings.HasSuffix(site, "|edge")
	g.Loose = true
	m := g.calendar(p.Comp, p.Prop, g.in(3))
	if g.in(8) {
		g.pad(m, p)
	}
	c := &Case{Model: m}
	for n := g.n(4); n >= 0; n-- {
		// usually the focused property, sometimes another
		var all []*Comp
		for _, d := range compList {
			all = append(all, findComp(m, d.Name)...)
		}
		if g.in(3) {
			x := all[g.u(len(all))]
			if len(x.Props) > 0 {
				c.Note += g.odd(x, &x.Props[g.u(len(x.Props))], zones, edge) + "; "
			}
			continue
		}
		for _, x := range findComp(m, p.Comp) {
			for i := range x.Props {
				if x.Props[i].Name == p.Prop && g.bool() {
					c.Note += g.odd(x, &x.Props[i], zones, edge) + "; "
				}
			}
		}
	}
	if g.in(6) {
		var r []string
		for i, x := range rules {
			if len(findComp(m, x.Comp)) > 0 {
				r = append(r, fmt.Sprint(i))
			}
		}
		if len(r) > 0 {
			n := pick(g, r)
			var i int
			fmt.Sscan(n, &i)
			c.Note += g.plant(m, pair{rules[i].Comp, ""}, "rule "+n)
		}
	}
	return c
}

// zonesKnown reports whether every zone of the calendar can be loaded by name.
func zonesKnown(c *Comp) bool {
	ok := func(t *Tm) bool {
		return t == nil || t.Zero || !strings.HasPrefix(t.Zone, "fixed:") || t.Zone == "fixed:"
	}
	for i := range c.Props {
		v := &c.Props[i].Val
		if v.K == kDate {
			continue
		}
		if !ok(v.T) || !ok(v.E) || v.R != nil && v.R.UntilTime && !ok(v.R.Until) {
			return false
		}
	}
	for i := range c.Subs {
		if !zonesKnown(&c.Subs[i]) {
			return false
		}
	}
	return true
}

func runWild(c *Case, o *obs) string {
	cal := build(c.Model)
	var w countWriter
	var err error
	if fail := guard("Encode", func() { err = ics.Encode(&w, cal) }); fail != "" {
		return fail
	}
	o.Nontrivial = c.Note != ""
	if err != nil {
		o.label("refused")
		if w.Len() > 0 {
			return fmt.Sprintf("Encode failed with %v but wrote %d octets", err, w.Len())
		}
		return ""
	}
	o.label("accepted")
	x := extract(cal)
	want := canon(x)
	doc := w.String()
	lenientZones = true
	r, err := readDoc(doc)
	lenientZones = false
	if err != nil {
		return "encoded text is not well-formed: " + err.Error()
	}
	if got := canon(r); got != want {
		return "encoded text says something else: " + diff(want, got)
	}
	if !zonesKnown(x) {
		o.label("zone unknown to the system")
		return ""
	}
	if fail := decodeTo(doc, want); fail != "" {
		return fail + "\nencoded as " + clip(doc)
	}
	return ""
}

// ---- C11 ----

type oddError struct{ n int }

func (oddError) Error() string { return "odd failure" }

func failure(i int) error {
	switch i {
	case 1:
		return io.ErrClosedPipe
	case 2:
		return oddError{7}
	case 3:
		return fmt.Errorf("wrapped: %w", errInjected)
	case 4:
		return io.ErrUnexpectedEOF
	case 5:
		return errors.Join(errInjected, io.ErrNoProgress)
	case 6:
		return fmt.Errorf("connection lost: %w", io.EOF)
	case 7:
		return io.ErrShortWrite
	case 8:
		return syscall.EAGAIN
	case 9:
		return os.ErrDeadlineExceeded
	case 10:
		return &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}
	case 11:
		return errors.Join(io.EOF, errInjected)
	case 12:
		return context.Canceled
	case 13:
		return io.ErrShortBuffer
	case 14:
		return syscall.EINTR
	case 15:
		return bufio.ErrBufferFull
	case 16:
		return temporary{}
	case 17:
		return &silent{}
	}
	return errInjected
}

const failures = 18

// temporary claims that it would go away.
type temporary struct{}

func (temporary) Error() string   { return "temporary" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }
func (temporary) Is(error) bool   { return false }

// silent has nothing to say.
type silent struct{ _ int }

func (*silent) Error() string { return "" }

func genReadFault(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	g.Small = true
	m := g.calendar(p.Comp, p.Prop, how == "point" && g.bool())
	s := g.style(pick(g, []string{"", "", "f", "uos", "c"}))
	doc := s.doc(s.lines(m))
	tail := pick(g, []string{"", "X-AFTER:1\r\n", "BEGIN:VCALENDAR\r\n", "garbage"})
	c := &Case{Doc: Str(doc + tail), N: len(doc), Mode: g.u(2), Ops: []int{g.u(failures)}}
	if g.bool() {
		for k := 1 + g.n(3); k > 0; k-- {
			c.Sizes = append(c.Sizes, g.n(20))
		}
	}
	if g.in(6) {
		// odd octets before the failure
		c.Note = pick(g, []string{"\r", "\r\r", "\r\n", "\r\n ", "\r\n\t", "\r\n\r", " ", "\n", "\r\n\r\n", "\xe4", "\"", "\\"})
	}
	c.At = -1 // everywhere
	if how == "point" || len(c.Doc) > 1500 {
		c.At = g.u(len(c.Doc) + 1)
		if g.bool() {
			c.At = len(doc) + g.span(-16, 8)
			if c.At > len(c.Doc) {
				c.At = len(c.Doc)
			}
			if c.At < 0 {
				c.At = 0
			}
		}
	}
	return c
}

func runReadFault(c *Case, o *obs) string {
	doc := string(c.Doc)
	want, ok := baseline(c.Doc, o)
	if !ok {
		return ""
	}
	o.Nontrivial = true
	tail := c.Note
	if tail != "" {
		o.label("odd octets before the failure")
	}
	from, to := c.At, c.At
	if c.At < 0 {
		from, to = 0, len(doc)
		o.label("every offset")
	}
	// the calendar is delivered in full once its end line is
	whole := len(strings.TrimRight(doc[:c.N], "\r\n \t"))
	for k := from; k <= to; k++ {
		e := failure(c.Ops[0])
		cal, err, fail := decode(&chunkReader{data: doc[:k] + tail, sizes: c.Sizes, eof: c.Mode == 1, err: e})
		if fail != "" {
			return fmt.Sprintf("at %d of %d: %s", k, len(doc), fail)
		}
		switch {
		case tail != "":
			// which of the two errors is reported is open
			if err == nil && k < whole {
				return fmt.Sprintf("failure after %q at %d of %d gave a calendar", tail, k, len(doc))
			}
		case err != nil && !errors.Is(err, e):
			return fmt.Sprintf("failure at %d of %d reported as %q", k, len(doc), err)
		case err == nil && k < whole:
			return fmt.Sprintf("failure at %d of %d gave a calendar", k, len(doc))
		case err != nil && k > c.N:
			return fmt.Sprintf("failure at %d, after the calendar of %d octets, reported as %q", k, c.N, err)
		case err == nil:
			if got := canon(extract(cal)); got != want {
				return fmt.Sprintf("failure at %d of %d: calendar changed: %s", k, len(doc), diff(want, got))
			}
			o.label("failure after the end")
		default:
			o.label("failure before the end")
		}
	}
	return ""
}

// ---- C12 ----

// faultWriter fails once a number of octets has been accepted.
type faultWriter struct {
	buf    bytes.Buffer
	room   int
	mode   int // 0: accept what fits, then fail; 1: accept nothing of the failing write; 2: accept all of it and still fail
	err    error
	failed bool
	after  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.err
	}
	if w.room < 0 || len(p) <= w.room && !(w.mode == 2 && len(p) == w.room) {
		if w.room >= 0 {
			w.room -= len(p)
		}
		return w.buf.Write(p)
	}
	w.failed = true
	n := 0
	switch w.mode {
	case 0:
		n = w.room
	case 2:
		n = len(p)
	}
	w.buf.Write(p[:n])
	return n, w.err
}

// the same with WriteString, which an encoder may prefer
type stringFaultWriter struct{ faultWriter }

func (w *stringFaultWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func genWriteFault(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	g.Small = how == "offsets"
	m := g.calendar(p.Comp, p.Prop, how == "point")
	c := &Case{Model: m, Mode: g.u(3), Ops: []int{g.u(failures + 1), g.u(2)}, At: -1}
	if how == "point" {
		c.At = g.u(12)
		if g.bool() {
			c.At = g.u(2000)
		}
	}
	return c
}

func runWriteFault(c *Case, o *obs) string {
	cal := build(c.Model)
	full, err, fail := encode(cal)
	if fail != "" || err != nil {
		o.label("no baseline")
		return ""
	}
	o.Nontrivial = true
	from, to := c.At, c.At
	if c.At < 0 {
		from, to = 0, len(full)
		o.label("every offset")
		if len(full) > 3000 {
			to = 3000
		}
	}
	e := failure(c.Ops[0])
	if c.Ops[0] == failures {
		e = io.EOF // nothing special to a writer
	}
	for k := from; k <= to; k++ {
		w := &stringFaultWriter{faultWriter{room: k, mode: c.Mode, err: e}}
		var out io.Writer = w
		if c.Ops[1] == 0 {
			out = &w.faultWriter
		}
		var err error
		if fail := guard("Encode", func() { err = ics.Encode(out, cal) }); fail != "" {
			return fmt.Sprintf("failure after %d octets: %s", k, fail)
		}
		got := w.buf.String()
		switch {
		case w.failed && err == nil:
			return fmt.Sprintf("failure after %d of %d octets not reported", k, len(full))
		case w.failed && !errors.Is(err, e):
			return fmt.Sprintf("failure after %d of %d octets reported as %q", k, len(full), err)
		case w.after > 0:
			return fmt.Sprintf("%d writes after the failure at %d of %d octets", w.after, k, len(full))
		case !strings.HasPrefix(full, got):
			return fmt.Sprintf("what was accepted before the failure at %d is not a prefix of the output", k)
		case !w.failed && err != nil:
			return fmt.Sprintf("no write failed but Encode returned %q", err)
		case !w.failed && got != full:
			return fmt.Sprintf("no write failed but only %d of %d octets were written", len(got), len(full))
		}
		if w.failed {
			o.label("write failed")
		} else {
			o.label("no failure")
		}
	}
	return ""
}

func faultSites() []string {
	var out []string
	for _, p := range pairStrings() {
		out = append(out, p+"|offsets", p+"|point")
	}
	return out
}

func init() {
	register(&check{ID: "C09", Rule: "the calendar without the planted value encodes; counted once per distinct invalid calendar", Quick: 220, Thorough: 3000,
		Sites: c09Sites, Gen: genInvalid, Run: runInvalid})
	register(&check{ID: "C10", Rule: "at least one strange value was planted; counted once per distinct calendar", Quick: 450, Thorough: 5000,
		Sites: func() []string {
			out := pairStrings()
			for _, s := range pairsWith(func(d *propDef) bool { return hasKind(d, kDateTime, kPeriod, kRecur) }) {
				out = append(out, s+"|zones", s+"|edge")
			}
			return out
		}, Gen: genWild, Run: runWild})
	register(&check{ID: "C11", Rule: "the text decodes when the stream does not fail; a sweep tries every offset; counted once per distinct text, delivery and failure", Quick: 40, Thorough: 400, Level: "fault_enumeration",
		Sites: faultSites, Gen: genReadFault, Run: runReadFault})
	register(&check{ID: "C12", Rule: "the calendar encodes when the stream does not fail; a sweep tries every offset; counted once per distinct calendar and failure", Quick: 50, Thorough: 500, Level: "fault_enumeration",
		Sites: faultSites, Gen: genWriteFault, Run: runWriteFault})
}
