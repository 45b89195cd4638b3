package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// The reader is this harness's own strict reader for encoder output. It knows
// nothing of the code under test: it follows the grammar of RFC 5545, RFC 6868
// and the schema.

// lenientZones makes the reader take zone names the system does not know.
var lenientZones bool

type readErr string

func (e readErr) Error() string { return string(e) }

func rfail(format string, a ...any) { panic(readErr(fmt.Sprintf(format, a...))) }

// checkPhysical checks the physical lines and gives back the unfolded content
// lines.
func checkPhysical(doc string) (lines []string, err error) {
	defer catch(&err)
	if !strings.HasSuffix(doc, "\r\n") {
		rfail("output does not end in CRLF")
	}
	var cur strings.Builder
	started := false
	for i, l := range strings.Split(doc[:len(doc)-2], "\r\n") {
		if strings.ContainsAny(l, "\r\n") {
			rfail("physical line %d has a stray CR or LF: %q", i+1, clip(l))
		}
		if len(l) > 75 {
			rfail("physical line %d is %d octets long: %q", i+1, len(l), clip(l))
		}
		if l == "" {
			rfail("physical line %d is empty", i+1)
		}
		if !utf8.ValidString(l) {
			rfail("physical line %d splits a character: %q", i+1, clip(l))
		}
		if l[0] == '\t' {
			rfail("physical line %d starts with a tab", i+1)
		}
		if l[0] == ' ' {
			if !started {
				rfail("output starts with a continuation line")
			}
			cur.WriteString(l[1:])
			continue
		}
		if started {
			lines = append(lines, cur.String())
		}
		started = true
		cur.Reset()
		cur.WriteString(l)
	}
	return append(lines, cur.String()), nil
}

func catch(err *error) {
	if r := recover(); r != nil {
		e, ok := r.(readErr)
		if !ok {
			panic(r)
		}
		*err = e
	}
}

type ptok struct {
	text   string
	quoted bool
}

type cline struct {
	name   string
	pnames []string
	params map[string][]ptok
	dups   map[string]bool
	value  string
}

func nameChar(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-'
}

func ctl(c byte) bool { return c < 0x20 && c != '\t' || c == 0x7f }

func parseLine(l string) *cline {
	c := &cline{params: map[string][]ptok{}}
	i := 0
	ident := func() string {
		s := i
		for i < len(l) && nameChar(l[i]) {
			i++
		}
		if i == s {
			rfail("missing name at octet %d of %q", s, clip(l))
		}
		return strings.ToUpper(l[s:i])
	}
	c.name = ident()
	for i < len(l) && l[i] == ';' {
		i++
		p := ident()
		if i >= len(l) || l[i] != '=' {
			rfail("parameter %s without value in %q", p, clip(l))
		}
		if _, dup := c.params[p]; dup {
			if c.dups == nil {
				c.dups = map[string]bool{}
			}
			c.dups[p] = true
		} else {
			c.pnames = append(c.pnames, p)
		}
		for {
			i++ // '=' or ','
			s := i
			if i < len(l) && l[i] == '"' {
				i++
				for i < len(l) && l[i] != '"' && !ctl(l[i]) {
					i++
				}
				if i >= len(l) || l[i] != '"' {
					rfail("broken quoted parameter value in %q", clip(l))
				}
				c.params[p] = append(c.params[p], ptok{l[s+1 : i], true})
				i++
			} else {
				for i < len(l) && !strings.ContainsRune("\";:,", rune(l[i])) && !ctl(l[i]) {
					i++
				}
				c.params[p] = append(c.params[p], ptok{l[s:i], false})
			}
			if i >= len(l) || l[i] != ',' {
				break
			}
		}
	}
	if i >= len(l) || l[i] != ':' {
		rfail("no value in line %q", clip(l))
	}
	c.value = l[i+1:]
	for j := 0; j < len(c.value); j++ {
		if ctl(c.value[j]) {
			rfail("control character in value of %q", clip(l))
		}
	}
	return c
}

func uncaret(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '^' && i+1 < len(s) {
			switch s[i+1] {
			case '^':
				b.WriteByte('^')
				i++
				continue
			case 'n':
				b.WriteByte('\n')
				i++
				continue
			case '\'':
				b.WriteByte('"')
				i++
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// readDoc reads encoder output into a model.
func readDoc(doc string) (c *Comp, err error) {
	lines, err := checkPhysical(doc)
	if err != nil {
		return nil, err
	}
	defer catch(&err)
	ls := make([]*cline, len(lines))
	for i, l := range lines {
		ls[i] = parseLine(l)
	}
	if ls[0].name != "BEGIN" || strings.ToUpper(ls[0].value) != "VCALENDAR" || len(ls[0].pnames) > 0 {
		rfail("output does not begin a VCALENDAR: %q", clip(lines[0]))
	}
	root, rest := readComp("VCALENDAR", ls[1:])
	if len(rest) != 0 {
		rfail("text after the calendar: %q", clip(rest[0].name))
	}
	return root, nil
}

func readComp(name string, ls []*cline) (*Comp, []*cline) {
	c := &Comp{Name: name}
	if name == "VALARM" {
		n, action := 0, ""
		for _, l := range ls {
			if l.name == "BEGIN" || l.name == "END" {
				break
			}
			if l.name == "ACTION" {
				if len(l.pnames) > 0 {
					rfail("parameters on ACTION")
				}
				n, action = n+1, strings.ToUpper(l.value)
			}
		}
		if n != 1 || compDefs["VALARM:"+action] == nil {
			rfail("alarm with %d actions, last %q", n, action)
		}
		c.Name = "VALARM:" + action
	}
	def := compDefs[c.Name]
	count := map[string]int{}
	for {
		if len(ls) == 0 {
			rfail("%s is not ended", name)
		}
		l := ls[0]
		ls = ls[1:]
		switch l.name {
		case "BEGIN":
			sub := strings.ToUpper(l.value)
			ok := false
			for _, s := range def.Subs {
				ok = ok || s == sub
			}
			if !ok || len(l.pnames) > 0 {
				rfail("%s inside %s", clip(sub), c.Name)
			}
			var s *Comp
			s, ls = readComp(sub, ls)
			c.Subs = append(c.Subs, *s)
			continue
		case "END":
			if strings.ToUpper(l.value) != name || len(l.pnames) > 0 {
				rfail("%s ended by END:%s", name, clip(l.value))
			}
			for _, u := range def.Props {
				if n := count[u.Name]; u.Card == one && n != 1 || u.Card == opt && n > 1 {
					rfail("%s has %d %s", c.Name, n, u.Name)
				}
			}
			return c, ls
		case "ACTION":
			if isAlarm(c.Name) {
				continue
			}
		}
		known := false
		for _, u := range def.Props {
			known = known || u.Name == l.name
		}
		if !known {
			rfail("unexpected %s in %s", clip(l.name), c.Name)
		}
		count[l.name]++
		c.Props = append(c.Props, readProp(c.Name, l))
	}
}

func readProp(comp string, l *cline) Prop {
	def := defOf(comp, l.name)
	p := Prop{Name: l.name}
	k := def.Kinds[0]
	for n := range l.dups {
		rfail("parameter %s twice on %s", n, l.name)
	}
	single := func(n string) string {
		v := l.params[n]
		if len(v) != 1 {
			rfail("%s has %d values for %s", l.name, len(v), n)
		}
		return v[0].text
	}
	if _, ok := l.params["VALUE"]; ok {
		v := strings.ToUpper(single("VALUE"))
		found := false
		for _, x := range def.Kinds {
			if valueNames[x] == v {
				k, found = x, true
			}
		}
		if !found {
			rfail("%s with VALUE=%s", l.name, clip(v))
		}
	}
	zone := ""
	for _, n := range l.pnames {
		switch n {
		case "VALUE":
			continue
		case "ENCODING":
			if k != kBinary || strings.ToUpper(single(n)) != "BASE64" {
				rfail("%s with ENCODING=%s", l.name, clip(l.params[n][0].text))
			}
			continue
		case "TZID":
			zone = uncaret(single(n))
			if k != kDateTime && k != kPeriod && k != kRecur || zone == "" || zone == "Local" {
				rfail("%s of kind %s with TZID %q", l.name, k, clip(zone))
			}
			if _, err := time.LoadLocation(zone); err != nil {
				if !lenientZones {
					rfail("%s with unknown zone %q", l.name, clip(zone))
				}
				zone = "fixed:" + zone
			}
			continue
		}
		ok := false
		for _, d := range def.Params {
			ok = ok || d == n
		}
		if !ok {
			rfail("unexpected parameter %s on %s", clip(n), l.name)
		}
		p.Params = append(p.Params, readParam(paramDefs[n], l.params[n]))
	}
	if _, ok := l.params["ENCODING"]; k == kBinary && !ok {
		rfail("binary %s without ENCODING", l.name)
	}
	p.Val = readVal(k, def, l.value, zone)
	return p
}

func readParam(def *paramDef, vs []ptok) Param {
	p := Param{Name: def.Name}
	if def.Kind != pQTexts && def.Kind != pQAddrs && len(vs) != 1 {
		rfail("parameter %s has %d values", def.Name, len(vs))
	}
	for _, v := range vs {
		switch def.Kind {
		case pQText, pQTexts, pQURI, pQAddrs:
			if !v.quoted {
				rfail("parameter %s is not quoted", def.Name)
			}
		}
		s := v.text
		switch def.Kind {
		case pEnum, pBool, pRange:
			s = strings.ToUpper(s)
			if def.Kind == pBool && s != "TRUE" && s != "FALSE" || def.Kind == pRange && s != "THISANDFUTURE" {
				rfail("parameter %s is %q", def.Name, clip(s))
			}
		default:
			s = uncaret(s)
		}
		if def.Kind == pQURI || def.Kind == pQAddrs {
			if _, err := url.Parse(s); err != nil {
				rfail("parameter %s is not a URI: %q", def.Name, clip(s))
			}
		}
		p.Vals = append(p.Vals, Str(s))
	}
	return p
}

func readTexts(s string, list bool) []Str {
	out := []Str{}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
			if i >= len(s) {
				rfail("text ends in a lone backslash: %q", clip(s))
			}
			switch s[i] {
			case '\\', ';', ',':
				b.WriteByte(s[i])
			case 'n', 'N':
				b.WriteByte('\n')
			default:
				rfail("unknown escape in text %q", clip(s))
			}
		case ',':
			if !list {
				rfail("unescaped comma in text %q", clip(s))
			}
			out = append(out, Str(b.String()))
			b.Reset()
		case ';':
			rfail("unescaped semicolon in text %q", clip(s))
		default:
			b.WriteByte(s[i])
		}
	}
	return append(out, Str(b.String()))
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func num(s string, lo, hi int) int {
	if !digits(s) {
		rfail("not a number: %q", clip(s))
	}
	n, err := strconv.Atoi(s)
	if err != nil || n < lo || n > hi {
		rfail("number %s outside %d..%d", clip(s), lo, hi)
	}
	return n
}

func snum(s string, lo, hi int) int {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	n := num(s, 0, math.MaxInt32+1)
	if neg {
		n = -n
	}
	if n < lo || n > hi {
		rfail("number %d outside %d..%d", n, lo, hi)
	}
	return n
}

func u64(s string) uint64 {
	if !digits(s) {
		rfail("not a number: %q", clip(s))
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		rfail("number too large: %s", clip(s))
	}
	return n
}

func readDate(s string) *Tm {
	if len(s) != 8 {
		rfail("not a date: %q", clip(s))
	}
	t := &Tm{Y: num(s[:4], 0, 9999), Mo: num(s[4:6], 1, 12), D: num(s[6:], 1, 31), Zone: "UTC"}
	if g := t.Time(); g.Day() != t.D {
		rfail("no such day: %q", s)
	}
	return t
}

func readTime(s, zone string) *Tm {
	z := "Local"
	if zone != "" {
		z = zone
	}
	if strings.HasSuffix(s, "Z") {
		if zone != "" {
			rfail("UTC time %q with a zone", s)
		}
		z, s = "UTC", s[:len(s)-1]
	}
	if len(s) != 15 || s[8] != 'T' {
		rfail("not a date-time: %q", clip(s))
	}
	t := readDate(s[:8])
	t.H, t.Mi, t.S, t.Zone = num(s[9:11], 0, 23), num(s[11:13], 0, 59), num(s[13:], 0, 60), z
	return t
}

func readDur(s string) *Dur {
	d := &Dur{}
	o := s
	if s != "" && (s[0] == '+' || s[0] == '-') {
		d.Neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" || s[0] != 'P' {
		rfail("not a duration: %q", clip(o))
	}
	s = s[1:]
	part := func(u byte) (uint, bool) {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == 0 || i >= len(s) || s[i] != u {
			return 0, false
		}
		n := u64(s[:i])
		s = s[i+1:]
		return uint(n), true
	}
	var ok bool
	if d.W, ok = part('W'); ok {
		if s != "" {
			rfail("not a duration: %q", clip(o))
		}
		return d
	}
	var day bool
	d.D, day = part('D')
	if s == "" && day {
		return d
	}
	if s == "" || s[0] != 'T' {
		rfail("not a duration: %q", clip(o))
	}
	s = s[1:]
	var h, m, sec bool
	d.H, h = part('H')
	d.M, m = part('M')
	d.S, sec = part('S')
	if s != "" || !h && !m && !sec || h && sec && !m {
		rfail("not a duration: %q", clip(o))
	}
	return d
}

func readFloat(s string) Flt {
	t := strings.TrimPrefix(strings.TrimPrefix(s, "+"), "-")
	a, b, dot := strings.Cut(t, ".")
	if !digits(a) || dot && !digits(b) || len(s)-len(t) > 1 {
		rfail("not a float: %q", clip(s))
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		rfail("float out of range: %q", clip(s))
	}
	return Flt(f)
}

func readRec(s, zone string) *Rec {
	r := &Rec{Freq: -1}
	seen := map[string]bool{}
	list := func(v string, f func(string) int) []int {
		var o []int
		for _, x := range strings.Split(v, ",") {
			o = append(o, f(x))
		}
		return o
	}
	un := func(lo, hi int) func(string) int { return func(s string) int { return num(s, lo, hi) } }
	sn := func(hi int) func(string) int {
		return func(s string) int {
			n := snum(s, -hi, hi)
			if n == 0 {
				rfail("zero in rule %q", clip(s))
			}
			return n
		}
	}
	day := func(s string) int {
		for i, d := range dayNames {
			if i > 0 && d == s {
				return i
			}
		}
		rfail("not a weekday: %q", clip(s))
		return 0
	}
	for _, p := range strings.Split(s, ";") {
		n, v, ok := strings.Cut(p, "=")
		if !ok || seen[n] {
			rfail("bad or repeated part %q in rule %q", clip(p), clip(s))
		}
		seen[n] = true
		switch n {
		case "FREQ":
			for i, f := range freqNames {
				if f == v {
					r.Freq = i
				}
			}
			if r.Freq < 0 {
				rfail("bad frequency %q", clip(v))
			}
		case "UNTIL":
			if len(v) == 8 {
				r.Until = readDate(v)
			} else {
				r.Until, r.UntilTime = readTime(v, zone), true
			}
		case "COUNT":
			r.Count = u64(v)
		case "INTERVAL":
			r.Interval = u64(v)
		case "BYSECOND":
			r.BySecond = list(v, un(0, 60))
		case "BYMINUTE":
			r.ByMinute = list(v, un(0, 59))
		case "BYHOUR":
			r.ByHour = list(v, un(0, 23))
		case "BYDAY":
			for _, x := range strings.Split(v, ",") {
				if len(x) < 2 {
					rfail("bad weekday %q", clip(x))
				}
				o := 0
				if c := x[:len(x)-2]; c != "" {
					o = sn(53)(c)
				}
				r.ByDay = append(r.ByDay, [2]int{o, day(x[len(x)-2:])})
			}
		case "BYMONTHDAY":
			r.ByMonthDay = list(v, sn(31))
		case "BYYEARDAY":
			r.ByYearDay = list(v, sn(366))
		case "BYWEEKNO":
			r.ByWeekNo = list(v, sn(53))
		case "BYMONTH":
			r.ByMonth = list(v, un(1, 12))
		case "BYSETPOS":
			r.BySetPos = list(v, sn(366))
		case "WKST":
			r.WkSt = day(v)
		default:
			rfail("unknown part %q in rule", clip(n))
		}
	}
	if r.Freq < 0 || seen["COUNT"] && seen["UNTIL"] {
		rfail("bad rule %q", clip(s))
	}
	return r
}

func readVal(k kind, def *propDef, s, zone string) Val {
	v := Val{K: k}
	switch k {
	case kText:
		v.S = readTexts(s, false)[0]
	case kMText:
		v.L = readTexts(s, true)
	case kURI, kAddr:
		if _, err := url.Parse(s); err != nil {
			rfail("%s is not a URI: %q", def.Name, clip(s))
		}
		v.S = Str(s)
	case kDate:
		v.T = readDate(s)
	case kDateTime:
		v.T = readTime(s, zone)
	case kDuration:
		v.D = readDur(s)
	case kPeriod:
		a, b, ok := strings.Cut(s, "/")
		if !ok {
			rfail("not a period: %q", clip(s))
		}
		v.T = readTime(a, zone)
		if b != "" && (b[0] == 'P' || b[0] == '+' || b[0] == '-') {
			v.D = readDur(b)
			if v.D.Neg {
				rfail("negative period: %q", clip(s))
			}
		} else {
			v.E = readTime(b, zone)
		}
	case kRecur:
		v.R = readRec(s, zone)
	case kInteger:
		v.I = int64(snum(s, math.MinInt32, math.MaxInt32))
	case kOffset:
		o := s
		neg := false
		if s != "" && (s[0] == '+' || s[0] == '-') {
			neg = s[0] == '-'
			s = s[1:]
		}
		if len(s) != 4 && len(s) != 6 {
			rfail("not an offset: %q", clip(o))
		}
		v.I = int64(num(s[:2], 0, 99)*3600 + num(s[2:4], 0, 59)*60)
		if len(s) == 6 {
			v.I += int64(num(s[4:], 0, 59))
		}
		if neg {
			if v.I == 0 {
				rfail("negative zero offset %q", o)
			}
			v.I = -v.I
		}
	case kGeo:
		a, b, ok := strings.Cut(s, ";")
		if !ok {
			rfail("not coordinates: %q", clip(s))
		}
		v.F = []Flt{readFloat(a), readFloat(b)}
	case kBool:
		switch strings.ToUpper(s) {
		case "TRUE":
			v.I = 1
		case "FALSE":
		default:
			rfail("not a boolean: %q", clip(s))
		}
	case kBinary:
		b, err := base64.StdEncoding.Strict().DecodeString(s)
		if err != nil {
			rfail("not base64: %q", clip(s))
		}
		v.B = b
	case kEnum:
		s = strings.ToUpper(s)
		ok := false
		for _, e := range def.Enum {
			ok = ok || e == s
		}
		if !ok {
			rfail("%s has keyword %q", def.Name, clip(s))
		}
		v.S = Str(s)
	}
	return v
}
