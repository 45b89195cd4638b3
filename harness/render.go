package main

import (
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"
)

// chooser makes the free choices of a spelling. n(k) gives a number in [0,k);
// zero is always the plainest choice.
type chooser interface{ n(k int) int }

type plain struct{}

func (plain) n(int) int { return 0 }

// style switches groups of spelling choices on.
type style struct {
	c       chooser
	Case    bool // re-case names and keywords
	Order   bool // permute properties, parameters and rule parts
	Spell   bool // optional signs, zeros, quoting, explicit value types, escapes
	Unknown bool // unknown properties, parameters and components
	Fold    bool // folds in arbitrary places
	NoEOL   bool // omit the final line end
}

func (s *style) flip(on bool, k int) bool { return on && s.c.n(k) == k-1 }

// rline is one unfolded content line with where it came from.
type rline struct {
	Comp *Comp
	Prop int // index into Comp.Props, -1 for BEGIN, -2 for END, -3 for ACTION, -4 for unknown content
	Text string
}

func (s *style) kw(w string) string {
	if !s.Case {
		return w
	}
	switch s.c.n(4) {
	case 0:
		return w
	case 1:
		return strings.ToLower(w)
	case 2:
		b := []byte(strings.ToLower(w))
		if len(b) > 0 && b[0] >= 'a' && b[0] <= 'z' {
			b[0] -= 32
		}
		return string(b)
	}
	b := []byte(w)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' && s.c.n(2) == 1 {
			b[i] += 32
		}
	}
	return string(b)
}

// recased changes the case of a line's name, and of the component's name where
// the line has one.
func (s *style) recased(l string) string {
	i := strings.IndexAny(l, ";:")
	if n := l[:i]; l[i] == ':' && (n == "BEGIN" || n == "END") {
		return s.kw(n) + ":" + s.kw(l[i+1:])
	}
	return s.kw(l[:i]) + l[i:]
}

func (s *style) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if s.Order {
		for i := 0; i < n-1; i++ {
			j := i + s.c.n(n-i)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// permStable permutes positions but keeps items of one name in their order.
func (s *style) permStable(names []string) []int {
	p := s.perm(len(names))
	next := map[string][]int{}
	for i, n := range names {
		next[n] = append(next[n], i)
	}
	out := make([]int, len(p))
	for i, j := range p {
		n := names[j]
		out[i] = next[n][0]
		next[n] = next[n][1:]
	}
	return out
}

func (s *style) lines(c *Comp) []rline {
	var out []rline
	s.comp(&out, c)
	return out
}

func (s *style) comp(out *[]rline, c *Comp) {
	name, action, _ := strings.Cut(c.Name, ":")
	*out = append(*out, rline{c, -1, s.kw("BEGIN") + ":" + s.kw(name)})
	names := make([]string, len(c.Props))
	for i := range c.Props {
		names[i] = c.Props[i].Name
	}
	order := s.permStable(names)
	actionAt := -1
	if action != "" {
		actionAt = 0
		if s.Order {
			actionAt = s.c.n(len(order) + 1)
		}
	}
	for i := 0; i <= len(order); i++ {
		if i == actionAt {
			*out = append(*out, rline{c, -3, s.kw("ACTION") + s.unknownParams() + ":" + s.kw(action)})
		}
		s.unknownProp(out, c)
		if i < len(order) {
			*out = append(*out, rline{c, order[i], s.prop(c.Name, &c.Props[order[i]])})
		}
	}
	subNames := make([]string, len(c.Subs))
	for i := range c.Subs {
		subNames[i], _, _ = strings.Cut(c.Subs[i].Name, ":")
	}
	subOrder := s.permStable(subNames)
	for i := 0; i <= len(subOrder); i++ {
		if action == "" {
			s.unknownComp(out, c, 0)
		}
		if i < len(subOrder) {
			s.comp(out, &c.Subs[subOrder[i]])
		}
	}
	*out = append(*out, rline{c, -2, s.kw("END") + ":" + s.kw(name)})
}

var unknownNames = []string{"X-FOO", "X-WR-CALNAME", "X-APPLE-STRUCTURED-LOCATION", "NON-STANDARD", "IMAGE", "COLOR", "STRUCTURED-DATA", "LAST-MOD", "X", "SUMMARYX", "XSUMMARY", "BEGINX", "X-END", "CONFERENCE", "1-2", "-"}
var unknownValues = []string{"", "x", "a;b,c:d", "\\", "20010101", "BEGIN:VEVENT", "\"unbalanced", "é ", "END:VCALENDAR", "2.0;3", "=;,:", "^n^^"}

func (s *style) unknownProp(out *[]rline, c *Comp) {
	if !s.flip(s.Unknown, 5) {
		return
	}
	k := 1 + s.c.n(2)
	for i := 0; i < k; i++ {
		n := unknownNames[s.c.n(len(unknownNames))]
		// properties that are known elsewhere but not here are unknown here
		if s.c.n(4) == 3 {
			if f := foreignProps(c.Name); len(f) > 0 {
				n = f[s.c.n(len(f))]
			}
		}
		if s.c.n(4) == 3 {
			n = s.nearProp(c.Name)
		}
		t := s.kw(n)
		t += s.unknownParams()
		t += ":" + unknownValues[s.c.n(len(unknownValues))]
		*out = append(*out, rline{c, -4, t})
	}
}

// twisted is a name close to another.
func (s *style) twisted(n string) string {
	i := s.c.n(len(n))
	switch s.c.n(7) {
	case 0:
		return n + "X"
	case 1:
		return "X-" + n
	case 2:
		return n + "-" + n
	case 3:
		return n[:i] + n[i+1:] + "1"
	case 4:
		return n + "-"
	case 5:
		return n[:i] + "0" + n[i:]
	}
	return "X" + n
}

// nearProp is an unknown property name close to one of the component's.
func (s *style) nearProp(comp string) string {
	l := []string{"BEGIN", "END", "ACTION"}
	for _, u := range compDefs[comp].Props {
		l = append(l, u.Name)
	}
	n := s.twisted(l[s.c.n(len(l))])
	if propDefs[n] != nil {
		return "X-FOO"
	}
	return n
}

var foreignCache = map[string][]string{}

// foreignProps are standard properties the component does not model and that
// have no meaning to the line reader itself.
func foreignProps(comp string) []string {
	if f, ok := foreignCache[comp]; ok {
		return f
	}
	have := map[string]bool{"BEGIN": true, "END": true}
	for _, u := range compDefs[comp].Props {
		have[u.Name] = true
	}
	if isAlarm(comp) {
		have["ACTION"] = true
	}
	f := []string{}
	for _, n := range []string{"CALSCALE", "METHOD", "ACTION", "DTSTART", "DUE", "COMPLETED", "RRULE", "TZNAME", "TZOFFSETTO", "TRIGGER", "REPEAT", "FREEBUSY", "TRANSP", "GEO", "ATTACH", "STATUS", "SUMMARY", "DESCRIPTION", "DURATION", "DTSTAMP", "UID", "VERSION", "PRODID", "ATTENDEE", "PROXIMITY"} {
		if !have[n] {
			f = append(f, n)
		}
	}
	foreignCache[comp] = f
	return f
}

func (s *style) unknownParams() string {
	t := ""
	for s.flip(s.Unknown, 4) && len(t) < 60 {
		t += ";" + s.unknownParam()
	}
	return t
}

func (s *style) unknownParam() string {
	n := []string{"X-P", "X-FOO-BAR", "FILENAME", "X-VALUE", "ORDER", "SCHEDULE-STATUS", "CNX", "X"}[s.c.n(8)]
	if s.c.n(4) == 3 {
		l := []string{"VALUE", "TZID", "ENCODING", "LANGUAGE", "CN", "PARTSTAT", "ALTREP", "MEMBER", "RSVP", "FMTTYPE", "RANGE", "RELATED", "FBTYPE"}
		if x := s.twisted(l[s.c.n(len(l))]); paramDefs[x] == nil {
			n = x
		}
	}
	t := s.kw(n) + "="
	k := 1 + s.c.n(2)
	for i := 0; i < k; i++ {
		if i > 0 {
			t += ","
		}
		t += []string{"v", "\"q;u,o:t\"", "", "\"\"", "^n", "é", "x y", "a=b"}[s.c.n(8)]
	}
	return t
}

func (s *style) unknownComp(out *[]rline, c *Comp, depth int) {
	if !s.flip(s.Unknown, 6) {
		return
	}
	names := []string{"X-COMP", "VPOLL", "VAVAILABILITY", "X-VEVENT", "PARTICIPANT", "VLOCATION", "X"}
	if c.Name != "VEVENT" && c.Name != "VTODO" && c.Name != "VCALENDAR" {
		names = append(names, "VALARM")
	}
	if c.Name != "VCALENDAR" {
		names = append(names, "VEVENT", "VTODO")
	}
	n := names[s.c.n(len(names))]
	if s.c.n(4) == 3 {
		l := []string{"VCALENDAR", "VEVENT", "VTODO", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "BEGIN", "END"}
		n = s.twisted(l[s.c.n(len(l))])
	}
	*out = append(*out, rline{c, -4, s.kw("BEGIN") + ":" + s.kw(n)})
	for k := s.c.n(4); k > 0; k-- {
		t := []string{"SUMMARY:inside", "UID:other", "DTSTAMP:bogus", "X-A;B=C:d", "ACTION:AUDIO", "VERSION:9", "DTEND:1", "ENDX:" + n}[s.c.n(8)]
		*out = append(*out, rline{c, -4, t})
	}
	for k := s.c.n(3); k > 0 && depth < 4; k-- {
		s.unknownComp(out, c, depth+1)
	}
	*out = append(*out, rline{c, -4, s.kw("END") + ":" + s.kw(n)})
}

// ---- properties ----

var valueNames = map[kind]string{
	kText: "TEXT", kMText: "TEXT", kURI: "URI", kAddr: "CAL-ADDRESS", kDate: "DATE", kDateTime: "DATE-TIME", kDuration: "DURATION",
	kPeriod: "PERIOD", kRecur: "RECUR", kInteger: "INTEGER", kGeo: "FLOAT", kBool: "BOOLEAN", kOffset: "UTC-OFFSET", kBinary: "BINARY", kEnum: "TEXT",
}

func (s *style) prop(comp string, p *Prop) string {
	def := defOf(comp, p.Name)
	var params []string
	for i := range p.Params {
		params = append(params, s.param(&p.Params[i]))
	}
	v := &p.Val
	if len(def.Kinds) > 1 && v.K != def.Kinds[0] || s.flip(s.Spell, 6) {
		params = append(params, s.kw("VALUE")+"="+s.quoted(s.kw(valueNames[v.K])))
	}
	if v.K == kBinary {
		params = append(params, s.kw("ENCODING")+"="+s.quoted(s.kw("BASE64")))
	}
	if z := zoneOf(v); z != "" {
		params = append(params, s.kw("TZID")+"="+s.quoted(z))
	}
	for s.flip(s.Unknown, 6) && len(params) < 20 {
		params = append(params, s.unknownParam())
	}
	t := s.kw(p.Name)
	for _, i := range s.perm(len(params)) {
		t += ";" + params[i]
	}
	return t + ":" + s.value(v)
}

// zoneOf gives the zone name to attach to a value, if any.
func zoneOf(v *Val) string {
	var t *Tm
	switch v.K {
	case kDateTime, kPeriod:
		t = v.T
	case kRecur:
		if v.R.Until == nil || !v.R.UntilTime {
			return ""
		}
		t = v.R.Until
	default:
		return ""
	}
	if t.Zone == "UTC" || t.Zone == "" || t.Zone == "Local" {
		return ""
	}
	return t.Zone
}

func (s *style) caret(v string) string {
	var b strings.Builder
	rs := []rune(v)
	for i, r := range rs {
		switch r {
		case '^':
			// a caret that does not start an escape may stand for itself
			if s.Spell && i+1 < len(rs) && rs[i+1] != '^' && rs[i+1] != '\'' && rs[i+1] != 'n' && rs[i+1] != '"' && rs[i+1] != '\n' && s.flip(true, 3) {
				b.WriteByte('^')
			} else {
				b.WriteString("^^")
			}
		case '\n':
			b.WriteString("^n")
		case '"':
			b.WriteString("^'")
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// quoted puts a parameter's value that needs no quotes into them at times.
func (s *style) quoted(v string) string {
	if s.flip(s.Spell, 4) {
		return `"` + v + `"`
	}
	return v
}

func (s *style) param(p *Param) string {
	def := paramDefs[p.Name]
	t := s.kw(p.Name) + "="
	switch def.Kind {
	case pEnum, pBool, pRange:
		return t + s.quoted(s.kw(string(p.Vals[0])))
	}
	items := make([]string, len(p.Vals))
	for i, v := range p.Vals {
		e := s.caret(string(v))
		if def.Kind != pText && def.Kind != pFmt || strings.ContainsAny(e, ":;,") || s.flip(s.Spell, 3) {
			e = `"` + e + `"`
		}
		items[i] = e
	}
	return t + strings.Join(items, ",")
}

// ---- values ----

func (s *style) text(v string) string {
	var b strings.Builder
	for _, r := range v {
		switch r {
		case '\\', ';', ',':
			b.WriteByte('\\')
			b.WriteRune(r)
		case '\n':
			if s.flip(s.Spell, 2) {
				b.WriteString("\\N")
			} else {
				b.WriteString("\\n")
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func renderDate(t *Tm) string { return fmt.Sprintf("%04d%02d%02d", t.Y, t.Mo, t.D) }

func renderTime(t *Tm) string {
	r := fmt.Sprintf("%04d%02d%02dT%02d%02d%02d", t.Y, t.Mo, t.D, t.H, t.Mi, t.S)
	if t.Zone == "UTC" || t.Zone == "" {
		r += "Z"
	}
	return r
}

func (s *style) uint(v uint64, width int) string {
	t := strconv.FormatUint(v, 10)
	if s.flip(s.Spell, 5) {
		z := 1 + s.c.n(3)
		for ; z > 0 && (width == 0 || len(t) < width); z-- {
			t = "0" + t
		}
	}
	return t
}

func (s *style) int(v int64, width int) string {
	if v < 0 {
		return "-" + s.uint(uint64(-v), width)
	}
	t := s.uint(uint64(v), width)
	if s.flip(s.Spell, 4) {
		t = "+" + t
	}
	return t
}

func (s *style) dur(d *Dur) string {
	t := "P"
	if d.Neg {
		t = "-P"
	} else if s.flip(s.Spell, 3) {
		t = "+P"
	}
	n := func(v uint) string { return s.uint(uint64(v), 0) }
	if d.W != 0 || (d.D == 0 && d.H == 0 && d.M == 0 && d.S == 0 && s.flip(s.Spell, 4)) {
		return t + n(d.W) + "W"
	}
	if d.D != 0 || s.flip(s.Spell, 5) {
		t += n(d.D) + "D"
		if d.H == 0 && d.M == 0 && d.S == 0 && !s.flip(s.Spell, 4) {
			return t
		}
	}
	t += "T"
	// the fields written must be adjacent
	hi, lo := 3, -1
	for i, v := range []uint{d.H, d.M, d.S} {
		if v != 0 {
			if i < hi {
				hi = i
			}
			if i > lo {
				lo = i
			}
		}
	}
	if lo < 0 {
		hi, lo = 2, 2
		if s.flip(s.Spell, 2) {
			hi = s.c.n(3)
			lo = hi
		}
	}
	for hi > 0 && s.flip(s.Spell, 5) {
		hi--
	}
	for lo < 2 && s.flip(s.Spell, 5) {
		lo++
	}
	for i, v := range []uint{d.H, d.M, d.S} {
		if i >= hi && i <= lo {
			t += n(v) + "HMS"[i:i+1]
		}
	}
	return t
}

func (s *style) float(f float64) string {
	t := strconv.FormatFloat(f, 'f', -1, 64)
	if s.flip(s.Spell, 4) {
		if !strings.Contains(t, ".") {
			t += "."
			t += "0"
		}
		t += "00"[:1+s.c.n(2)]
	}
	if s.flip(s.Spell, 4) {
		if strings.HasPrefix(t, "-") {
			t = "-0" + t[1:]
		} else {
			t = "0" + t
		}
	}
	if t[0] != '-' && s.flip(s.Spell, 4) {
		t = "+" + t
	}
	return t
}

func (s *style) offset(o int64) string {
	sign := "+"
	if o < 0 {
		sign, o = "-", -o
	}
	t := fmt.Sprintf("%s%02d%02d", sign, o/3600, o/60%60)
	if o%60 != 0 || s.flip(s.Spell, 3) {
		t += fmt.Sprintf("%02d", o%60)
	}
	return t
}

func (s *style) ints(l []int, signed bool, width int) string {
	t := make([]string, len(l))
	for i, v := range l {
		if signed {
			t[i] = s.int(int64(v), width)
		} else {
			t[i] = s.uint(uint64(v), width)
		}
	}
	return strings.Join(t, ",")
}

func (s *style) recur(r *Rec) string {
	parts := []string{"FREQ=" + freqNames[r.Freq]}
	if r.Until != nil {
		if r.UntilTime {
			parts = append(parts, "UNTIL="+renderTime(r.Until))
		} else {
			parts = append(parts, "UNTIL="+renderDate(r.Until))
		}
	}
	if r.Count != 0 {
		parts = append(parts, "COUNT="+s.uint(r.Count, 0))
	}
	if r.Interval != 0 {
		parts = append(parts, "INTERVAL="+s.uint(r.Interval, 0))
	}
	add := func(n string, l []int, signed bool, width int) {
		if len(l) > 0 {
			parts = append(parts, n+"="+s.ints(l, signed, width))
		}
	}
	add("BYSECOND", r.BySecond, false, 2)
	add("BYMINUTE", r.ByMinute, false, 2)
	add("BYHOUR", r.ByHour, false, 2)
	if len(r.ByDay) > 0 {
		var d []string
		for _, x := range r.ByDay {
			t := ""
			if x[0] != 0 {
				t = s.int(int64(x[0]), 2)
			}
			d = append(d, t+dayNames[x[1]])
		}
		parts = append(parts, "BYDAY="+strings.Join(d, ","))
	}
	add("BYMONTHDAY", r.ByMonthDay, true, 2)
	add("BYYEARDAY", r.ByYearDay, true, 3)
	add("BYWEEKNO", r.ByWeekNo, true, 2)
	add("BYMONTH", r.ByMonth, false, 2)
	add("BYSETPOS", r.BySetPos, true, 3)
	if r.WkSt != 0 {
		parts = append(parts, "WKST="+dayNames[r.WkSt])
	}
	p := s.perm(len(parts))
	out := make([]string, len(parts))
	for i, j := range p {
		out[i] = parts[j]
	}
	return strings.Join(out, ";")
}

func (s *style) value(v *Val) string {
	switch v.K {
	case kText:
		return s.text(string(v.S))
	case kMText:
		var l []string
		for _, x := range v.L {
			l = append(l, s.text(string(x)))
		}
		return strings.Join(l, ",")
	case kURI, kAddr:
		return string(v.S)
	case kDate:
		return renderDate(v.T)
	case kDateTime:
		return renderTime(v.T)
	case kDuration:
		return s.dur(v.D)
	case kPeriod:
		if v.E != nil {
			return renderTime(v.T) + "/" + renderTime(v.E)
		}
		return renderTime(v.T) + "/" + s.dur(v.D)
	case kRecur:
		return s.recur(v.R)
	case kInteger:
		return s.int(v.I, 0)
	case kOffset:
		return s.offset(v.I)
	case kGeo:
		return s.float(float64(v.F[0])) + ";" + s.float(float64(v.F[1]))
	case kBool:
		if v.I != 0 {
			return s.kw("TRUE")
		}
		return s.kw("FALSE")
	case kBinary:
		return base64.StdEncoding.EncodeToString(v.B)
	case kEnum:
		return s.kw(string(v.S))
	}
	bad("render kind %q", v.K)
	return ""
}

// ---- assembling ----

func (s *style) fold(b *strings.Builder, line string) {
	if !s.Fold {
		b.WriteString(line)
		return
	}
	mode := s.c.n(4)
	for i := 0; i < len(line); i++ {
		b.WriteByte(line[i])
		if i == len(line)-1 {
			break
		}
		do := false
		switch mode {
		case 1: // dense
			do = s.c.n(3) == 2
		case 2: // sparse
			do = s.c.n(24) == 23
		case 3: // every octet
			do = true
		}
		if do {
			if s.c.n(3) == 2 {
				b.WriteString("\r\n\t")
			} else {
				b.WriteString("\r\n ")
			}
		}
	}
	// a fold may also stand at the very end of a line
	if s.flip(mode != 0, 12) {
		b.WriteString("\r\n ")
	}
}

func (s *style) doc(lines []rline) string {
	var b strings.Builder
	for i, l := range lines {
		s.fold(&b, l.Text)
		if i < len(lines)-1 || !s.NoEOL {
			b.WriteString("\r\n")
		}
	}
	return b.String()
}

func renderPlain(c *Comp) string {
	s := &style{c: plain{}}
	return s.doc(s.lines(c))
}
