package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Str is a string that survives JSON even if it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err == nil {
		*s = Str(v)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*s = Str(d)
	return err
}

// Comp is a component: VCALENDAR, VEVENT, VALARM:AUDIO, ...
type Comp struct {
	Name  string `json:"name"`
	Props []Prop `json:"props,omitempty"`
	Subs  []Comp `json:"subs,omitempty"`
	Bad   string `json:"bad,omitempty"` // building instruction for invalid components
}

// Prop is a property with its modelled parameters. VALUE, ENCODING and TZID
// are not parameters here but part of the value.
type Prop struct {
	Name   string  `json:"name"`
	Params []Param `json:"params,omitempty"`
	Val    Val     `json:"val"`
}

// Param holds the meaning of a parameter value, not its spelling.
type Param struct {
	Name string `json:"name"`
	Vals []Str  `json:"vals"`
	Raw  *int   `json:"raw,omitempty"`  // enumeration constant given by number
	URLs []RawU `json:"urls,omitempty"` // URLs given by their parts
}

// Val is a typed value.
type Val struct {
	K   kind   `json:"k"`
	S   Str    `json:"s,omitempty"`
	L   []Str  `json:"l,omitempty"`
	T   *Tm    `json:"t,omitempty"`
	E   *Tm    `json:"e,omitempty"`
	D   *Dur   `json:"d,omitempty"`
	R   *Rec   `json:"r,omitempty"`
	I   int64  `json:"i,omitempty"`
	F   []Flt  `json:"f,omitempty"`
	B   []byte `json:"b,omitempty"`
	U   *RawU  `json:"u,omitempty"`   // URL given by its parts
	Bad string `json:"bad,omitempty"` // building instruction for invalid values
}

// Flt is a float that survives JSON.
type Flt float64

func (f Flt) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}

func (f *Flt) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = Flt(v)
	return err
}

// RawU holds URL parts that need not come from parsing.
type RawU struct {
	Scheme, Opaque, User, Host, Path, RawPath, RawQuery, Fragment Str
}

func (r RawU) URL() url.URL {
	u := url.URL{Scheme: string(r.Scheme), Opaque: string(r.Opaque), Host: string(r.Host), Path: string(r.Path), RawPath: string(r.RawPath), RawQuery: string(r.RawQuery), Fragment: string(r.Fragment)}
	if r.User != "" {
		u.User = url.User(string(r.User))
	}
	return u
}

// Tm is a wall-clock time in a zone: "UTC", "Local", a zone name, or
// "fixed:NAME" with an offset.
type Tm struct {
	Y, Mo, D, H, Mi, S int
	Ns                 int    `json:",omitempty"`
	Zone               string `json:",omitempty"`
	Off                int    `json:",omitempty"`
	Zero               bool   `json:",omitempty"` // the zero time.Time
}

func (t *Tm) Location() *time.Location {
	switch {
	case t.Zone == "UTC" || t.Zone == "":
		return time.UTC
	case t.Zone == "Local":
		return time.Local
	case strings.HasPrefix(t.Zone, "fixed:"):
		return time.FixedZone(t.Zone[6:], t.Off)
	}
	loc, err := time.LoadLocation(t.Zone)
	if err != nil {
		panic(harnessError(fmt.Sprintf("cannot load zone %q: %v", t.Zone, err)))
	}
	return loc
}

func (t *Tm) Time() time.Time {
	if t.Zero {
		return time.Time{}
	}
	return time.Date(t.Y, time.Month(t.Mo), t.D, t.H, t.Mi, t.S, t.Ns, t.Location())
}

// Dur is a duration.
type Dur struct {
	Neg           bool `json:",omitempty"`
	W, D, H, M, S uint `json:",omitempty"`
}

// Rec is a recurrence rule.
type Rec struct {
	Freq       int      // constant number
	Until      *Tm      `json:",omitempty"`
	UntilTime  bool     `json:",omitempty"`
	Count      uint64   `json:",omitempty"`
	Interval   uint64   `json:",omitempty"`
	BySecond   []int    `json:",omitempty"`
	ByMinute   []int    `json:",omitempty"`
	ByHour     []int    `json:",omitempty"`
	ByDay      [][2]int `json:",omitempty"` // occurrence, day constant
	ByMonthDay []int    `json:",omitempty"`
	ByYearDay  []int    `json:",omitempty"`
	ByWeekNo   []int    `json:",omitempty"`
	ByMonth    []int    `json:",omitempty"`
	BySetPos   []int    `json:",omitempty"`
	WkSt       int      `json:",omitempty"`
}

var freqNames = []string{"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}
var dayNames = []string{"??", "SU", "MO", "TU", "WE", "TH", "FR", "SA"}

// harnessError marks a fault of the harness, never of the code under test.
type harnessError string

func (h harnessError) Error() string { return "harness: " + string(h) }

// ---- canonical text ----
//
// Two models mean the same calendar if and only if their canonical texts are
// equal. The text ignores the order of differently named properties and
// components, which carries no meaning, and keeps that of equally named ones.

func canon(c *Comp) string {
	var b strings.Builder
	canonComp(&b, c, 0)
	return b.String()
}

func canonComp(b *strings.Builder, c *Comp, depth int) {
	ind := strings.Repeat("  ", depth)
	b.WriteString(ind + c.Name + " {\n")
	lines := make([][2]string, 0, len(c.Props))
	for i := range c.Props {
		lines = append(lines, [2]string{c.Props[i].Name, canonProp(c.Name, &c.Props[i])})
	}
	sort.SliceStable(lines, func(i, j int) bool { return lines[i][0] < lines[j][0] })
	for _, l := range lines {
		b.WriteString(ind + "  " + l[1] + "\n")
	}
	subs := make([]*Comp, len(c.Subs))
	for i := range c.Subs {
		subs[i] = &c.Subs[i]
	}
	base := func(n string) string { n, _, _ = strings.Cut(n, ":"); return n }
	sort.SliceStable(subs, func(i, j int) bool { return base(subs[i].Name) < base(subs[j].Name) })
	for _, s := range subs {
		canonComp(b, s, depth+1)
	}
	b.WriteString(ind + "}\n")
}

func canonProp(comp string, p *Prop) string {
	var ps []string
	for i := range p.Params {
		if s := canonParam(&p.Params[i]); s != "" {
			ps = append(ps, s)
		}
	}
	sort.Strings(ps)
	s := p.Name
	for _, x := range ps {
		s += " ;" + x
	}
	return s + " = " + canonVal(&p.Val)
}

func canonParam(p *Param) string {
	def := paramDefs[p.Name]
	vals := make([]string, len(p.Vals))
	for i, v := range p.Vals {
		vals[i] = string(v)
	}
	switch def.Kind {
	case pEnum:
		known := false
		if len(vals) == 1 {
			for _, k := range def.Enum {
				known = known || k == vals[0]
			}
		}
		if !known {
			return p.Name + "=UNKNOWN"
		}
		return p.Name + "=" + vals[0]
	case pBool:
		if len(vals) != 1 || vals[0] != "TRUE" {
			return ""
		}
		return p.Name + "=TRUE"
	case pQTexts, pQAddrs:
		if len(vals) == 0 {
			return ""
		}
		if def.Kind == pQAddrs {
			for i := range vals {
				vals[i] = canonURL(vals[i])
			}
		}
	case pQURI:
		if len(vals) != 1 || canonURL(vals[0]) == "" {
			return ""
		}
		vals[0] = canonURL(vals[0])
	default:
		if len(vals) == 0 || len(vals) == 1 && vals[0] == "" {
			return ""
		}
	}
	q := make([]string, len(vals))
	for i, v := range vals {
		q[i] = strconv.Quote(v)
	}
	return p.Name + "=" + strings.Join(q, ",")
}

// canonURL settles on the form that the standard parser reads and writes
// unchanged.
func canonURL(s string) string {
	for i := 0; i < 4; i++ {
		u, err := url.Parse(s)
		if err != nil {
			return "unparsable " + strconv.Quote(s)
		}
		t := u.String()
		if t == s {
			break
		}
		s = t
	}
	return s
}

func canonTime(t *Tm) string {
	return canonGoTime(t.Time())
}

func canonGoTime(t time.Time) string {
	t = t.Truncate(0)
	z := t.Location().String()
	switch {
	case z == "":
		t, z = t.UTC(), "Z"
	case t.Location() == time.UTC || z == "UTC":
		z = "Z"
	}
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d[%s]", y, int(mo), d, h, mi, s, z)
}

func canonDate(t *Tm) string {
	y, mo, d := t.Time().Date()
	return fmt.Sprintf("%04d-%02d-%02d", y, int(mo), d)
}

func canonDur(d *Dur) string {
	sign := "+"
	if d.Neg {
		sign = "-"
	}
	return fmt.Sprintf("%s%dw%dd%dh%dm%ds", sign, d.W, d.D, d.H, d.M, d.S)
}

func canonVal(v *Val) string {
	if v.Bad != "" {
		return "BAD " + v.Bad
	}
	switch v.K {
	case kText:
		return "text " + strconv.Quote(string(v.S))
	case kMText:
		l := v.L
		if len(l) == 0 {
			l = []Str{""}
		}
		q := make([]string, len(l))
		for i, s := range l {
			q[i] = strconv.Quote(string(s))
		}
		return "texts " + strings.Join(q, ",")
	case kURI, kAddr:
		if v.U != nil {
			u := v.U.URL()
			return string(v.K) + " " + strconv.Quote(canonURL(u.String()))
		}
		return string(v.K) + " " + strconv.Quote(canonURL(string(v.S)))
	case kDate:
		return "date " + canonDate(v.T)
	case kDateTime:
		return "datetime " + canonTime(v.T)
	case kDuration:
		return "duration " + canonDur(v.D)
	case kPeriod:
		if v.E != nil && !v.E.Time().IsZero() {
			return "period " + canonTime(v.T) + " to " + canonTime(v.E)
		}
		d := v.D
		if d == nil {
			d = &Dur{}
		}
		return "period " + canonTime(v.T) + " for " + canonDur(d)
	case kRecur:
		return "recur " + canonRec(v.R)
	case kInteger:
		return "integer " + strconv.FormatInt(v.I, 10)
	case kOffset:
		return "offset " + strconv.FormatInt(v.I, 10)
	case kGeo:
		return fmt.Sprintf("geo %x;%x", math.Float64bits(float64(v.F[0])), math.Float64bits(float64(v.F[1]))) +
			fmt.Sprintf(" (%v;%v)", float64(v.F[0]), float64(v.F[1]))
	case kBool:
		return "boolean " + strconv.FormatInt(v.I, 10)
	case kBinary:
		return "binary " + hex.EncodeToString(v.B)
	case kEnum:
		return "enum " + string(v.S)
	}
	return "?" + string(v.K)
}

func canonRec(r *Rec) string {
	s := "FREQ=" + strconv.Itoa(r.Freq)
	if r.Freq >= 0 && r.Freq < len(freqNames) {
		s = "FREQ=" + freqNames[r.Freq]
	}
	if r.Until != nil && !r.Until.Time().IsZero() {
		if r.UntilTime {
			s += " UNTIL=" + canonTime(r.Until)
		} else if d := canonDate(r.Until); d != "0001-01-01" { // the zero date means no end
			s += " UNTIL=" + d
		}
	}
	if r.Count != 0 {
		s += fmt.Sprintf(" COUNT=%d", r.Count)
	}
	if r.Interval != 0 {
		s += fmt.Sprintf(" INTERVAL=%d", r.Interval)
	}
	for _, l := range []struct {
		n string
		v []int
	}{{"BYSECOND", r.BySecond}, {"BYMINUTE", r.ByMinute}, {"BYHOUR", r.ByHour}, {"BYMONTHDAY", r.ByMonthDay}, {"BYYEARDAY", r.ByYearDay}, {"BYWEEKNO", r.ByWeekNo}, {"BYMONTH", r.ByMonth}, {"BYSETPOS", r.BySetPos}} {
		if len(l.v) > 0 {
			s += fmt.Sprintf(" %s=%v", l.n, l.v)
		}
	}
	if len(r.ByDay) > 0 {
		s += " BYDAY="
		for i, d := range r.ByDay {
			if i > 0 {
				s += ","
			}
			if d[1] >= 0 && d[1] < len(dayNames) {
				s += fmt.Sprintf("%d:%s", d[0], dayNames[d[1]])
			} else {
				s += fmt.Sprintf("%d:%d", d[0], d[1])
			}
		}
	}
	if r.WkSt != 0 {
		s += fmt.Sprintf(" WKST=%d", r.WkSt)
	}
	return s
}

// diff gives the first differing lines of two canonical texts.
func diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b string
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: want %s, got %s", i+1, clip(strings.TrimSpace(a)), clip(strings.TrimSpace(b)))
		}
	}
	return "no difference"
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}
