package main

import (
	"encoding/base64"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// The judge is an independent reading of arbitrary text. It says of a document
// that it must be accepted (and as which calendar), that it must be rejected
// (and for which kinds of reason), or that the properties leave it open.

type verdict uint8

const (
	vOpen verdict = iota
	vAccept
	vReject
)

type judgement struct {
	V       verdict
	Model   *Comp           // if accepted
	Why     string          // first reason to reject
	Classes map[string]bool // lexical, structure, param, value
	Open    string          // first thing left open
}

type judge struct {
	pos int
	j   *judgement
}

type judgeStop struct{}

func (d *judge) reject(class, why string) {
	if d.j.Why == "" {
		d.j.Why = why
	}
	d.j.Classes[class] = true
}

func (d *judge) open(why string) {
	if d.j.Open == "" {
		d.j.Open = why
	}
}

// stop ends the judging with what is known so far.
func (d *judge) stop() { panic(judgeStop{}) }

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

var unfoldSpace = strings.NewReplacer("\r\n ", "", "\r\n\t", "")

func judgeDoc(doc string) *judgement {
	d := &judge{j: &judgement{Classes: map[string]bool{}}}
	doc = unfoldSpace.Replace(doc)
	if !utf8.ValidString(doc) {
		d.j.Open = "not UTF-8"
		return d.j
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(judgeStop); !ok {
					panic(r)
				}
			}
		}()
		d.doc(doc)
	}()
	switch {
	case len(d.j.Classes) > 0:
		d.j.V = vReject
	case d.j.Open != "" || d.j.Model == nil:
		d.j.V = vOpen
	default:
		d.j.V = vAccept
	}
	return d.j
}

// doc parses the unfolded lines one at a time, because what follows the end of
// the calendar does not matter.
func (d *judge) doc(text string) {
	raw := strings.Split(text, "\r\n")
	if raw[len(raw)-1] == "" {
		raw = raw[:len(raw)-1]
	} else {
		d.open("no line end at the end")
	}
	next := func() *cline {
		if d.pos >= len(raw) {
			d.reject("structure", "text ends within the calendar")
			d.stop()
		}
		l := raw[d.pos]
		d.pos++
		c, err := lex(l)
		if err != nil {
			d.reject("lexical", err.Error())
			d.stop()
		}
		return c
	}
	first := next()
	if first.name != "BEGIN" || upper(first.value) != "VCALENDAR" {
		if first.name == "BEGIN" && !ascii(first.value) {
			d.open("odd component name")
			d.stop()
		}
		d.reject("structure", "does not begin with BEGIN:VCALENDAR")
		d.stop()
	}
	d.plainLine(first)
	root := d.comp("VCALENDAR", next)
	if d.pos < len(raw) {
		d.open("text after the calendar")
	}
	d.j.Model = root
}

func lex(l string) (c *cline, err error) {
	defer catch(&err)
	return parseLine(l), nil
}

func (d *judge) plainLine(l *cline) {
	if len(l.pnames) > 0 {
		d.open("parameters on " + l.name)
	}
	if !ascii(l.value) {
		d.open("odd name on " + l.name)
		d.stop()
	}
}

// comp reads a known component up to its end.
func (d *judge) comp(name string, next func() *cline) *Comp {
	c := &Comp{Name: name}
	var props []*cline
	for {
		l := next()
		switch l.name {
		case "BEGIN":
			d.plainLine(l)
			sub := upper(l.value)
			if name == "VALARM" {
				// whether it is skipped or refused is left open
				d.open("component within an alarm")
				d.skip(sub, next)
				continue
			}
			known := false
			for _, s := range compDefs[name].Subs {
				known = known || s == sub
			}
			if known {
				c.Subs = append(c.Subs, *d.comp(sub, next))
				continue
			}
			if sub == "VCALENDAR" {
				d.open("calendar within a calendar")
			}
			d.skip(sub, next)
			continue
		case "END":
			d.plainLine(l)
			if upper(l.value) != name {
				d.reject("structure", name+" ended by "+clip(l.value))
				d.stop()
			}
			d.finish(c, props)
			return c
		}
		props = append(props, l)
	}
}

// skip passes over an unknown component.
func (d *judge) skip(name string, next func() *cline) {
	stack := []string{name}
	for len(stack) > 0 {
		l := next()
		switch l.name {
		case "BEGIN":
			d.plainLine(l)
			stack = append(stack, upper(l.value))
		case "END":
			d.plainLine(l)
			if upper(l.value) != stack[len(stack)-1] {
				d.reject("structure", "unknown component "+clip(stack[len(stack)-1])+" ended by "+clip(l.value))
				d.stop()
			}
			stack = stack[:len(stack)-1]
		}
	}
}

func (d *judge) finish(c *Comp, props []*cline) {
	if c.Name == "VALARM" {
		actions, known := 0, ""
		for _, l := range props {
			if l.name != "ACTION" {
				continue
			}
			actions++
			a := upper(l.value)
			if compDefs["VALARM:"+a] != nil {
				if known != "" {
					d.reject("structure", "alarm with two actions")
					return
				}
				known = a
			}
		}
		switch {
		case actions == 0:
			d.reject("structure", "alarm without action")
			return
		case known == "":
			d.open("unknown alarm action")
			return
		case actions > 1:
			d.open("several alarm actions")
		}
		c.Name = "VALARM:" + known
	}
	def := compDefs[c.Name]
	count := map[string]int{}
	for _, l := range props {
		known := false
		for _, u := range def.Props {
			known = known || u.Name == l.name
		}
		if !known {
			continue
		}
		count[l.name]++
		c.Props = append(c.Props, d.prop(c.Name, l))
	}
	for _, u := range def.Props {
		n := count[u.Name]
		if u.Card == one && n == 0 {
			d.reject("structure", c.Name+" lacks "+u.Name)
		}
		if u.Card != many && n > 1 {
			d.reject("structure", c.Name+" repeats "+u.Name)
		}
	}
	for _, r := range rules {
		if r.Comp != c.Name {
			continue
		}
		a, b := count[r.A] > 0, count[r.B] > 0
		if r.Kind == "excl" && a && b || r.Kind == "needs" && a && !b || r.Kind == "both" && a != b ||
			r.Kind == "oneof" && !c.hasSub(r.A) && !c.hasSub(r.B) {
			d.reject("structure", c.Name+" breaks the rule "+r.Kind+" "+r.A+" "+r.B)
		}
	}
}

// ---- properties ----

func (d *judge) prop(comp string, l *cline) Prop {
	def := defOf(comp, l.name)
	p := Prop{Name: l.name}
	k := def.Kinds[0]
	union := len(def.Kinds) > 1
	known := true
	zone, encoding := "", ""
	hasZone := false
	for _, n := range l.pnames {
		v := l.params[n]
		switch {
		case n == "VALUE" && union:
			if l.dups[n] || len(v) != 1 {
				d.reject("param", l.name+" with several value types")
				known = false
				continue
			}
			found := false
			for _, x := range def.Kinds {
				if valueNames[x] == upper(v[0].text) {
					k, found = x, true
				}
			}
			if !found {
				known = false
				if ascii(v[0].text) {
					d.reject("param", l.name+" with unsupported value type "+clip(v[0].text))
				} else {
					d.open("odd value type")
				}
			}
		case n == "VALUE":
			if len(v) != 1 || l.dups[n] || upper(v[0].text) != valueNames[k] {
				d.open("value type on a property without choice")
			}
		case n == "ENCODING":
			if l.dups[n] {
				d.open("odd encoding")
			}
			encoding = upper(v[len(v)-1].text)
			if len(v) > 1 {
				encoding = "?"
			}
		case n == "TZID":
			hasZone = true
			zone = v[0].text
			if l.dups[n] || len(v) > 1 || strings.ContainsAny(zone, "^") {
				d.open("odd zone")
				zone = ""
			}
		default:
			modelled := false
			for _, x := range def.Params {
				modelled = modelled || x == n
			}
			if !modelled {
				if n == "RELATED" && l.name == "TRIGGER" {
					d.open("trigger relation")
				}
				continue
			}
			if l.dups[n] {
				d.reject("param", l.name+" repeats "+n)
				continue
			}
			if q, ok := d.param(paramDefs[n], v); ok {
				p.Params = append(p.Params, q)
			}
		}
	}
	if !known {
		return p
	}
	if k == kBinary && encoding != "BASE64" {
		if ascii(encoding) && !l.dups["ENCODING"] {
			d.reject("param", "binary "+l.name+" without its encoding")
		} else {
			d.open("odd encoding")
		}
		return p
	}
	if k != kBinary && encoding != "" {
		d.open("encoding on text")
	}
	if hasZone {
		switch k {
		case kDateTime, kPeriod, kRecur:
			if zone == "" || zone == "Local" {
				d.open("odd zone")
				return p
			}
			if _, err := time.LoadLocation(zone); err != nil {
				d.open("unknown zone")
				return p
			}
		default:
			d.open("zone on a value without time")
		}
	}
	v, verdict := judgeVal(def, k, l.value, zone)
	switch verdict {
	case vReject:
		d.reject("value", l.name+" of kind "+string(k)+" is "+clip(l.value))
	case vOpen:
		d.open("value of " + l.name)
	default:
		p.Val = v
	}
	return p
}

var mediaType = regexp.MustCompile(`^[A-Za-z0-9!#$&.+_-]{1,127}/[A-Za-z0-9!#$&.+_-]{1,127}$`)

func (d *judge) param(def *paramDef, vs []ptok) (Param, bool) {
	p := Param{Name: def.Name}
	list := def.Kind == pQTexts || def.Kind == pQAddrs
	if !list && len(vs) != 1 {
		d.reject("param", "several values for "+def.Name)
		return p, false
	}
	for _, v := range vs {
		s := uncaret(v.text)
		switch def.Kind {
		case pQText, pQTexts, pQURI, pQAddrs:
			if !v.quoted {
				d.reject("param", def.Name+" is not quoted")
				return p, false
			}
			if def.Kind == pQURI || def.Kind == pQAddrs {
				if _, err := url.Parse(s); err != nil {
					d.reject("param", def.Name+" is not a URI")
					return p, false
				}
				if stableURI(s) == "" {
					d.open("odd URI")
				}
			}
		case pEnum, pBool, pRange:
			if strings.Contains(v.text, "^") || !ascii(v.text) {
				d.open("odd keyword for " + def.Name)
				return p, false
			}
			s = upper(v.text)
			if def.Kind == pBool && s != "TRUE" && s != "FALSE" || def.Kind == pRange && s != "THISANDFUTURE" {
				d.reject("param", def.Name+" is "+clip(s))
				return p, false
			}
		case pFmt:
			if !mediaType.MatchString(s) {
				if strings.Contains(s, "/") {
					d.open("odd media type")
				} else {
					d.reject("param", "media type "+clip(s))
				}
				return p, false
			}
		}
		p.Vals = append(p.Vals, Str(s))
	}
	return p, true
}

// ---- values ----

func strictVal(def *propDef, k kind, raw, zone string) (v Val, err error) {
	defer catch(&err)
	return readVal(k, def, raw, zone), nil
}

func judgeVal(def *propDef, k kind, raw, zone string) (Val, verdict) {
	v, err := strictVal(def, k, raw, zone)
	if err == nil {
		if tooLoose(k, raw) {
			return v, vOpen
		}
		return v, vAccept
	}
	if lenient(def, k, raw) {
		return v, vOpen
	}
	return v, vReject
}

var (
	hourSecond = regexp.MustCompile(`^[+-]?P([0-9]+D)?T[0-9]+H[0-9]+S$`)
	oddFloat   = regexp.MustCompile(`^[+-]?([0-9]*\.[0-9]+|[0-9]+\.[0-9]*|[0-9]+)$`)
	leap       = regexp.MustCompile(`^[0-9]{8}T[0-9]{4}60Z?$`)
)

// unset reports whether a value may be the time that stands for none, in some
// zone.
func unset(raw string) bool {
	return strings.Contains(raw, "00001231") || strings.Contains(raw, "00010101") || strings.Contains(raw, "00010102")
}

// tooLoose marks values the strict reader accepts without the standard
// settling them.
func tooLoose(k kind, raw string) bool {
	switch k {
	case kURI, kAddr:
		return stableURI(raw) == ""
	case kRecur:
		if unset(raw) {
			return true
		}
		for _, part := range strings.Split(raw, ";") {
			n, val, _ := strings.Cut(part, "=")
			if n == "UNTIL" {
				if leap.MatchString(val) {
					return true
				}
				continue
			}
			if n == "INTERVAL" || n == "COUNT" {
				if strings.Trim(val, "0") == "" {
					return true
				}
				continue
			}
			for _, x := range strings.Split(val, ",") {
				// more digits than the grammar allows
				digits := strings.TrimLeft(strings.TrimRight(x, "SUMOTWEHFRA"), "+-")
				max := 2
				if n == "BYYEARDAY" || n == "BYSETPOS" {
					max = 3
				}
				if n != "FREQ" && n != "WKST" && len(digits) > max {
					return true
				}
			}
		}
	case kDate:
		return unset(raw)
	case kDateTime:
		return leap.MatchString(raw) || unset(raw)
	case kPeriod:
		a, b, _ := strings.Cut(raw, "/")
		return leap.MatchString(a) || leap.MatchString(b) || strings.HasSuffix(a, "Z") != strings.HasSuffix(b, "Z") && !strings.Contains(b, "P") || unset(raw)
	case kOffset:
		return raw[0] != '+' && raw[0] != '-'
	case kEnum, kBool:
		return !ascii(raw)
	}
	return false
}

// lenient marks values the strict reader rejects but which the properties do
// not require to be rejected.
func lenient(def *propDef, k kind, raw string) bool {
	switch k {
	case kText:
		// unknown escapes are kept as they are; a raw semicolon is standard in
		// these two
		if def.Name == "REQUEST-STATUS" || def.Name == "VERSION" {
			return !rawSep(raw, ",")
		}
		return !rawSep(raw, ",;")
	case kMText:
		return !rawSep(raw, ";")
	case kDateTime:
		return leap.MatchString(raw)
	case kPeriod:
		a, b, _ := strings.Cut(raw, "/")
		return leap.MatchString(a) || leap.MatchString(b) || durLenient(b)
	case kDuration:
		return durLenient(raw)
	case kRecur:
		// lower case keywords
		if raw != upper(raw) || !ascii(raw) {
			return true
		}
		for _, part := range strings.Split(raw, ";") {
			if n, val, _ := strings.Cut(part, "="); n == "UNTIL" && leap.MatchString(val) {
				return true
			}
		}
		return false
	case kGeo:
		a, b, ok := strings.Cut(raw, ";")
		return ok && oddCoordinate(a) && oddCoordinate(b)
	case kBinary:
		_, err := base64.StdEncoding.DecodeString(raw)
		return err == nil
	case kEnum, kBool:
		return !ascii(raw)
	}
	return false
}

// oddCoordinate admits numbers with nothing on one side of the point.
func oddCoordinate(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil && oddFloat.MatchString(s)
}

func durLenient(raw string) bool {
	return raw != upper(raw) || !ascii(raw) || hourSecond.MatchString(raw)
}

// rawSep reports whether a text contains one of the separators unescaped.
func rawSep(s, seps string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		} else if strings.IndexByte(seps, s[i]) >= 0 {
			return true
		}
	}
	return false
}
