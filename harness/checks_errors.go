package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"vimagination.zapto.org/ics"
)

// ---- C26 ----

// reasons are the exported errors a refused input is told apart by.
var reasons = map[string][]error{
	"missing":     {ics.ErrMissingRequired},
	"rule":        {ics.ErrRequirementNotMet},
	"end":         {ics.ErrInvalidEnd},
	"noaction":    {ics.ErrMissingAlarmAction},
	"structure":   {ics.ErrInvalidStructure},
	"alarm":       {ics.ErrInvalidAlarm},
	"calendar":    {ics.ErrInvalidCalendar},
	"cut":         {io.ErrUnexpectedEOF},
	"duplicate":   {ics.ErrDuplicateParam},
	"param":       {ics.ErrInvalidParam},
	"value":       {ics.ErrInvalidValue},
	"boolean":     {ics.ErrInvalidBoolean},
	"text":        {ics.ErrInvalidText},
	"offset":      {ics.ErrInvalidOffset},
	"encoding":    {ics.ErrInvalidEncoding},
	"rrule":       {ics.ErrInvalidRecur},
	"time":        {ics.ErrInvalidTime},
	"duration":    {ics.ErrInvalidDuration},
	"float":       {ics.ErrInvalidFloat},
	"line":        {ics.ErrInvalidContentLine, ics.ErrInvalidContentLineName, ics.ErrInvalidContentLineParamName, ics.ErrInvalidContentLineQuotedParamValue, ics.ErrInvalidContentLineParamValue, ics.ErrInvalidContentLineValue},
	"frequency":   {ics.ErrInvalidRecurFrequency},
	"BYSECOND":    {ics.ErrInvalidRecurBySecond},
	"BYMINUTE":    {ics.ErrInvalidRecurByMinute},
	"BYHOUR":      {ics.ErrInvalidRecurByHour},
	"BYDAY":       {ics.ErrInvalidRecurByDay},
	"BYMONTHDAY":  {ics.ErrInvalidRecurByMonthDay},
	"BYYEARDAY":   {ics.ErrInvalidRecurByYearDay},
	"BYWEEKNO":    {ics.ErrInvalidRecurByWeekNum},
	"BYMONTH":     {ics.ErrInvalidRecurByMonth},
	"BYSETPOS":    {ics.ErrInvalidRecurBySetPos},
	"WKST":        {ics.ErrInvalidRecurWeekStart},
	"periodstart": {ics.ErrInvalidPeriodStart},
	"periodend":   {ics.ErrInvalidPeriodEnd},
	"perioddur":   {ics.ErrInvalidPeriodDuration},
}

// the reason for what a generator of damaged texts did, by its mode and its
// note
func textReason(p pair, how, note string) string {
	what, arg, _ := strings.Cut(how, " ")
	note, more, _ := strings.Cut(note, ":")
	switch what {
	case "missing", "rule", "noaction":
		return what
	case "wrongend", "unknown":
		return "end"
	case "noend", "extraend":
		// in an alarm the action may come later, and other components are refused
		switch {
		case isAlarm(p.Comp):
		case p.Comp == "VCALENDAR" && what == "noend":
			return "cut"
		default:
			return "end"
		}
	case "type":
		own, more, _ := strings.Cut(strings.TrimPrefix(more, " VALUE="), ";")
		switch {
		case note != "value type":
		case strings.HasPrefix(more, "VALUE="):
			return "duplicate"
		case own == "BINARY":
			return "encoding"
		default:
			for _, k := range defOf(p.Comp, p.Prop).Kinds {
				if valueNames[k] == own {
					return ""
				}
			}
			return "value"
		}
	case "twoactions":
		return "structure"
	case "firstline":
		return "calendar"
	case "line":
		return "line"
	case "param":
		switch note {
		case "repeated parameter":
			return "duplicate"
		case "several values", "unquoted value", "mixed values", "bad range", "bad media type":
			return "param"
		case "bad boolean":
			return "boolean"
		}
	case "value":
		if note == "fallback bad line" {
			return "line"
		}
		switch kind(arg) {
		case kText, kMText:
			return "text"
		case kBool:
			return "boolean"
		case kOffset:
			return "offset"
		case kRecur:
			return "rrule"
		case kEnum:
			return "value"
		}
	}
	return ""
}

// the same for calendars that must not be encoded
func modelReason(how, note string) string {
	what, arg, _ := strings.Cut(how, " ")
	switch what {
	case "rule":
		return "rule"
	case "nil", "foreign":
		return "alarm"
	case "union":
		return "value"
	case "param":
		switch paramDefs[arg].Kind {
		case pText, pQText, pQTexts:
			return "text"
		case pFmt:
			if note == "" || strings.HasPrefix(note, "bad media type") {
				return "value"
			}
		}
	case "value":
		switch kind(arg) {
		case kText, kMText:
			return "text"
		case kDate:
			return "time"
		case kDateTime:
			if !strings.Contains(note, "zone") {
				return "time"
			}
		case kDuration:
			return "duration"
		case kEnum:
			return "value"
		case kGeo:
			return "float"
		case kOffset:
			return "offset"
		case kPeriod:
			switch note {
			case "end equals start", "end before start":
				return "periodend"
			case "negative length", "length mixing weeks":
				return "perioddur"
			case "start: unset time":
				return "periodstart"
			}
		case kRecur:
			if w, out, _ := strings.Cut(note, " "); strings.HasSuffix(out, "out of range") {
				return w
			}
			if note == "count and until" {
				return "rrule"
			}
		}
	}
	return ""
}

func c26Sites() []string {
	var out []string
	for _, s := range c07Sites() {
		_, how, _ := strings.Cut(s, "|")
		if textReason(parsePair(s), how, "") != "" {
			out = append(out, "decode:"+s)
		}
	}
	for _, c := range compList {
		out = append(out, "decode:"+c.Name+"/|lines")
	}
	for _, s := range c08Sites() {
		_, how, _ := strings.Cut(s, "|")
		what, _, _ := strings.Cut(how, " ")
		if what == "param" || what == "type" || textReason(parsePair(s), how, "") != "" {
			out = append(out, "decode:"+s)
		}
	}
	for _, s := range c09Sites() {
		_, how, _ := strings.Cut(s, "|")
		what, arg, _ := strings.Cut(how, " ")
		if modelReason(how, "") != "" || what == "value" && (kind(arg) == kPeriod || kind(arg) == kRecur) {
			out = append(out, "encode:"+s)
		}
	}
	return out
}

func genReason(g *G, site string) *Case {
	side, site, _ := strings.Cut(site, ":")
	_, how, _ := strings.Cut(site, "|")
	what, _, _ := strings.Cut(how, " ")
	if side == "encode" {
		c := genInvalid(g, site)
		if c != nil {
			c.Recipe = modelReason(how, c.Note)
		}
		return c
	}
	var c *Case
	switch what {
	case "lines":
		m := g.calendar(parsePair(site).Comp, "", g.bool())
		s := g.style(pick(g, []string{"", "os", "uos", "f"}))
		lines := s.lines(m)
		c = &Case{Doc2: Str(s.doc(lines)), Doc: Str(s.doc(lines[:1+g.u(len(lines)-1)])), Recipe: "cut", Note: "cut after a line"}
		return c
	case "param", "value", "line", "type":
		c = genMalformed(g, site)
	default:
		c = genStructure(g, site)
	}
	c.Recipe = textReason(parsePair(site), how, c.Note)
	return c
}

// runReason wants the error, if there is one, to match the exported one for
// its reason.
func runReason(c *Case, o *obs) string {
	if c.Recipe == "" {
		o.label("reason left open")
		return ""
	}
	var err error
	var fail string
	if c.Model != nil {
		if len(c.Models) > 0 {
			if _, err, fail := encode(build(c.Models[0])); err != nil || fail != "" {
				o.label("control fails")
				return ""
			}
		}
		_, err, fail = encode(build(c.Model))
	} else {
		if _, ok := baseline(c.Doc2, o); !ok {
			return ""
		}
		_, err, fail = decodeString(string(c.Doc))
	}
	if fail != "" || err == nil {
		o.label("not refused")
		return ""
	}
	o.Nontrivial = true
	o.label("reason " + c.Recipe)
	for _, e := range reasons[c.Recipe] {
		if errors.Is(err, e) {
			return ""
		}
	}
	return fmt.Sprintf("refused (%s) with %q, which is not the error for that", c.Recipe, clip(err.Error()))
}

// ---- C27 ----

// makers turn a value into a pointer; the others do so by their method.
var makers = map[string]any{
	"NewCommonName": ics.NewCommonName, "NewDirectoryEntry": ics.NewDirectoryEntry, "NewFormatType": ics.NewFormatType, "NewLanguage": ics.NewLanguage,
	"NewMember": ics.NewMember, "NewRSVP": ics.NewRSVP, "NewSentBy": ics.NewSentBy, "NewTimezoneID": ics.NewTimezoneID, "NewID": ics.NewID, "NewAgentID": ics.NewAgentID,
	"NewPercentComplete": ics.NewPercentComplete, "NewPriority": ics.NewPriority, "NewRepeat": ics.NewRepeat, "NewSequence": ics.NewSequence,
	"ParamCalendarUserType": ics.ParamCalendarUserType.New, "ParamEncoding": ics.ParamEncoding.New, "ParamFreeBusyType": ics.ParamFreeBusyType.New,
	"ParamParticipationStatus": ics.ParamParticipationStatus.New, "ParamRelated": ics.ParamRelated.New, "ParamRelationshipType": ics.ParamRelationshipType.New,
	"ParamParticipationRole": ics.ParamParticipationRole.New, "ParamValue": ics.ParamValue.New, "PropAction": ics.PropAction.New, "PropCalendarScale": ics.PropCalendarScale.New,
	"PropClass": ics.PropClass.New, "PropStatus": ics.PropStatus.New, "PropTimeTransparency": ics.PropTimeTransparency.New, "PropAlarmStatus": ics.PropAlarmStatus.New,
}

func makerSites() []string {
	var out []string
	for n := range makers {
		out = append(out, n)
	}
	for _, k := range alarmKinds {
		out = append(out, "VALARM:"+k)
	}
	sort.Strings(out)
	return out
}

func genMaker(g *G, site string) *Case {
	c := &Case{How: site}
	if strings.HasPrefix(site, "VALARM:") {
		c.Model = g.calendar(site, "", false)
		return c
	}
	for n := 2 + g.n(4); n > 0; n-- {
		c.Ops = append(c.Ops, g.span(-1<<31, 1<<31-1))
		c.Docs = append(c.Docs, Str(g.text(20)))
	}
	if g.bool() {
		// all of a small type
		for i := 0; i < 256; i++ {
			c.Ops = append(c.Ops, i)
			c.Docs = append(c.Docs, Str(fmt.Sprint(i)))
		}
	}
	return c
}

// made gives the value a case asks for, of the type.
func made(t reflect.Type, n int, s Str) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(string(s))
	case reflect.Bool:
		v.SetBool(n%2 != 0)
	case reflect.Uint8:
		v.SetUint(uint64(uint8(n)))
	case reflect.Int32:
		v.SetInt(int64(int32(n)))
	case reflect.Slice:
		for i := 0; i < n&3; i++ {
			v = reflect.Append(v, made(t.Elem(), n, s+Str(fmt.Sprint(i))))
		}
	default:
		bad("no value of %s", t)
	}
	return v
}

func runMaker(c *Case, o *obs) string {
	if c.Model != nil {
		return runAlarmType(c, o)
	}
	f := reflect.ValueOf(makers[c.How])
	t := f.Type().In(0)
	o.Nontrivial = true
	var ptrs []reflect.Value
	var want []reflect.Value
	for i := range c.Ops {
		v := made(t, c.Ops[i], c.Docs[i])
		p := f.Call([]reflect.Value{v})[0]
		o.each(fmt.Sprint(c.How, v))
		if p.IsNil() {
			return fmt.Sprintf("%s(%v) is nil", c.How, v)
		}
		for _, q := range ptrs {
			if q.Pointer() == p.Pointer() {
				return c.How + " gives one pointer for two values"
			}
		}
		ptrs, want = append(ptrs, p), append(want, made(t, c.Ops[i], c.Docs[i]))
	}
	for i, p := range ptrs {
		if !reflect.DeepEqual(p.Elem().Interface(), want[i].Interface()) {
			return fmt.Sprintf("%s: want a pointer to %v, got one to %v", c.How, want[i], p.Elem())
		}
		p.Elem().SetZero()
	}
	for i := range c.Ops {
		v := made(t, c.Ops[i], c.Docs[i])
		if p := f.Call([]reflect.Value{v})[0]; p.IsNil() || !reflect.DeepEqual(p.Elem().Interface(), want[i].Interface()) {
			return fmt.Sprintf("%s(%v) changed after earlier results were changed", c.How, want[i])
		}
	}
	return ""
}

// runAlarmType wants each alarm to name the kind that is written for it.
func runAlarmType(c *Case, o *obs) string {
	_, want, _ := strings.Cut(c.Site, ":")
	cal := build(c.Model)
	look := func(cal *ics.Calendar) string {
		n := 0
		for _, l := range [][]ics.Alarm{alarmsOf(cal)} {
			for i := range l {
				name := "VALARM:" + l[i].Type()
				found := false
				for _, m := range findComp(extract(&ics.Calendar{Event: []ics.Event{{Alarm: l[i : i+1]}}}), name) {
					found = found || m.Name == name
				}
				if !found {
					return fmt.Sprintf("%T says it is of type %q", l[i].AlarmType, l[i].Type())
				}
				if l[i].Type() == want {
					n++
				}
			}
		}
		if n == 0 {
			return "no alarm says it is of type " + want
		}
		return ""
	}
	o.Nontrivial = true
	if fail := look(cal); fail != "" {
		return fail
	}
	doc, err, fail := encode(cal)
	if err != nil || fail != "" {
		return ""
	}
	if dec, err, fail := decodeString(doc); err == nil && fail == "" {
		if !bytes.Contains([]byte(doc), []byte("ACTION:"+want+"\r\n")) {
			return ""
		}
		return look(dec)
	}
	return ""
}

func alarmsOf(cal *ics.Calendar) []ics.Alarm {
	var out []ics.Alarm
	for i := range cal.Event {
		out = append(out, cal.Event[i].Alarm...)
	}
	for i := range cal.Todo {
		out = append(out, cal.Todo[i].Alarm...)
	}
	return out
}

// ---- C28 ----

var tailModes = []string{"octets", "calendar", "lines", "broken", "long"}

func tailSites() []string {
	var out []string
	for _, c := range compList {
		for _, m := range tailModes {
			out = append(out, c.Name+"/|"+m)
		}
	}
	return out
}

func genTail(g *G, site string) *Case {
	p := parsePair(site)
	_, mode, _ := strings.Cut(site, "|")
	g.Small = true
	m := g.calendar(p.Comp, "", g.bool())
	s := g.style(pick(g, []string{"", "os", "uos", "f", "c"}))
	c := &Case{Doc: Str(s.doc(s.lines(m))), Note: mode}
	m2 := g.calendar(pick(g, compList).Name, "", g.bool())
	other := s.doc(s.lines(m2))
	tail := ""
	switch mode {
	case "octets":
		b := make([]byte, g.span(1, 30))
		for i := range b {
			b[i] = byte(g.u(256))
		}
		tail = string(b)
	case "calendar":
		tail = pick(g, []string{"", "\r\n", "\n", "X-A:b\r\n"}) + other
		if g.in(3) {
			tail += other
		}
	case "lines":
		l := texts(s.lines(m2))
		for n := 1 + g.n(5); n > 0; n-- {
			tail += pick(g, l) + "\r\n"
		}
	case "broken":
		tail = pick(g, []string{"\r\n", "\n", "\r", "\x00", "\xff\xfe", "END:VCALENDAR\r\n", "END:VCALENDAR", "NOCOLON\r\n", "\x1a", "\r\n\r\n", "BEGIN:VEVENT\r\n", "\"", "\xc3", "\xed\xa0\x80", "BEGIN:VCALENDAR\r\n", "END:VEVENT\r\n", ";", ":", "=", ",", "-", "0", "é", "\ufeff", "<html>"})
		tail += g.octets(other)
	case "long":
		tail = strings.Repeat(pick(g, []string{"x", "\r\n", "\x00", "BEGIN:VEVENT\r\n", "X:y\r\n", "é", "\"", "END:VCALENDAR\r\n", "\r\n x"}), g.span(1, 4000))
	}
	// a space or tab would continue the last line
	c.Doc2 = Str(strings.TrimLeft(tail, " \t"))
	for n := g.n(4); n > 0; n-- {
		c.Sizes = append(c.Sizes, g.n(40))
	}
	return c
}

// runTail wants what follows the calendar not to matter.
func runTail(c *Case, o *obs) string {
	want, ok := baseline(c.Doc, o)
	if !ok {
		return ""
	}
	if len(c.Sizes) > 0 {
		// the calendar alone must not mind the reads
		cal, err, fail := decode(&chunkReader{data: string(c.Doc), sizes: c.Sizes, err: io.EOF})
		if err != nil || fail != "" || canon(extract(cal)) != want {
			o.label("no baseline")
			return ""
		}
	}
	o.Nontrivial = true
	o.label("tail of " + c.Note)
	cal, err, fail := decode(&chunkReader{data: string(c.Doc + c.Doc2), sizes: c.Sizes, err: io.EOF})
	switch {
	case fail != "":
		return fail
	case err != nil:
		return fmt.Sprintf("followed by %q: %v", clip(string(c.Doc2)), err)
	}
	if got := canon(extract(cal)); got != want {
		return fmt.Sprintf("followed by %q: %s", clip(string(c.Doc2)), diff(want, got))
	}
	return ""
}

func init() {
	register(&check{ID: "C26", Rule: "the sound input is accepted and the damaged one refused; counted once per distinct pair", Quick: 150, Thorough: 1000,
		Sites: c26Sites, Gen: genReason, Run: runReason})
	register(&check{ID: "C27", Rule: "every case; counted once per distinct value and helper, or calendar", Quick: 300, Thorough: 5000,
		Sites: makerSites, Gen: genMaker, Run: runMaker})
	register(&check{ID: "C28", Rule: "the calendar decodes when nothing follows; counted once per distinct text, tail and delivery", Quick: 1000, Thorough: 4000,
		Sites: tailSites, Gen: genTail, Run: runTail})
}
