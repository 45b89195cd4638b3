package main

import (
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// ---- model to exported structs ----

var (
	tDateTime = reflect.TypeOf(ics.DateTime{})
	tDate     = reflect.TypeOf(ics.Date{})
	tPeriod   = reflect.TypeOf(ics.Period{})
	tDuration = reflect.TypeOf(ics.Duration{})
	tURI      = reflect.TypeOf(ics.URI{})
	tAddr     = reflect.TypeOf(ics.CalendarAddress{})
	tBinary   = reflect.TypeOf(ics.Binary{})
	tText     = reflect.TypeOf(ics.Text(""))
	tMText    = reflect.TypeOf(ics.MText{})
	tRecur    = reflect.TypeOf(ics.Recur{})
)

// union members by value kind
var unionField = map[kind]string{kDateTime: "DateTime", kDate: "Date", kPeriod: "Period", kDuration: "Duration", kURI: "URI", kBinary: "Binary"}

// the three-quarters of the properties that embed their value
var embedField = map[kind]string{kText: "Text", kMText: "MText", kAddr: "CalendarAddress", kPeriod: "Period"}

func bad(format string, a ...any) { panic(harnessError(fmt.Sprintf(format, a...))) }

func build(c *Comp) *ics.Calendar {
	cal := new(ics.Calendar)
	buildComp(reflect.ValueOf(cal).Elem(), c)
	return cal
}

func buildComp(rv reflect.Value, c *Comp) {
	def := compDefs[c.Name]
	if def == nil {
		bad("unknown component %q", c.Name)
	}
	for i := range c.Props {
		p := &c.Props[i]
		var use *propUse
		for j := range def.Props {
			if def.Props[j].Name == p.Name {
				use = &def.Props[j]
			}
		}
		if use == nil {
			bad("%s has no property %s", c.Name, p.Name)
		}
		f := rv.FieldByName(use.Field)
		if !f.IsValid() {
			bad("%s has no field %s", c.Name, use.Field)
		}
		switch use.Card {
		case one:
			buildProp(f, c.Name, p)
		case opt:
			f.Set(reflect.New(f.Type().Elem()))
			buildProp(f.Elem(), c.Name, p)
		case many:
			n := reflect.New(f.Type().Elem()).Elem()
			buildProp(n, c.Name, p)
			f.Set(reflect.Append(f, n))
		}
	}
	for i := range c.Subs {
		s := &c.Subs[i]
		f := rv.FieldByName(compDefs[s.Name].Field)
		if !f.IsValid() {
			bad("%s cannot hold %s", c.Name, s.Name)
		}
		n := reflect.New(f.Type().Elem()).Elem()
		if isAlarm(s.Name) {
			var a ics.Alarm
			switch s.Bad {
			case "nil-alarm":
				n.Set(reflect.ValueOf(a))
				f.Set(reflect.Append(f, n))
				continue
			}
			switch s.Name[7:] {
			case "AUDIO":
				a.AlarmType = new(ics.AlarmAudio)
			case "DISPLAY":
				a.AlarmType = new(ics.AlarmDisplay)
			case "EMAIL":
				a.AlarmType = new(ics.AlarmEmail)
			case "URI":
				a.AlarmType = new(ics.AlarmURI)
			case "NONE":
				a.AlarmType = new(ics.AlarmNone)
			}
			buildComp(reflect.ValueOf(a.AlarmType).Elem(), s)
			if s.Bad == "foreign-alarm" {
				a.AlarmType = foreignAlarm{a.AlarmType}
			}
			n.Set(reflect.ValueOf(a))
		} else {
			buildComp(n, s)
		}
		f.Set(reflect.Append(f, n))
	}
}

// foreignAlarm is an alarm kind of someone else.
type foreignAlarm struct{ ics.AlarmType }

func buildProp(rv reflect.Value, comp string, p *Prop) {
	for i := range p.Params {
		buildParam(rv, &p.Params[i])
	}
	v := &p.Val
	def := defOf(comp, p.Name)
	if len(def.Kinds) > 1 {
		if strings.HasPrefix(v.Bad, "set ") {
			// exactly the listed members
			for _, k := range def.Kinds {
				if !strings.Contains(v.Bad[4:], "<"+string(k)+">") {
					continue
				}
				f := rv.FieldByName(unionField[k])
				f.Set(reflect.New(f.Type().Elem()))
				setVal(f.Elem(), sampleVal(k), def)
			}
			return
		}
		f := rv.FieldByName(unionField[v.K])
		if !f.IsValid() || f.Kind() != reflect.Pointer {
			bad("property %s has no pointer field for %s", p.Name, v.K)
		}
		f.Set(reflect.New(f.Type().Elem()))
		setVal(f.Elem(), v, def)
		return
	}
	if rv.Kind() == reflect.Struct {
		if fn := embedField[v.K]; fn != "" {
			if f := rv.FieldByName(fn); f.IsValid() && !(v.K == kPeriod && rv.Type().ConvertibleTo(tPeriod)) {
				setVal(f, v, def)
				return
			}
		}
	}
	setVal(rv, v, def)
}

func sampleVal(k kind) *Val {
	t := &Tm{Y: 2001, Mo: 2, D: 3, H: 4, Mi: 5, S: 6, Zone: "UTC"}
	e := &Tm{Y: 2001, Mo: 2, D: 3, H: 5, Mi: 5, S: 6, Zone: "UTC"}
	switch k {
	case kDateTime, kDate:
		return &Val{K: k, T: t}
	case kPeriod:
		return &Val{K: k, T: t, E: e}
	case kDuration:
		return &Val{K: k, D: &Dur{H: 1}}
	case kURI:
		return &Val{K: k, S: "http://example.com/"}
	case kBinary:
		return &Val{K: k, B: []byte("abc")}
	}
	bad("no sample for %s", k)
	return nil
}

func valURL(v *Val) url.URL {
	if v.U != nil {
		return v.U.URL()
	}
	u, err := url.Parse(string(v.S))
	if err != nil {
		bad("URL %q does not parse: %v", v.S, err)
	}
	return *u
}

func goDur(d *Dur) ics.Duration {
	if d == nil {
		return ics.Duration{}
	}
	return ics.Duration{Negative: d.Neg, Weeks: d.W, Days: d.D, Hours: d.H, Minutes: d.M, Seconds: d.S}
}

func setVal(rv reflect.Value, v *Val, def *propDef) {
	var x any
	switch v.K {
	case kText:
		x = ics.Text(v.S)
	case kMText:
		var m ics.MText
		for _, s := range v.L {
			m = append(m, ics.Text(s))
		}
		x = m
	case kURI:
		x = ics.URI{URL: valURL(v)}
	case kAddr:
		x = ics.CalendarAddress{URL: valURL(v)}
	case kDate:
		x = ics.Date{Time: v.T.Time()}
	case kDateTime:
		x = ics.DateTime{Time: v.T.Time()}
	case kDuration:
		x = goDur(v.D)
	case kPeriod:
		p := ics.Period{Start: ics.DateTime{Time: v.T.Time()}, Duration: goDur(v.D)}
		if v.E != nil {
			p.End = ics.DateTime{Time: v.E.Time()}
		}
		x = p
	case kRecur:
		x = goRec(v.R)
	case kInteger:
		x = ics.Integer(v.I)
	case kOffset:
		x = ics.UTCOffset(v.I)
	case kGeo:
		x = ics.TFloat{float64(v.F[0]), float64(v.F[1])}
	case kBool:
		x = ics.Boolean(v.I != 0)
	case kBinary:
		x = ics.Binary(append([]byte(nil), v.B...))
	case kEnum:
		n := v.I
		if v.Bad == "" {
			n = -1
			for i, k := range def.Enum {
				if k == string(v.S) {
					n = int64(i)
				}
			}
			if n < 0 {
				bad("no constant for %s %q", def.Name, v.S)
			}
			n = int64(enumConst(def.Name, int(n)))
		}
		x = uint8(n)
	default:
		bad("kind %q", v.K)
	}
	xv := reflect.ValueOf(x)
	if !xv.Type().ConvertibleTo(rv.Type()) {
		bad("cannot use %s as %s", xv.Type(), rv.Type())
	}
	rv.Set(xv.Convert(rv.Type()))
}

// The constants, by exported name, in the order of the keywords in the schema.
var enumConsts = map[string][]uint8{
	"CLASS":        {uint8(ics.ClassPublic), uint8(ics.ClassPrivate), uint8(ics.ClassConfidential)},
	"STATUS":       {uint8(ics.StatusTentative), uint8(ics.StatusConfirmed), uint8(ics.StatusCancelled), uint8(ics.StatusNeedsAction), uint8(ics.StatusCompleted), uint8(ics.StatusInProcess), uint8(ics.StatusDraft), uint8(ics.StatusFinal)},
	"TRANSP":       {uint8(ics.TimeTransparencyOpaque), uint8(ics.TimeTransparencyTransparent)},
	"ALARM/STATUS": {uint8(ics.AlarmStatusActive), uint8(ics.AlarmStatusCancelled), uint8(ics.AlarmStatusCompleted)},
	"CUTYPE":       {uint8(ics.CalendarUserTypeIndividual), uint8(ics.CalendarUserTypeGroup), uint8(ics.CalendarUserTypeResource), uint8(ics.CalendarUserTypeRoom), uint8(ics.CalendarUserTypeUnknown)},
	"FBTYPE":       {uint8(ics.FreeBusyTypeFree), uint8(ics.FreeBusyTypeBusy), uint8(ics.FreeBusyTypeBusyUnavailable), uint8(ics.FreeBusyTypeBusyTentative), uint8(ics.FreeBusyTypeUnknown)},
	"PARTSTAT":     {uint8(ics.ParticipationStatusNeedsAction), uint8(ics.ParticipationStatusAccepted), uint8(ics.ParticipationStatusDeclined), uint8(ics.ParticipationStatusTentative), uint8(ics.ParticipationStatusDelegated), uint8(ics.ParticipationStatusCompleted), uint8(ics.ParticipationStatusInProcess), uint8(ics.ParticipationStatusUnknown)},
	"RELTYPE":      {uint8(ics.RelationshipTypeParent), uint8(ics.RelationshipTypeChild), uint8(ics.RelationshipTypeSibling), uint8(ics.RelationshipTypeUnknown)},
	"ROLE":         {uint8(ics.ParticipationRoleRequiredParticipant), uint8(ics.ParticipationRoleChair), uint8(ics.ParticipationRoleOptParticipant), uint8(ics.ParticipationRoleNonParticipant), uint8(ics.ParticipationRoleUnknown)},
}

var freqConsts = []ics.Frequency{ics.Secondly, ics.Minutely, ics.Hourly, ics.Daily, ics.Weekly, ics.Monthly, ics.Yearly}
var dayConsts = []ics.WeekDay{ics.UnknownDay, ics.Sunday, ics.Monday, ics.Tuesday, ics.Wednesday, ics.Thursday, ics.Friday, ics.Saturday}
var monthConsts = []ics.Month{ics.UnknownMonth, ics.January, ics.February, ics.March, ics.April, ics.May, ics.June, ics.July, ics.August, ics.September, ics.October, ics.November, ics.December}

func enumConst(name string, i int) uint8 { return enumConsts[name][i] }

func toConst[T ~uint8](tab []T, i int) T {
	if i >= 0 && i < len(tab) {
		return tab[i]
	}
	return T(i)
}

func fromConst[T ~uint8](tab []T, v T) int {
	for i, x := range tab {
		if x == v {
			return i
		}
	}
	return 1000 + int(v)
}

func conv[T int8 | int16 | uint8](l []int) []T {
	var o []T
	for _, v := range l {
		o = append(o, T(v))
	}
	return o
}

func unconv[T int8 | int16 | uint8](l []T) []int {
	var o []int
	for _, v := range l {
		o = append(o, int(v))
	}
	return o
}

func goRec(r *Rec) ics.Recur {
	x := ics.Recur{
		Frequency: toConst(freqConsts, r.Freq), WeekStart: toConst(dayConsts, r.WkSt), UntilTime: r.UntilTime,
		Count: r.Count, Interval: r.Interval,
		BySecond: conv[uint8](r.BySecond), ByMinute: conv[uint8](r.ByMinute), ByHour: conv[uint8](r.ByHour),
		ByMonthDay: conv[int8](r.ByMonthDay), ByYearDay: conv[int16](r.ByYearDay), ByWeekNum: conv[int8](r.ByWeekNo), BySetPos: conv[int16](r.BySetPos),
	}
	for _, m := range r.ByMonth {
		x.ByMonth = append(x.ByMonth, toConst(monthConsts, m))
	}
	for _, d := range r.ByDay {
		x.ByDay = append(x.ByDay, ics.DayRecur{Day: toConst(dayConsts, d[1]), Occurrence: int8(d[0])})
	}
	if r.Until != nil {
		x.Until = r.Until.Time()
	}
	return x
}

func recOf(x *ics.Recur) *Rec {
	r := &Rec{
		Freq: fromConst(freqConsts, x.Frequency), UntilTime: x.UntilTime,
		Count: x.Count, Interval: x.Interval,
		BySecond: unconv(x.BySecond), ByMinute: unconv(x.ByMinute), ByHour: unconv(x.ByHour),
		ByMonthDay: unconv(x.ByMonthDay), ByYearDay: unconv(x.ByYearDay), ByWeekNo: unconv(x.ByWeekNum), BySetPos: unconv(x.BySetPos),
	}
	if x.WeekStart != ics.UnknownDay {
		r.WkSt = fromConst(dayConsts, x.WeekStart)
	}
	for _, m := range x.ByMonth {
		r.ByMonth = append(r.ByMonth, fromConst(monthConsts, m))
	}
	for _, d := range x.ByDay {
		r.ByDay = append(r.ByDay, [2]int{int(d.Occurrence), fromConst(dayConsts, d.Day)})
	}
	if !x.Until.IsZero() {
		r.Until = tmOf(x.Until)
	} else {
		r.UntilTime = false
	}
	return r
}

func buildParam(rv reflect.Value, p *Param) {
	def := paramDefs[p.Name]
	f := rv.FieldByName(def.Field)
	if !f.IsValid() {
		bad("%s has no field %s", rv.Type(), def.Field)
	}
	addr := func(s Str) url.URL {
		u, err := url.Parse(string(s))
		if err != nil {
			bad("parameter URL %q: %v", s, err)
		}
		return *u
	}
	ptr := func(x any) {
		n := reflect.New(f.Type().Elem())
		n.Elem().Set(reflect.ValueOf(x).Convert(f.Type().Elem()))
		f.Set(n)
	}
	switch def.Kind {
	case pText, pQText, pFmt:
		ptr(string(p.Vals[0]))
	case pQTexts:
		var l []string
		for _, v := range p.Vals {
			l = append(l, string(v))
		}
		f.Set(reflect.ValueOf(l).Convert(f.Type()))
	case pQURI:
		if len(p.URLs) > 0 {
			ptr(ics.URI{URL: p.URLs[0].URL()})
		} else {
			ptr(ics.URI{URL: addr(p.Vals[0])})
		}
	case pQAddrs:
		var l []ics.CalendarAddress
		for _, v := range p.Vals {
			l = append(l, ics.CalendarAddress{URL: addr(v)})
		}
		for _, u := range p.URLs {
			l = append(l, ics.CalendarAddress{URL: u.URL()})
		}
		f.Set(reflect.ValueOf(l).Convert(f.Type()))
	case pEnum:
		n := len(def.Enum)
		if p.Raw != nil {
			ptr(uint8(*p.Raw))
			return
		}
		for i, k := range def.Enum {
			if k == string(p.Vals[0]) {
				n = i
			}
		}
		ptr(enumConst(def.Name, n))
	case pBool:
		ptr(p.Vals[0] == "TRUE")
	case pRange:
		f.Set(reflect.New(f.Type().Elem()))
	}
}

// ---- exported structs to model ----

func tmOf(t time.Time) *Tm {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	m := &Tm{Y: y, Mo: int(mo), D: d, H: h, Mi: mi, S: s, Ns: t.Nanosecond(), Zero: t.IsZero()}
	switch t.Location() {
	case time.UTC:
		m.Zone = "UTC"
	case time.Local:
		m.Zone = "Local"
	default:
		m.Zone = t.Location().String()
		if _, err := time.LoadLocation(m.Zone); err != nil || m.Zone == "" || m.Zone == "Local" {
			_, off := t.Zone()
			m.Zone, m.Off = "fixed:"+m.Zone, off
		}
	}
	return m
}

func extract(cal *ics.Calendar) *Comp {
	c := &Comp{}
	extractComp(c, "VCALENDAR", reflect.ValueOf(cal).Elem())
	return c
}

func extractComp(c *Comp, name string, rv reflect.Value) {
	c.Name = name
	def := compDefs[name]
	for _, u := range def.Props {
		f := rv.FieldByName(u.Field)
		if !f.IsValid() {
			bad("%s has no field %s", name, u.Field)
		}
		switch u.Card {
		case one:
			c.Props = append(c.Props, extractProp(name, u.Name, f))
		case opt:
			if !f.IsNil() {
				c.Props = append(c.Props, extractProp(name, u.Name, f.Elem()))
			}
		case many:
			for i := 0; i < f.Len(); i++ {
				c.Props = append(c.Props, extractProp(name, u.Name, f.Index(i)))
			}
		}
	}
	for _, s := range def.Subs {
		field := s
		if s == "VALARM" {
			field = "Alarm"
		} else {
			field = compDefs[s].Field
		}
		f := rv.FieldByName(field)
		for i := 0; i < f.Len(); i++ {
			var sub Comp
			if s == "VALARM" {
				a := f.Index(i).Interface().(ics.Alarm)
				kind := ""
				switch a.AlarmType.(type) {
				case *ics.AlarmAudio:
					kind = "AUDIO"
				case *ics.AlarmDisplay:
					kind = "DISPLAY"
				case *ics.AlarmEmail:
					kind = "EMAIL"
				case *ics.AlarmURI:
					kind = "URI"
				case *ics.AlarmNone:
					kind = "NONE"
				default:
					c.Subs = append(c.Subs, Comp{Name: fmt.Sprintf("VALARM:%T", a.AlarmType)})
					continue
				}
				if got := a.Type(); got != kind {
					c.Subs = append(c.Subs, Comp{Name: fmt.Sprintf("VALARM:%s(Type()=%q)", kind, got)})
					continue
				}
				extractComp(&sub, "VALARM:"+kind, reflect.ValueOf(a.AlarmType).Elem())
			} else {
				extractComp(&sub, s, f.Index(i))
			}
			c.Subs = append(c.Subs, sub)
		}
	}
}

func extractProp(comp, name string, rv reflect.Value) Prop {
	p := Prop{Name: name}
	def := defOf(comp, name)
	for _, pn := range def.Params {
		if x, ok := extractParam(rv, paramDefs[pn]); ok {
			p.Params = append(p.Params, x)
		}
	}
	if len(def.Kinds) > 1 {
		set := 0
		for _, k := range def.Kinds {
			f := rv.FieldByName(unionField[k])
			if f.IsNil() {
				continue
			}
			set++
			p.Val = getVal(f.Elem(), k, def)
		}
		if set != 1 {
			p.Val = Val{K: "union", Bad: fmt.Sprintf("%d members set", set)}
		}
		return p
	}
	k := def.Kinds[0]
	if rv.Kind() == reflect.Struct {
		if fn := embedField[k]; fn != "" {
			if f := rv.FieldByName(fn); f.IsValid() && !(k == kPeriod && rv.Type().ConvertibleTo(tPeriod)) {
				p.Val = getVal(f, k, def)
				return p
			}
		}
	}
	p.Val = getVal(rv, k, def)
	return p
}

func durOf(d ics.Duration) *Dur {
	return &Dur{Neg: d.Negative, W: d.Weeks, D: d.Days, H: d.Hours, M: d.Minutes, S: d.Seconds}
}

func as[T any](rv reflect.Value) T {
	var z T
	t := reflect.TypeOf(&z).Elem()
	if !rv.Type().ConvertibleTo(t) {
		bad("cannot read %s as %s", rv.Type(), t)
	}
	return rv.Convert(t).Interface().(T)
}

func getVal(rv reflect.Value, k kind, def *propDef) Val {
	v := Val{K: k}
	switch k {
	case kText:
		v.S = Str(as[ics.Text](rv))
	case kMText:
		for _, t := range as[ics.MText](rv) {
			v.L = append(v.L, Str(t))
		}
	case kURI:
		u := as[ics.URI](rv)
		v.S = Str(u.URL.String())
	case kAddr:
		u := as[ics.CalendarAddress](rv)
		v.S = Str(u.URL.String())
	case kDate:
		v.T = tmOf(as[ics.Date](rv).Time)
	case kDateTime:
		v.T = tmOf(as[ics.DateTime](rv).Time)
	case kDuration:
		v.D = durOf(as[ics.Duration](rv))
	case kPeriod:
		p := as[ics.Period](rv)
		v.T = tmOf(p.Start.Time)
		if p.End.IsZero() {
			v.D = durOf(p.Duration)
		} else {
			v.E = tmOf(p.End.Time)
		}
	case kRecur:
		r := as[ics.Recur](rv)
		v.R = recOf(&r)
	case kInteger:
		v.I = int64(as[ics.Integer](rv))
	case kOffset:
		v.I = int64(as[ics.UTCOffset](rv))
	case kGeo:
		f := as[ics.TFloat](rv)
		v.F = []Flt{Flt(f[0]), Flt(f[1])}
	case kBool:
		if as[ics.Boolean](rv) {
			v.I = 1
		}
	case kBinary:
		v.B = as[ics.Binary](rv)
	case kEnum:
		n := uint8(rv.Uint())
		v.S = Str(fmt.Sprintf("constant %d", n))
		for i := range def.Enum {
			if enumConst(def.Name, i) == n {
				v.S = Str(def.Enum[i])
			}
		}
	}
	return v
}

func extractParam(rv reflect.Value, def *paramDef) (Param, bool) {
	f := rv.FieldByName(def.Field)
	if !f.IsValid() {
		bad("%s has no field %s", rv.Type(), def.Field)
	}
	p := Param{Name: def.Name}
	if f.IsNil() {
		return p, false
	}
	switch def.Kind {
	case pText, pQText, pFmt:
		p.Vals = []Str{Str(f.Elem().String())}
	case pQTexts:
		for i := 0; i < f.Len(); i++ {
			p.Vals = append(p.Vals, Str(f.Index(i).String()))
		}
		if f.Len() == 0 {
			return p, false
		}
	case pQURI:
		u := as[ics.URI](f.Elem())
		p.Vals = []Str{Str(u.URL.String())}
	case pQAddrs:
		for i := 0; i < f.Len(); i++ {
			u := as[ics.CalendarAddress](f.Index(i))
			p.Vals = append(p.Vals, Str(u.URL.String()))
		}
		if f.Len() == 0 {
			return p, false
		}
	case pEnum:
		n := uint8(f.Elem().Uint())
		p.Vals = []Str{"UNKNOWN"}
		for i := range def.Enum {
			if enumConst(def.Name, i) == n {
				p.Vals[0] = Str(def.Enum[i])
			}
		}
		// a constant beyond the named ones is written as unknown
	case pBool:
		p.Vals = []Str{"FALSE"}
		if f.Elem().Bool() {
			p.Vals[0] = "TRUE"
		}
	case pRange:
		p.Vals = []Str{"THISANDFUTURE"}
	}
	return p, true
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }
