package main

import (
	"fmt"
	"strings"
)

// A ladder takes a calendar and lets one measure of it grow: how often a
// property or component occurs, how long a value is, how many items a list
// has. Every small size is tried, then sizes around powers of two and round
// numbers, where buffers and counters end.

// vary gives the value a different content of the same kind.
func vary(v Val, i int) Val {
	switch v.K {
	case kText:
		v.S += Str(fmt.Sprint(i))
	case kMText:
		v.L = append(append([]Str(nil), v.L...), Str(fmt.Sprint(i)))
	case kURI, kAddr:
		if i%3 != 0 {
			v.S, v.U = Str(fmt.Sprintf("mailto:m%d@h", i)), nil
		}
	case kDateTime, kDate:
		t := *v.T
		t.D = 1 + (t.D+i)%28
		if v.K == kDateTime {
			t.Mi = (t.Mi + i/28) % 60
		}
		v.T = settle(&t)
	case kDuration:
		d := *v.D
		if d.W > 0 {
			d.W += uint(i)
		} else {
			d.S += uint(i)
		}
		v.D = &d
	case kPeriod:
		if v.E == nil && v.D.W == 0 {
			d := *v.D
			d.M += uint(i)
			v.D = &d
		}
	case kRecur:
		r := *v.R
		r.Interval = uint64(i + 1)
		v.R = &r
	case kInteger:
		v.I = int64(i)
	case kBinary:
		v.B = append(append([]byte(nil), v.B...), byte(i), byte(i>>8))
	}
	return v
}

// varyComp tells copies of a component apart.
func varyComp(c *Comp, i int) Comp {
	n := *cloneComp(c)
	for j := range n.Props {
		p := &n.Props[j]
		switch {
		case p.Val.K == kText && p.Name != "VERSION" && p.Name != "REQUEST-STATUS":
			p.Val = vary(p.Val, i)
		case p.Name == "TRIGGER" && p.Val.K == kDuration:
			p.Val = vary(p.Val, i)
		}
	}
	return n
}

// parentOf gives the component holding another and its place.
func parentOf(m, c *Comp) (*Comp, int) {
	for i := range m.Subs {
		if &m.Subs[i] == c {
			return m, i
		}
		if p, k := parentOf(&m.Subs[i], c); p != nil {
			return p, k
		}
	}
	return nil, 0
}

func firstOf(m *Comp, p pair) (*Comp, int) {
	for _, c := range findComp(m, p.Comp) {
		if p.Prop == "" {
			return c, 0
		}
		for i := range c.Props {
			if c.Props[i].Name == p.Prop {
				return c, i
			}
		}
	}
	return nil, 0
}

// pad surrounds the focused property and component with others of their kind,
// so that what matters is not always among the first.
func (g *G) pad(m *Comp, p pair) {
	count := func() int {
		if g.in(4) {
			return g.span(10, 130)
		}
		return g.n(12)
	}
	c, i := firstOf(m, p)
	if c == nil {
		return
	}
	if p.Prop != "" && cardOf(p.Comp, p.Prop) == many {
		q := c.Props[i]
		for n := count(); n > 0; n-- {
			y := q
			y.Val = vary(q.Val, n)
			at := len(c.Props)
			if n%2 == 0 {
				at = i
			}
			c.Props = append(c.Props[:at:at], append([]Prop{y}, c.Props[at:]...)...)
		}
	}
	if up, at := parentOf(m, c); up != nil {
		d := *cloneComp(c)
		for n := count() / 3; n > 0; n-- {
			up.Subs = append(up.Subs[:at:at], append([]Comp{varyComp(&d, n)}, up.Subs[at:]...)...)
		}
	}
	for n := g.n(6); n > 0; n-- {
		e := g.component(pick(g, compDefs["VCALENDAR"].Subs), "", 12, 0)
		if g.bool() {
			m.Subs = append([]Comp{e}, m.Subs...)
		} else {
			m.Subs = append(m.Subs, e)
		}
	}
}

var byLists = []string{"BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"}

// a measure of a property, and the kind of value it needs
type measure struct {
	What string
	Kind kind
}

// measures lists what of a place can grow.
func measures(p pair) []measure {
	if p.Prop == "" {
		if p.Comp == "VCALENDAR" || p.Comp == "" {
			return nil
		}
		return []measure{{"components", ""}}
	}
	var out []measure
	if cardOf(p.Comp, p.Prop) == many {
		out = append(out, measure{"occurrences", ""})
	}
	def := defOf(p.Comp, p.Prop)
	for _, k := range def.Kinds {
		switch k {
		case kText:
			if p.Prop != "VERSION" && p.Prop != "REQUEST-STATUS" {
				out = append(out, measure{"length", k})
			}
		case kBinary, kURI, kAddr:
			out = append(out, measure{"length", k})
		case kMText:
			out = append(out, measure{"items", k}, measure{"length", k})
		case kRecur:
			for _, b := range byLists {
				out = append(out, measure{"items " + b, k})
			}
		}
	}
	for _, n := range def.Params {
		switch paramDefs[n].Kind {
		case pText, pQText, pQURI:
			out = append(out, measure{"length of " + n, ""})
		case pQTexts, pQAddrs:
			out = append(out, measure{"length of " + n, ""}, measure{"items of " + n, ""})
		}
	}
	return out
}

var ladderUnits = []string{"a", "é", "世", "😀", "\\", "\n", ",", "\"", "^", " "}

// filled is a text of exactly n octets (with wide characters up to three
// fewer) ending differently for each n.
func filled(n int, unit string) Str {
	var b strings.Builder
	end := fmt.Sprint(n)
	for b.Len()+len(unit)+len(end) <= n {
		b.WriteString(unit)
	}
	for b.Len()+len(end) < n {
		b.WriteByte('x')
	}
	s := b.String() + end
	if len(s) > n {
		s = s[:n]
	}
	return Str(s)
}

func paramOf(q *Prop, name string) *Param {
	for i := range q.Params {
		if q.Params[i].Name == name {
			return &q.Params[i]
		}
	}
	q.Params = append(q.Params[:len(q.Params):len(q.Params)], Param{Name: name})
	return &q.Params[len(q.Params)-1]
}

// grow sets a measure of the calendar to n.
func grow(m *Comp, p pair, what string, n int, unit string) *Comp {
	m = cloneComp(m)
	c, i := firstOf(m, p)
	if what == "components" {
		up, at := parentOf(m, c)
		var l []Comp
		l = append(l, up.Subs[:at]...)
		for k := 0; k < n; k++ {
			l = append(l, varyComp(c, k))
		}
		up.Subs = append(l, up.Subs[at+1:]...)
		return m
	}
	q := &c.Props[i]
	q.Params = append([]Param(nil), q.Params...)
	for k := range q.Params {
		q.Params[k].Vals = append([]Str(nil), q.Params[k].Vals...)
	}
	v := &q.Val
	verb, arg, _ := strings.Cut(what, " ")
	arg = strings.TrimPrefix(arg, "of ")
	items := func(f func(k int) Str) []Str {
		var l []Str
		for k := 0; k < max(n, 1); k++ {
			l = append(l, f(k))
		}
		return l
	}
	uri := func(n int) Str { return "mailto:" + filled(max(n-7, 1), "a") }
	switch {
	case what == "occurrences":
		var l []Prop
		for k := range c.Props {
			if k != i && c.Props[k].Name == p.Prop {
				continue
			}
			if k != i {
				l = append(l, c.Props[k])
				continue
			}
			for x := 0; x < n; x++ {
				y := *q
				y.Val = vary(q.Val, x)
				l = append(l, y)
			}
		}
		c.Props = l
	case what == "items":
		v.L = items(func(k int) Str { return Str(fmt.Sprint(k, unit)) })
	case what == "length":
		switch v.K {
		case kText:
			v.S = filled(n, unit)
		case kMText:
			v.L = []Str{"x", filled(n, unit), "y"}
		case kBinary:
			v.B = make([]byte, n)
			for k := range v.B {
				v.B[k] = byte(k*7 + k>>8 + n)
			}
		case kURI, kAddr:
			v.S, v.U = uri(n), nil
		}
	case verb == "length":
		d := paramDefs[arg]
		x := paramOf(q, arg)
		x.URLs, x.Raw = nil, nil
		switch d.Kind {
		case pText, pQText:
			x.Vals = []Str{filled(max(n, 1), unit)}
		case pQTexts:
			x.Vals = []Str{"x", filled(max(n, 1), unit), "y"}
		case pQURI:
			x.Vals = []Str{uri(n)}
		case pQAddrs:
			x.Vals = []Str{"mailto:x", uri(n), "mailto:y"}
		}
	case v.K == kRecur && verb == "items" && strings.HasPrefix(arg, "BY"):
		r := *v.R
		v.R = &r
		var l []int
		ring := func(lo, hi int, neg bool) {
			for k := 0; k < max(n, 1); k++ {
				x := lo + k%(hi-lo+1)
				if neg && k%3 == 1 {
					x = -x
				}
				l = append(l, x)
			}
		}
		switch arg {
		case "BYSECOND":
			ring(0, 60, false)
			r.BySecond = l
		case "BYMINUTE":
			ring(0, 59, false)
			r.ByMinute = l
		case "BYHOUR":
			ring(0, 23, false)
			r.ByHour = l
		case "BYDAY":
			r.ByDay = nil
			for k := 0; k < max(n, 1); k++ {
				r.ByDay = append(r.ByDay, [2]int{k%3 - 1, 1 + k%7})
			}
		case "BYMONTHDAY":
			ring(1, 31, true)
			r.ByMonthDay = l
		case "BYYEARDAY":
			ring(1, 366, true)
			r.ByYearDay = l
		case "BYWEEKNO":
			ring(1, 53, true)
			r.ByWeekNo = l
		case "BYMONTH":
			ring(1, 12, false)
			r.ByMonth = l
		case "BYSETPOS":
			ring(1, 366, true)
			r.BySetPos = l
		}
	case verb == "items":
		x := paramOf(q, arg)
		x.URLs, x.Raw = nil, nil
		if paramDefs[arg].Kind == pQAddrs {
			x.Vals = items(func(k int) Str { return Str(fmt.Sprintf("mailto:m%d@h", k)) })
		} else {
			x.Vals = items(func(k int) Str { return Str(fmt.Sprint(k, unit)) })
		}
	default:
		bad("measure %q", what)
	}
	return m
}

// steps lists the sizes of a ladder.
func steps(what string, extra []int) []int {
	var out []int
	add := func(n int) {
		if n >= 0 {
			out = append(out, n)
		}
	}
	dense, top := 40, 10
	if strings.HasPrefix(what, "length") {
		dense, top = 170, 16
		add(0)
	}
	if what == "components" {
		top = 8
	}
	for n := 1; n <= dense; n++ {
		add(n)
	}
	for k := 6; k <= top; k++ {
		for d := -1; d <= 1; d++ {
			if n := 1<<k + d; n > dense {
				add(n)
			}
		}
	}
	for _, n := range []int{50, 99, 100, 101, 200, 250, 300, 500, 998, 999, 1000, 1001, 10000, 50000} {
		if n > dense && n <= 1<<top {
			add(n)
		}
	}
	for _, n := range extra {
		add(1 + n%(1<<top))
	}
	return out
}

// genLadder draws the calendar and a few sizes more.
func (g *G) genLadder(site string) *Case {
	p := parsePair(site)
	f := strings.Split(site, "|")
	g.Small = true
	m := g.calendar(p.Comp, p.Prop, false)
	if k := kind(f[2]); k != "" {
		c, i := firstOf(m, p)
		c.Props[i].Val = g.val(defOf(p.Comp, p.Prop), k)
	}
	c := &Case{How: "ladder", Model: m, Recipe: strings.ReplaceAll(f[1], "_", " ")}
	c.Note = pick(g, ladderUnits)
	for k := 0; k < 4; k++ {
		c.Ops = append(c.Ops, g.n(1<<16))
	}
	return c
}

func ladderSites(of func(p pair, m measure) bool) []string {
	var out []string
	var all []pair
	for _, c := range compList {
		all = append(all, pair{c.Name, ""})
	}
	for _, p := range allPairs() {
		if p.Prop != "" {
			all = append(all, p)
		}
	}
	for _, p := range all {
		for _, m := range measures(p) {
			if of == nil || of(p, m) {
				out = append(out, fmt.Sprintf("%s|%s|%s|ladder", p, strings.ReplaceAll(m.What, " ", "_"), m.Kind))
			}
		}
	}
	return out
}

// withLadder gives a check ladders too. The relation must hold at every step
// if it holds at the first.
func withLadder(ck *check, of func(p pair, m measure) bool, controlled, blocks bool, rel func(m *Comp) string) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string { return append(sites(), ladderSites(of)...) }
	ck.Gen = func(g *G, site string) *Case {
		if strings.HasSuffix(site, "|ladder") {
			return g.genLadder(site)
		}
		return gen(g, site)
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.How != "ladder" {
			return old(c, o)
		}
		p := parsePair(c.Site)
		if controlled && rel(grow(c.Model, p, c.Recipe, 1, "a")) != "" {
			o.label("control fails")
			return ""
		}
		o.Nontrivial = true
		what, _, _ := strings.Cut(c.Recipe, " ")
		o.label("ladder: " + what)
		l := steps(c.Recipe, c.Ops)
		if ck.Race {
			// slow, and hardly about sizes
			var few []int
			for _, n := range l {
				if n <= 12 || n <= 1100 && n%5 == 0 {
					few = append(few, n)
				}
			}
			l = few
		}
		if blocks && what == "length" {
			for _, base := range []int{256, 512, 1000, 2000, 4096} {
				for n := base - 80; n < base+80; n++ {
					l = append(l, n)
				}
			}
		}
		if c.N > 0 {
			l = []int{c.N - 1}
		}
		for _, n := range l {
			if n == 0 && c.Recipe == "components" {
				continue
			}
			o.each(fmt.Sprint(c.Site, c.Recipe, c.Note, n))
			if fail := rel(grow(c.Model, p, c.Recipe, n, c.Note)); fail != "" {
				d := *c
				d.N, d.Ops = n+1, nil
				o.Narrow = &d
				return fmt.Sprintf("%s: %d: %s", c.Recipe, n, fail)
			}
		}
		return ""
	}
}

func addLadders() {
	value := func(kinds ...kind) func(pair, measure) bool {
		return func(p pair, m measure) bool {
			for _, k := range kinds {
				if m.Kind == k {
					return true
				}
			}
			return false
		}
	}
	params := func(p pair, m measure) bool { return strings.Contains(m.What, " of ") }
	addUnknownLadder(checks["C13"])
	withNames(checks["C13"])
	withLadder(checks["C01"], nil, false, false, roundTrip)
	withLadder(checks["C02"], nil, false, false, readBack)
	plainly := func(m *Comp) string { return decodeTo(renderPlain(m), canon(m)) }
	withLadder(checks["C03"], nil, false, false, plainly)
	withLadder(checks["C06"], nil, false, false, func(m *Comp) string {
		doc := renderPlain(m)
		_, fail := total(strings.NewReader(doc), len(doc))
		return fail
	})
	folded := func(m *Comp) string {
		var o obs
		return runFolding(&Case{Model: m}, &o)
	}
	withLadder(checks["C04"], func(p pair, m measure) bool { return m.What != "components" && m.What != "occurrences" }, false, true, folded)
	withLadder(checks["C15"], value(kText, kMText), true, false, tripBoth)
	withLadder(checks["C16"], params, true, false, tripBoth)
	withLadder(checks["C19"], value(kRecur), true, false, tripBoth)
	withLadder(checks["C20"], value(kBinary), true, false, tripBoth)
	withLadder(checks["C22"], value(kURI, kAddr), true, false, tripBoth)
	withLadder(checks["C23"], func(p pair, m measure) bool {
		return isAlarm(p.Comp) && (m.What == "components" || m.What == "occurrences")
	}, true, false, tripBoth)
	stable := func(m *Comp) string {
		var o obs
		return runStable(&Case{Model: m}, &o)
	}
	withLadder(checks["C24"], nil, false, false, stable)
	withLadder(checks["C25"], nil, false, false, pure)
	withChars(checks["C01"], roundTrip)
	withChars(checks["C02"], readBack)
	withChars(checks["C03"], plainly)
	withChars(checks["C04"], folded)
	withChars(checks["C24"], stable)
	withTables(checks["C01"], tableKinds, tableParams, roundTrip)
	withTables(checks["C02"], tableKinds, tableParams, readBack)
	withTables(checks["C03"], tableKinds, tableParams, plainly)
	withTables(checks["C24"], tableKinds, tableParams, stable)
	withTables(checks["C10"], tableKinds, tableParams, func(m *Comp) string {
		var o obs
		return runWild(&Case{Model: m}, &o)
	})
	ways := func(m *Comp) string {
		if fail := tripBoth(m); fail != "" {
			return fail
		}
		return plainly(m)
	}
	withShapes(checks["C01"], nil, roundTrip)
	withShapes(checks["C02"], nil, readBack)
	withShapes(checks["C03"], nil, plainly)
	withShapes(checks["C24"], nil, stable)
	withShapes(checks["C29"], nil, ways)
	withShapes(checks["C23"], func(s string) bool { return s == "VEVENT/|parts|shape" || s == "VTODO/|parts|shape" }, ways)
	withTables(checks["C15"], []kind{kText, kMText}, nil, ways)
	withTables(checks["C16"], nil, tableParams, ways)
	withTables(checks["C17"], []kind{kDate, kDateTime, kPeriod, kRecur}, nil, ways)
	withTables(checks["C18"], []kind{kDuration, kPeriod}, nil, ways)
	withTables(checks["C19"], []kind{kRecur}, nil, ways)
	withTables(checks["C20"], []kind{kInteger, kOffset, kGeo, kBinary}, nil, ways)
	withTables(checks["C22"], []kind{kURI, kAddr}, []paramKind{pQURI, pQAddrs}, ways)
}

// ---- unknown content of growing size ----

var unknownMeasures = []string{"properties", "name", "value", "parameters", "parameter name", "parameter value", "quoted value", "items", "depth", "components", "lines within"}

func unknownLadderSites() []string {
	var out []string
	for _, c := range compList {
		for _, w := range unknownMeasures {
			if isAlarm(c.Name) && (w == "depth" || w == "components" || w == "lines within") {
				continue // what an alarm may contain is left open
			}
			out = append(out, c.Name+"/|"+w+"|ladder")
		}
	}
	return out
}

func genUnknownLadder(g *G, site string) *Case {
	p := parsePair(site)
	g.Small = true
	m := g.calendar(p.Comp, "", false)
	c := &Case{How: "ladder", Model: m, Recipe: strings.Split(site, "|")[1], At: g.n(20)}
	for k := 0; k < 4; k++ {
		c.Ops = append(c.Ops, g.n(1<<16))
	}
	return c
}

// unknownDoc spells the calendar with unknown content of size n in the focused
// component.
func unknownDoc(c *Case, n int) string {
	s := &style{c: plain{}}
	lines := s.lines(c.Model)
	comp := findComp(c.Model, parsePair(c.Site).Comp)[0]
	var at []int // its own lines, beginning and end included
	for i, l := range lines {
		if l.Comp == comp {
			at = append(at, i)
		}
	}
	i := at[c.At%(len(at)-1)] + 1
	for lines[i].Comp != comp { // not before another component's first line only
		if lines[i].Prop == -1 {
			break
		}
		i++
	}
	var add []string
	line := func(format string, a ...any) { add = append(add, fmt.Sprintf(format, a...)) }
	fill := func(n int) string { return strings.Repeat("x", n) }
	var b strings.Builder
	switch c.Recipe {
	case "properties":
		for k := 0; k < n; k++ {
			line("X-P%d:%d", k, k)
		}
	case "name":
		line("X%s:v", fill(n))
	case "value":
		line("X-P:%s", filled(n, "é"))
	case "parameters":
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, ";X-Q%d=%d", k, k)
		}
		line("X-P%s:v", b.String())
	case "parameter name":
		line("X-P;X%s=1:v", fill(n))
	case "parameter value":
		line("X-P;X=%s:v", fill(n))
	case "quoted value":
		line("X-P;X=\"%s;\":v", fill(n))
	case "items":
		line("X-P;X=%s:v", strings.TrimSuffix(strings.Repeat("a,", max(n, 1)), ","))
	case "depth":
		for k := 0; k < n; k++ {
			line("BEGIN:X-%d", k)
		}
		line("UID:deep")
		for k := n - 1; k >= 0; k-- {
			line("END:X-%d", k)
		}
	case "components":
		for k := 0; k < n; k++ {
			line("BEGIN:X-C")
			line("UID:%d", k)
			line("END:X-C")
		}
	case "lines within":
		line("BEGIN:X-C")
		for k := 0; k < n; k++ {
			line("DTSTAMP:%d", k)
		}
		line("END:X-C")
	default:
		bad("measure %q", c.Recipe)
	}
	var out strings.Builder
	for k, l := range lines {
		if k == i {
			for _, x := range add {
				out.WriteString(x + "\r\n")
			}
		}
		out.WriteString(l.Text + "\r\n")
	}
	return out.String()
}

func addUnknownLadder(ck *check) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string { return append(sites(), unknownLadderSites()...) }
	ck.Gen = func(g *G, site string) *Case {
		if strings.HasSuffix(site, "|ladder") {
			return genUnknownLadder(g, site)
		}
		return gen(g, site)
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.How != "ladder" {
			return old(c, o)
		}
		want, ok := baseline(Str(renderPlain(c.Model)), o)
		if !ok {
			return ""
		}
		o.Nontrivial = true
		o.label("unknown ladder: " + c.Recipe)
		what := "items"
		if strings.HasSuffix(c.Recipe, "name") || strings.HasSuffix(c.Recipe, "value") {
			what = "length"
		}
		l := steps(what, c.Ops)
		if c.N > 0 {
			l = []int{c.N - 1}
		}
		for _, n := range l {
			o.each(fmt.Sprint(c.Site, c.At, n))
			if fail := decodeTo(unknownDoc(c, n), want); fail != "" {
				d := *c
				d.N, d.Ops = n+1, nil
				o.Narrow = &d
				return fmt.Sprintf("unknown %s: %d: %s", c.Recipe, n, fail)
			}
		}
		return ""
	}
}
