package main

import (
	"fmt"
	"sort"
	"strings"

	"vimagination.zapto.org/ics"
)

// The checks here look at one kind of value at a time. Each case carries a
// control: the same calendar without the value in question. If the control
// fails, something else is wrong and the case says nothing.

// simpleVal is the plainest value of a kind.
func simpleVal(def *propDef, k kind) Val {
	v := Val{K: k}
	switch k {
	case kText:
		v.S = "x"
	case kMText:
		v.L = []Str{"x"}
	case kAddr:
		v.S = "mailto:a@b"
	case kRecur:
		v.R = &Rec{Freq: 3}
	case kInteger, kBool:
		v.I = 1
	case kOffset:
		v.I = 3600
	case kGeo:
		v.F = []Flt{1.5, 2.5}
	case kEnum:
		v.S = Str(def.Enum[0])
	default:
		v = *sampleVal(k)
	}
	return v
}

// obeys reports whether a component obeys the rules tying properties together.
func obeys(c *Comp) bool {
	for _, r := range rules {
		if r.Comp != c.Name {
			continue
		}
		a, b := c.has(r.A), c.has(r.B)
		if r.Kind == "excl" && a && b || r.Kind == "needs" && a && !b || r.Kind == "both" && a != b {
			return false
		}
	}
	return true
}

// control is the calendar without the focused property, or with the plainest
// value of it if it cannot be left out.
func control(m *Comp, p pair) *Comp {
	m = cloneComp(m)
	def := defOf(p.Comp, p.Prop)
	for _, c := range findComp(m, p.Comp) {
		without := cloneComp(c)
		without.drop(p.Prop)
		if cardOf(p.Comp, p.Prop) != one && obeys(without) && !(isAlarm(c.Name) && (p.Prop == "DURATION" || p.Prop == "REPEAT")) {
			*c = *without
			continue
		}
		for i := range c.Props {
			if c.Props[i].Name == p.Prop {
				c.Props[i].Params, c.Props[i].Val = nil, simpleVal(def, def.Kinds[0])
			}
		}
	}
	return m
}

// dress adds parameters to the focused properties.
func (g *G) dress(m *Comp, p pair) bool {
	def := defOf(p.Comp, p.Prop)
	some := false
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			if c.Props[i].Name != p.Prop {
				continue
			}
			c.Props[i].Params = nil
			for _, n := range def.Params {
				if g.bool() {
					c.Props[i].Params = append(c.Props[i].Params, g.param(paramDefs[n]))
					some = true
				}
			}
		}
	}
	return some
}

// simple is the calendar whose focused properties have simple values but the
// same parameters.
func simple(m *Comp, p pair) *Comp {
	m = cloneComp(m)
	def := defOf(p.Comp, p.Prop)
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			if c.Props[i].Name == p.Prop {
				c.Props[i].Val = simpleVal(def, def.Kinds[0])
			}
		}
	}
	return m
}

// bare is the calendar whose focused properties have no parameters.
func bare(m *Comp, p pair) *Comp {
	m = cloneComp(m)
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			if c.Props[i].Name == p.Prop {
				c.Props[i].Params = nil
			}
		}
	}
	return m
}

func tripBoth(m *Comp) string {
	cal, want := built(m)
	doc, fail := encodeOK(cal)
	if fail != "" {
		return fail
	}
	if fail = decodeTo(doc, want); fail != "" {
		return fail + "\nencoded as " + clip(doc)
	}
	c, err := readDoc(doc)
	if err != nil {
		return "encoded text is not well-formed: " + err.Error()
	}
	if got := canon(c); got != want {
		return "encoded text says something else: " + diff(want, got)
	}
	return ""
}

// runValue decides a case by the relation it names.
func runValue(c *Case, o *obs) string {
	o.label("relation " + c.How)
	vacuous := func(fail string) bool {
		if fail != "" {
			o.label("control fails")
			return true
		}
		o.Nontrivial = true
		return false
	}
	switch c.How {
	case "trip": // encode, read independently, decode
		if vacuous(tripBoth(c.Models[0])) {
			return ""
		}
		return tripBoth(c.Model)
	case "spell": // an independent spelling decodes to the model
		if vacuous(decodeTo(renderPlain(c.Models[0]), canon(c.Models[0]))) {
			return ""
		}
		return decodeTo(string(c.Doc), canon(c.Model))
	case "judged": // an edited text decodes to what the judge reads
		if vacuous(decodeTo(renderPlain(c.Models[0]), canon(c.Models[0]))) {
			return ""
		}
		j := judgeDoc(string(c.Doc))
		if j.V != vAccept {
			bad("edited text %q is not judged conforming: %s%s", c.Doc, j.Why, j.Open)
		}
		return decodeTo(string(c.Doc), canon(j.Model))
	case "reject": // a damaged text does not decode though the sound one does
		if _, ok := baseline(c.Doc2, o); !ok {
			return ""
		}
		o.Nontrivial = true
		return mustReject(string(c.Doc))
	case "refuse": // an invalid value is not encoded though a valid one is
		if _, err, fail := encode(build(c.Models[0])); err != nil || fail != "" {
			o.label("control fails")
			return ""
		}
		o.Nontrivial = true
		doc, err, fail := encode(build(c.Model))
		if fail == "" && err == nil {
			fail = "Encode accepted it and wrote " + clip(doc)
		}
		return fail
	case "sweep": // each small change of a value
		if vacuous(decodeTo(renderPlain(c.Models[0]), canon(c.Models[0]))) {
			return ""
		}
		if strings.HasSuffix(c.Site, "|head|sweep") {
			p := parsePair(c.Site)
			plain := canon(c.Models[0])
			typed := func(s string) int { return strings.Count(upper(s), "VALUE") + strings.Count(upper(s), "TZID") }
			return headSweep(c, o, true, false, func(v string, m *Comp) bool {
				// nothing but parameters may have changed
				return canon(bare(m, p)) == plain && typed(v) == typed(string(c.Doc2))
			})
		}
		_, sound := baseline(Str(c.sound()), o)
		return judgedSweep(c, o, true, sound && rejecting[c.Prop])
	case "keywords":
		return runKeywords(c, o)
	case "chars":
		return runChars(c, o, tripBoth)
	case "zones":
		return runZones(c, o)
	}
	bad("relation %q", c.How)
	return ""
}

// rejecting are the checks of values that speak of rejection.
var rejecting = map[string]bool{"C18": true, "C19": true, "C20": true, "C21": true}

// focused draws a calendar whose focused properties hold values of the kind,
// without parameters.
func (g *G) focused(p pair, k kind, draw func() Val) *Comp {
	m := g.calendar(p.Comp, p.Prop, false)
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			if c.Props[i].Name == p.Prop {
				c.Props[i].Params, c.Props[i].Val = nil, draw()
			}
		}
	}
	return m
}

// edited changes the text of one focused value. The judge says what is to
// become of it; rejections are wanted only where the property speaks of them.
func (g *G) edited(m *Comp, p pair, k kind, rejects bool) *Case {
	s := g.style("")
	lines := s.lines(m)
	sound := s.doc(lines)
	t := g.target(lines, p)
	head, value := splitLine(lines[t.Line].Text)
	def := defOf(p.Comp, p.Prop)
	for try := 0; try < 10; try++ {
		v := g.mutVal(k, value)
		if rejects && g.in(4) {
			v = pick(g, badCatalogue[k])
		}
		if strings.ContainsAny(v, "\r\n\u007f") {
			continue
		}
		val, verdict := judgeVal(def, k, v, zoneOf(&t.Prop.Val))
		lines[t.Line].Text = head + ":" + v
		doc := s.doc(lines)
		switch {
		case verdict == vReject && rejects:
			return &Case{How: "reject", Doc: Str(doc), Doc2: Str(sound), Note: note("edited value: %q", v)}
		case verdict == vAccept && v != value:
			if judgeDoc(doc).V != vAccept {
				continue
			}
			_ = val
			return &Case{How: "judged", Doc: Str(doc), Models: []*Comp{control(m, p)}, Note: note("edited value: %q", v)}
		}
	}
	return &Case{How: "spell", Model: m, Doc: Str(sound), Models: []*Comp{control(m, p)}}
}

// valueCheck makes a check of kinds of values.
type valueCheck struct {
	kinds   []kind
	modes   []string
	rejects bool
	draw    func(g *G, def *propDef, k kind) Val
}

func (v *valueCheck) sites() []string {
	var out []string
	for _, p := range allPairs() {
		if p.Prop == "" {
			continue
		}
		def := defOf(p.Comp, p.Prop)
		for _, k := range v.kinds {
			if !hasKind(def, k) {
				continue
			}
			for _, m := range v.modes {
				if m == "chars" && (p.Prop == "VERSION" || p.Prop == "REQUEST-STATUS") {
					continue
				}
				if m == "refuse" && (k == kInteger || k == kBool || k == kBinary) {
					continue
				}
				out = append(out, fmt.Sprintf("%s|%s|%s", p, k, m))
			}
		}
	}
	return out
}

func (v *valueCheck) gen(g *G, site string) *Case {
	p := parsePair(site)
	f := strings.Split(site, "|")
	k, mode := kind(f[1]), f[2]
	def := defOf(p.Comp, p.Prop)
	draw := func() Val {
		if v.draw != nil {
			return v.draw(g, def, k)
		}
		return g.val(def, k)
	}
	switch mode {
	case "trip":
		g.Loose = g.in(3)
		m := g.focused(p, k, draw)
		if g.in(5) {
			g.echo(m, p)
		}
		if g.in(3) && g.dress(m, p) {
			return &Case{How: "trip", Model: m, Models: []*Comp{simple(m, p)}}
		}
		return &Case{How: "trip", Model: m, Models: []*Comp{control(m, p)}}
	case "spell":
		m := g.focused(p, k, draw)
		if g.in(5) {
			g.echo(m, p)
		}
		s := g.style(pick(g, []string{"s", "s", "so", "sf"}))
		if g.in(3) && g.dress(m, p) {
			return &Case{How: "spell", Model: m, Models: []*Comp{simple(m, p)}, Doc: Str(s.doc(s.lines(m)))}
		}
		return &Case{How: "spell", Model: m, Models: []*Comp{control(m, p)}, Doc: Str(s.doc(s.lines(m)))}
	case "edit":
		m := g.focused(p, k, draw)
		return g.edited(m, p, k, v.rejects)
	case "refuse":
		m := g.focused(p, k, draw)
		b := cloneComp(m)
		how := g.plant(b, p, "value "+string(k))
		return &Case{How: "refuse", Model: b, Models: []*Comp{m}, Note: how}
	case "sweep":
		return g.genSweep(p, k, draw)
	case "chars":
		return g.genChars(p, k, "")
	case "zones":
		return g.genZones(p, k, draw)
	case "escape":
		return g.escapes(p, k)
	case "fold":
		m := g.focused(p, k, func() Val { return g.foldTime(k) })
		return &Case{How: "trip", Model: m, Models: []*Comp{control(m, p)}, Note: "a wall clock time that occurs twice"}
	}
	bad("mode %q", mode)
	return nil
}

// ---- C15 ----

// specials are the characters with a meaning somewhere in the syntax.
var specials = []string{"\\", ",", ";", ":", "\"", "^", "'", "\n", "n", "N", " ", "\t", "a", "=", "é"}

func (g *G) drawText(def *propDef, k kind) Val {
	if g.bool() {
		return g.val(def, k)
	}
	// dense in special characters
	dense := func() Str {
		var b strings.Builder
		for n := g.n(7); n > 0; n-- {
			b.WriteString(pick(g, specials))
		}
		return Str(b.String())
	}
	v := Val{K: k}
	if k == kText {
		v.S = dense()
		return v
	}
	for n := 1 + g.n(4); n > 0; n-- {
		v.L = append(v.L, dense())
	}
	return v
}

// escapes spells texts with backslashes before characters that are no escapes,
// which stay as they are.
func (g *G) escapes(p pair, k kind) *Case {
	var raw strings.Builder
	items := []Str{""}
	cur := ""
	for n := 1 + g.n(8); n > 0; n-- {
		switch g.u(7) {
		case 0:
			raw.WriteString("\\n")
			cur += "\n"
		case 1:
			raw.WriteString("\\N")
			cur += "\n"
		case 2:
			x := pick(g, []string{"\\", ",", ";"})
			raw.WriteString("\\" + x)
			cur += x
		case 3, 4:
			x := pick(g, []string{"x", "t", "r", "\"", ":", "a", "0", "é", "😀", " ", "\t", "^", "/", "'", "T", "u"})
			if g.in(2) {
				x = string(rune(g.span(0x20, 0x7e)))
			}
			if strings.Contains("\\,;nN", x) {
				x = "-"
			}
			raw.WriteString("\\" + x)
			cur += "\\" + x
		case 5:
			x := pick(g, []string{"a", "n", "N", "\"", ":", "^", " ", "世"})
			raw.WriteString(x)
			cur += x
		case 6:
			if k == kMText {
				raw.WriteString(",")
				items[len(items)-1] = Str(cur)
				items = append(items, "")
				cur = ""
			}
		}
	}
	// nor is one at the very end
	if g.in(5) {
		raw.WriteString("\\")
		cur += "\\"
	}
	items[len(items)-1] = Str(cur)
	v := Val{K: k, S: items[0]}
	if k == kMText {
		v = Val{K: k, L: items}
	}
	m := g.focused(p, k, func() Val { return v })
	s := g.style(pick(g, []string{"", "f"}))
	lines := s.lines(m)
	for _, t := range find(lines, p) {
		head, _ := splitLine(lines[t.Line].Text)
		lines[t.Line].Text = head + ":" + raw.String()
	}
	return &Case{How: "spell", Model: m, Models: []*Comp{control(m, p)}, Doc: Str(s.doc(lines)), Note: note("spelled %q", raw.String())}
}

// ---- C17 ----

var foldTimes = []Tm{
	{Y: 2024, Mo: 11, D: 3, H: 1, Mi: 30, S: 0, Zone: "America/New_York"}, {Y: 2024, Mo: 10, D: 27, H: 1, Mi: 0, S: 0, Zone: "Europe/London"},
	{Y: 2024, Mo: 10, D: 27, H: 1, Mi: 59, S: 59, Zone: "Europe/London"}, {Y: 2024, Mo: 4, D: 7, H: 1, Mi: 45, S: 0, Zone: "Australia/Lord_Howe"},
	{Y: 2023, Mo: 10, D: 29, H: 1, Mi: 15, S: 7, Zone: "Europe/Dublin"}, {Y: 1883, Mo: 11, D: 18, H: 12, Mi: 0, S: 0, Zone: "America/New_York"},
}

func (g *G) foldTime(k kind) Val {
	t := pick(g, foldTimes)
	v := Val{K: k, T: &t}
	switch k {
	case kPeriod:
		v.D = &Dur{H: 1}
	case kRecur:
		v = Val{K: k, R: &Rec{Freq: 3, Until: &t, UntilTime: true}}
	}
	return v
}

func (g *G) drawTime(def *propDef, k kind) Val {
	if k != kRecur {
		return g.val(def, k)
	}
	r := &Rec{Freq: g.u(7), Until: g.tm(g.zones()), UntilTime: true}
	if g.in(3) {
		r.UntilTime = false
		if !g.Loose {
			r.Until = g.tm(zUTC)
			r.Until.H, r.Until.Mi, r.Until.S = 0, 0, 0
		}
		if r.Until.Y == 1 {
			r.Until.Y = 2
		}
	}
	return Val{K: k, R: r}
}

// ---- parameters: C16, C21, C22 ----

type paramCheck struct {
	kinds []paramKind
	modes []string
}

func (v *paramCheck) sites() []string {
	var out []string
	for _, p := range allPairs() {
		if p.Prop == "" {
			continue
		}
		for _, n := range defOf(p.Comp, p.Prop).Params {
			for _, k := range v.kinds {
				if paramDefs[n].Kind == k {
					for _, m := range v.modes {
						if m == "chars" && k == pFmt {
							continue
						}
						out = append(out, fmt.Sprintf("%s|;%s|%s", p, n, m))
					}
				}
			}
		}
	}
	return out
}

func (g *G) drawParam(def *paramDef) Param {
	p := g.param(def)
	if g.bool() {
		return p
	}
	dense := func() Str {
		var b strings.Builder
		for n := 1 + g.n(6); n > 0; n-- {
			b.WriteString(pick(g, specials))
		}
		return Str(b.String())
	}
	switch def.Kind {
	case pText, pQText:
		p.Vals = []Str{dense()}
	case pQTexts:
		p.Vals = nil
		for n := 1 + g.n(3); n > 0; n-- {
			p.Vals = append(p.Vals, dense())
		}
	}
	return p
}

func (v *paramCheck) gen(g *G, site string) *Case {
	p := parsePair(site)
	f := strings.Split(site, "|")
	def, mode := paramDefs[f[1][1:]], f[2]
	if mode == "chars" {
		return g.genChars(p, "", def.Name)
	}
	g.Loose = mode == "trip" && g.in(3)
	pd := defOf(p.Comp, p.Prop)
	k := pick(g, pd.Kinds)
	m := g.focused(p, k, func() Val {
		if g.in(3) {
			return g.val(pd, k)
		}
		return simpleVal(pd, k)
	})
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			if c.Props[i].Name != p.Prop {
				continue
			}
			for _, n := range pd.Params {
				if n == def.Name {
					c.Props[i].Params = append(c.Props[i].Params, g.drawParam(def))
				} else if g.in(3) {
					c.Props[i].Params = append(c.Props[i].Params, g.param(paramDefs[n]))
				}
			}
		}
	}
	if (mode == "trip" || mode == "spell") && g.in(5) {
		for _, c := range findComp(m, p.Comp) {
			for i := range c.Props {
				if c.Props[i].Name == p.Prop {
					g.echoProp(&c.Props[i])
				}
			}
		}
	}
	switch mode {
	case "trip":
		return &Case{How: "trip", Model: m, Models: []*Comp{bare(m, p)}}
	case "spell":
		s := g.style(pick(g, []string{"s", "so", "so", "sf"}))
		return &Case{How: "spell", Model: m, Models: []*Comp{bare(m, p)}, Doc: Str(s.doc(s.lines(m)))}
	case "edit":
		s := g.style("")
		lines := s.lines(m)
		t := g.target(lines, p)
		head, value := splitLine(lines[t.Line].Text)
		for try := 0; try < 10; try++ {
			h := g.edit(head, []string{"^n", "^^", "^'", "^", "^x", "^N", "n", "'", "a", " ", "\t", "é", ";X-A=b", ";X-B=\"c;d:e,f\"", ",\"x\"", "=", "\\n", "\\"})
			if strings.ContainsAny(h, "\r\n") || h == head || h == "" || h[0] == ' ' || h[0] == '\t' {
				continue
			}
			lines[t.Line].Text = h + ":" + value
			if judgeDoc(s.doc(lines)).V == vAccept {
				return &Case{How: "judged", Doc: Str(s.doc(lines)), Models: []*Comp{bare(m, p)}, Note: note("edited parameters: %s", h)}
			}
		}
		lines[t.Line].Text = head + ":" + value
		return &Case{How: "spell", Model: m, Models: []*Comp{bare(m, p)}, Doc: Str(s.doc(lines))}
	case "refuse":
		b := cloneComp(m)
		how := g.plant(b, p, "param "+def.Name)
		return &Case{How: "refuse", Model: b, Models: []*Comp{m}, Note: how}
	case "keywords":
		c := &Case{How: "keywords", Model: bare(m, p), Note: "param " + def.Name}
		for n := 0; n < 24; n++ {
			c.Ops = append(c.Ops, g.u(256))
		}
		return c
	}
	bad("mode %q", mode)
	return nil
}

// ---- C21 ----

// opsChooser draws from stored numbers, so that a case needs no generator.
type opsChooser struct {
	ops []int
	i   int
}

func (o *opsChooser) n(k int) int {
	if k <= 1 || len(o.ops) == 0 {
		return 0
	}
	o.i++
	return o.ops[o.i%len(o.ops)] % k
}

// synonyms are words that could be taken for keywords.
var synonyms = []string{
	"SECRET", "RESTRICTED", "OPEN", "PERSONAL", "HIDDEN", "DEFAULT", "NONE", "NULL", "OTHER", "YES", "NO", "TRUE", "FALSE", "0", "1", "2", "3", "-1", "-",
	"OPTIONAL", "REQUIRED", "REQ", "OPT", "NON", "OBSERVER", "PARTICIPANT", "ORGANIZER", "OWNER", "MODERATOR", "HOST", "ATTENDEE", "REQUIRED-PARTICIPANT", "OPTIONAL-PARTICIPANT", "INFORMATIONAL", "FYI",
	"ACCEPT", "DECLINE", "REJECTED", "REFUSED", "CANCELED", "CANCEL", "PENDING", "NEEDSACTION", "NEEDS ACTION", "NEEDS_ACTION", "MAYBE", "DONE", "COMPLETE", "CLOSED", "STARTED", "INPROCESS", "IN_PROCESS", "IN-PROGRESS", "INPROGRESS", "PROVISIONAL", "CONFIRM", "POSTPONED", "DEFERRED", "INVITED",
	"USER", "PERSON", "HUMAN", "TEAM", "LIST", "EQUIPMENT", "PLACE", "LOCATION", "MEETING-ROOM", "CALENDAR", "SYSTEM",
	"OUT-OF-OFFICE", "OOF", "WORKING-ELSEWHERE", "UNAVAILABLE", "AVAILABLE", "BUSY-OUT", "BUSY-UNAVAIL", "BUSYTENTATIVE", "TENTATIVELY", "NOT-BUSY",
	"VISIBLE", "INVISIBLE", "OPAC", "TRANSPARENCY", "BLOCKING", "ANY", "ALL", "FINISHED", "BEGIN", "STOP", "START-TIME", "END-TIME", "DTSTART", "DTEND",
	"MOTHER", "FATHER", "PARENTS", "CHILDREN", "BROTHER", "SISTER", "NEXT", "PREV", "DEPENDS-ON", "REFID", "CONCEPT", "FINISHTOSTART", "STARTTOSTART", "SNOOZE",
	"SERVER-SIDE", "AUTO", "MANUAL", "SMTP", "THISANDPRIOR", "X-OTHER", "IANA-TOKEN", "IANA",
}

// near gives words close to a keyword, keywords of other enumerations and
// plausible words, none of which are keywords.
func near(words []string, n int) []string {
	var out []string
	is := func(w string) bool {
		for _, x := range words {
			if upper(x) == upper(w) {
				return true
			}
		}
		return false
	}
	for i, w := range words {
		j := (n + i) % len(w)
		for _, x := range []string{w + "X", "X-" + w, w[:len(w)-1], w[1:], w[:j] + w[j+1:], w[:j] + "Q" + w[j:], w[:j] + "-" + w[j:], w + "-" + w, "X"} {
			if x != "" && !is(x) && upper(x) != "UNKNOWN" {
				out = append(out, x)
			}
		}
	}
	seen := map[string]bool{}
	also := func(l []string) {
		for _, x := range l {
			if !is(x) && x != "UNKNOWN" && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	also(synonyms)
	for _, d := range propDefs {
		also(d.Enum)
	}
	for _, d := range paramDefs {
		also(d.Enum)
	}
	sort.Strings(out)
	return out
}

// runKeywords tries every keyword of one enumeration in one place.
func runKeywords(c *Case, o *obs) string {
	p := parsePair(c.Site)
	ch := &opsChooser{ops: c.Ops}
	var words []string
	pname := ""
	if strings.HasPrefix(c.Note, "param ") {
		pname = c.Note[6:]
		words = paramDefs[pname].Enum
	} else {
		words = defOf(p.Comp, p.Prop).Enum
	}
	// set gives the model with the keyword in the focused place
	set := func(word string, raw *int) *Comp {
		m := cloneComp(c.Model)
		for _, x := range findComp(m, p.Comp) {
			for i := range x.Props {
				q := &x.Props[i]
				if q.Name != p.Prop {
					continue
				}
				if pname != "" {
					q.Params = []Param{{Name: pname, Vals: []Str{Str(word)}, Raw: raw}}
				} else if raw != nil {
					q.Val = Val{K: kEnum, Bad: "range", I: int64(*raw)}
				} else {
					q.Val = Val{K: kEnum, S: Str(word)}
				}
			}
		}
		return m
	}
	ctl := c.Model
	if pname == "" {
		ctl = control(c.Model, p)
	}
	if fail := tripBoth(ctl); fail != "" {
		o.label("control fails")
		return ""
	}
	ctlDoc := decodeTo(renderPlain(ctl), canon(ctl)) == ""
	o.Nontrivial = true
	for _, w := range words {
		m := set(w, nil)
		if fail := tripBoth(m); fail != "" {
			return fmt.Sprintf("keyword %s: %s", w, fail)
		}
		if ctlDoc {
			s := &style{c: ch, Case: true}
			if fail := decodeTo(s.doc(s.lines(m)), canon(m)); fail != "" {
				return fmt.Sprintf("keyword %s: %s", w, fail)
			}
		}
		o.label("keyword " + w)
	}
	if !ctlDoc {
		return ""
	}
	for _, w := range near(words, c.Ops[0]) {
		m := set(w, nil)
		doc := renderPlain(m)
		if pname != "" {
			// unknown to this parameter
			if fail := decodeTo(doc, canon(set("UNKNOWN", nil))); fail != "" {
				return fmt.Sprintf("unknown keyword %s: %s", w, fail)
			}
		} else if fail := mustReject(doc); fail != "" {
			return fmt.Sprintf("unknown keyword %s: %s", w, fail)
		}
	}
	if pname != "" {
		if fail := tripBoth(set("UNKNOWN", nil)); fail != "" {
			return "unknown constant: " + fail
		}
		if doc, err, fail := encode(build(set("UNKNOWN", nil))); err != nil || fail != "" || !strings.Contains(strings.ReplaceAll(doc, "\r\n ", ""), ";"+pname+"=UNKNOWN") {
			return "unknown constant not written as such: " + clip(doc)
		}
		return ""
	}
	def := defOf(p.Comp, p.Prop)
	named := map[int]bool{}
	for i := range words {
		named[int(enumConst(def.Name, i))] = true
	}
	for n := 0; n < 256; n++ {
		if named[n] {
			continue
		}
		n := n
		if _, err, fail := encode(build(set("", &n))); fail != "" || err == nil {
			return fmt.Sprintf("constant %d was encoded: %s", n, fail)
		}
	}
	return ""
}

func enumSites() []string {
	var out []string
	for _, s := range pairsWith(func(d *propDef) bool { return hasKind(d, kEnum) }) {
		out = append(out, s+"|enum|keywords", s+"|enum|edit", s+"|enum|sweep")
	}
	return append(out, (&paramCheck{kinds: []paramKind{pEnum}, modes: []string{"keywords"}}).sites()...)
}

func genEnum(g *G, site string) *Case {
	if strings.Contains(site, "|;") {
		return (&paramCheck{}).gen(g, site)
	}
	p := parsePair(site)
	def := defOf(p.Comp, p.Prop)
	m := g.focused(p, kEnum, func() Val { return g.val(def, kEnum) })
	if strings.HasSuffix(site, "|sweep") {
		return g.anySweep(site)
	}
	if strings.HasSuffix(site, "|edit") {
		return g.edited(m, p, kEnum, true)
	}
	c := &Case{How: "keywords", Model: m}
	for n := 0; n < 24; n++ {
		c.Ops = append(c.Ops, g.u(256))
	}
	return c
}

// ---- C23 ----

func alarmSites() []string {
	var out []string
	for _, k := range alarmKinds {
		for _, m := range []string{"trip", "spell", "noaction", "twoactions", "noend"} {
			out = append(out, "VALARM:"+k+"/|"+m)
		}
	}
	return append(out, "/|trip", "/|spell")
}

func genAlarm(g *G, site string) *Case {
	p := parsePair(site)
	_, mode, _ := strings.Cut(site, "|")
	switch mode {
	case "noaction", "twoactions", "noend":
		c := genStructure(g, site)
		c.How = "reject"
		return c
	}
	m := g.calendar("", "", false)
	for n := 1 + g.n(3); n > 0; n-- {
		e := g.component(pick(g, []string{"VEVENT", "VTODO"}), "", 16, 0)
		for k := g.n(5); k > 0; k-- {
			name := p.Comp
			if name == "" || g.in(3) {
				name = "VALARM:" + pick(g, alarmKinds)
			}
			e.Subs = append(e.Subs, g.component(name, "", pick(g, []int{2, 4, 12}), 0))
			if g.in(4) {
				e.Subs = append(e.Subs, *cloneComp(&e.Subs[len(e.Subs)-1]))
			}
		}
		m.Subs = append(m.Subs, e)
	}
	without := cloneComp(m)
	for i := range without.Subs {
		without.Subs[i].Subs = nil
	}
	c := &Case{How: mode, Model: m, Models: []*Comp{without}}
	if mode == "trip" {
		return c
	}
	s := g.style(pick(g, []string{"o", "os", "osf", "uo", "co"}))
	c.Doc = Str(s.doc(s.lines(m)))
	return c
}

// ---- C24 ----

func genStable(g *G, site string) *Case {
	p := parsePair(site)
	c := &Case{}
	if strings.HasSuffix(site, "|sweep") {
		return g.anySweep(site)
	}
	if strings.HasSuffix(site, "|model") {
		g.Loose = true
		c.Model = g.calendar(p.Comp, p.Prop, true)
		return c
	}
	m := g.calendar(p.Comp, p.Prop, g.bool())
	s := g.style(pick(g, []string{"os", "os", "uos", "osf", "cos"}))
	lines := s.lines(m)
	if strings.HasSuffix(site, "|edit") {
		c.Mode = 1 // whether it can be encoded is not known
		t := g.target(lines, p)
		head, value := splitLine(lines[t.Line].Text)
		v := g.mutVal(t.Prop.Val.K, value)
		if g.in(3) {
			head = g.edit(head, []string{";X-A=b", ";VALUE=DATE", ";TZID=Europe/Paris", ";TZID=UTC", ";TZID=Local", ";TZID=", "^n", "^'", "^", "a", "Z"})
		}
		if !strings.ContainsAny(head+v, "\r\n") && head != "" && head[0] != ' ' && head[0] != '\t' {
			lines[t.Line].Text = head + ":" + v
		}
	}
	c.Doc = Str(s.doc(lines))
	return c
}

// writable reports whether a text conforms and holds nothing that can be read
// but not written: the zero time, which stands for a time that is not set, and
// periods that do not run forward.
func writable(doc string) bool {
	j := judgeDoc(doc)
	if j.V != vAccept {
		return false
	}
	ok := true
	zero := func(t *Tm) bool { return t != nil && t.Y <= 1 }
	var walk func(c *Comp)
	walk = func(c *Comp) {
		for i := range c.Props {
			v := &c.Props[i].Val
			switch v.K {
			case kDate, kDateTime:
				ok = ok && !zero(v.T)
			case kPeriod:
				ok = ok && !zero(v.T) && !zero(v.E)
				if v.E != nil {
					ok = ok && v.E.Time().After(v.T.Time()) && v.T.Zone == v.E.Zone
				}
			case kRecur:
				ok = ok && !zero(v.R.Until)
			}
		}
		for i := range c.Subs {
			walk(&c.Subs[i])
		}
	}
	walk(j.Model)
	return ok
}

func runStable(c *Case, o *obs) string {
	if c.How == "sweep" {
		return sweep(c, kind(strings.Split(c.Site, "|")[1]), func(_, doc string) string {
			d := &Case{Doc: Str(doc), Mode: 1}
			var o2 obs
			fail := runStable(d, &o2)
			if o2.Nontrivial {
				o.Nontrivial = true
				o.each(doc)
			}
			if fail != "" {
				o.Narrow = d
			}
			return fail
		})
	}
	var cal *ics.Calendar
	if c.Model != nil {
		cal = build(c.Model)
		a, err, fail := encode(cal)
		if fail != "" || err != nil {
			o.label("not encodable")
			return ""
		}
		o.Nontrivial = true
		for i := 0; i < 3; i++ {
			x := cal
			if i > 0 {
				x = build(c.Model)
			}
			b, err, fail := encode(x)
			if fail != "" || err != nil || b != a {
				return fmt.Sprintf("the same calendar encoded again differs: %v %s", err, diff(a, b))
			}
		}
		c = &Case{Doc: Str(a), Mode: 1}
	}
	cal, err, fail := decodeString(string(c.Doc))
	if fail != "" || err != nil {
		o.label("not decodable")
		return ""
	}
	want := canon(extract(cal))
	first, err, fail := encode(cal)
	if fail != "" {
		return fail
	}
	if err != nil {
		if c.Mode == 1 && !writable(string(c.Doc)) {
			o.label("decoded but not encodable")
			return ""
		}
		return fmt.Sprintf("the decoded calendar cannot be encoded: %v", err)
	}
	o.Nontrivial = true
	if fail := decodeTo(first, want); fail != "" {
		return "re-encoded text: " + fail + "\nencoded as " + clip(first)
	}
	cal2, err, fail := decodeString(first)
	if err != nil || fail != "" {
		return fmt.Sprintf("re-encoded text decodes only once: %v %s", err, fail)
	}
	second, err, fail := encode(cal2)
	if fail != "" || err != nil {
		return fmt.Sprintf("cannot be encoded again: %v %s", err, fail)
	}
	if second != first {
		return "encoding again gives different text: " + diff(first, second)
	}
	return ""
}

func init() {
	rule := "the control (the same input without the value in question) behaves; counted once per distinct input"
	add := func(id string, quick, thorough int, sites func() []string, gen func(*G, string) *Case) {
		register(&check{ID: id, Rule: rule, Quick: quick, Thorough: thorough, Sites: sites, Gen: gen, Run: runValue})
	}
	text := &valueCheck{kinds: []kind{kText, kMText}, modes: []string{"trip", "spell", "edit", "escape", "sweep", "chars"}, draw: (*G).drawText}
	add("C15", 130, 2000, text.sites, text.gen)
	params := &paramCheck{kinds: []paramKind{pText, pQText, pQTexts, pQURI, pQAddrs, pFmt}, modes: []string{"trip", "spell", "edit", "chars"}}
	add("C16", 100, 1500, func() []string {
		out := params.sites()
		last := ""
		for _, s := range out[:len(out):len(out)] {
			if p := parsePair(s).String(); p != last {
				out, last = append(out, p+"|head|sweep"), p
			}
		}
		return out
	}, func(g *G, site string) *Case {
		if strings.HasSuffix(site, "|head|sweep") {
			return g.anySweep(site)
		}
		return params.gen(g, site)
	})
	times := &valueCheck{kinds: []kind{kDate, kDateTime, kPeriod, kRecur}, modes: []string{"trip", "spell", "edit", "fold", "zones", "sweep"}, draw: (*G).drawTime}
	add("C17", 200, 3000, func() []string {
		var out []string
		for _, s := range times.sites() {
			if !strings.HasSuffix(s, "|date|fold") && !strings.HasSuffix(s, "|date|zones") {
				out = append(out, s)
			}
		}
		return out
	}, times.gen)
	durs := &valueCheck{kinds: []kind{kDuration, kPeriod}, modes: []string{"trip", "spell", "edit", "refuse", "sweep"}, rejects: true}
	add("C18", 500, 6000, durs.sites, durs.gen)
	recs := &valueCheck{kinds: []kind{kRecur}, modes: []string{"trip", "spell", "edit", "refuse", "sweep"}, rejects: true}
	add("C19", 1200, 15000, recs.sites, recs.gen)
	nums := &valueCheck{kinds: []kind{kInteger, kOffset, kGeo, kBool, kBinary}, modes: []string{"trip", "spell", "edit", "refuse", "sweep"}, rejects: true}
	add("C20", 350, 4000, nums.sites, nums.gen)
	add("C21", 80, 800, enumSites, genEnum)
	uris := &valueCheck{kinds: []kind{kURI, kAddr}, modes: []string{"trip", "spell", "edit", "refuse", "sweep", "chars"}}
	uriParams := &paramCheck{kinds: []paramKind{pQURI, pQAddrs}, modes: []string{"trip", "spell", "refuse"}}
	add("C22", 130, 1800, func() []string { return append(uris.sites(), uriParams.sites()...) }, func(g *G, site string) *Case {
		if strings.Contains(site, "|;") {
			return uriParams.gen(g, site)
		}
		return uris.gen(g, site)
	})
	add("C23", 1500, 15000, alarmSites, genAlarm)
	register(&check{ID: "C24", Rule: "the input decodes (or encodes) and the result can be encoded; counted once per distinct input", Quick: 40, Thorough: 1000,
		Sites: func() []string {
			var out []string
			for _, s := range pairStrings() {
				out = append(out, s, s+"|model")
				if !strings.HasSuffix(s, "/") {
					out = append(out, s+"|edit")
				}
			}
			return append(out, sweepSites()...)
		}, Gen: genStable, Run: runStable})
}
