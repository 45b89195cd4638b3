package main

import (
	"fmt"
	"io"
	"strings"
)

// runReject wants the damaged text to be rejected. The sound text must decode,
// so that the damage and nothing else is the reason.
func runReject(c *Case, o *obs) string {
	if _, ok := baseline(c.Doc2, o); !ok {
		return ""
	}
	if c.Mode == 0 {
		j := judgeDoc(string(c.Doc))
		if j.V != vReject {
			bad("damage %q of %q is not judged as such: %d %s", c.Note, c.Doc, j.V, j.Open)
		}
		for k := range j.Classes {
			o.label("damage " + k)
		}
	}
	how, _, _ := strings.Cut(c.Note, ":")
	o.label("how " + how)
	o.Nontrivial = true
	return mustReject(string(c.Doc))
}

func c07Sites() []string {
	var out []string
	for _, c := range compList {
		for _, u := range c.Props {
			if u.Card == one {
				out = append(out, c.Name+"/"+u.Name+"|missing")
			}
			if u.Card != many {
				out = append(out, c.Name+"/"+u.Name+"|repeated")
			}
		}
		for _, s := range []string{"noend", "wrongend", "wrongbegin", "extraend", "extrabegin", "cut", "edits", "unknown"} {
			out = append(out, c.Name+"/|"+s)
		}
		if isAlarm(c.Name) {
			out = append(out, c.Name+"/|noaction", c.Name+"/|twoactions")
		}
	}
	for i, r := range rules {
		out = append(out, fmt.Sprintf("%s/|rule %d", r.Comp, i))
	}
	return append(out, "VCALENDAR/|firstline")
}

func genStructure(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	m := g.calendar(p.Comp, p.Prop, g.bool())
	if g.in(6) {
		g.pad(m, p)
	}
	flags := pick(g, []string{"", "os", "uos", "f"})
	s := g.style(flags)
	lines := s.lines(m)
	c := &Case{Doc2: Str(s.doc(lines)), Note: how}
	insert := func(at int, l ...string) {
		var n []rline
		n = append(n, lines[:at]...)
		for _, x := range l {
			n = append(n, rline{lines[0].Comp, -4, x})
		}
		lines = append(n, lines[at:]...)
	}
	remove := func(at int) { lines = append(lines[:at:at], lines[at+1:]...) }
	// the lines of one instance of the focused component
	var begins, ends []int
	for i, l := range lines {
		if l.Comp.Name == p.Comp && l.Prop == -1 && (p.Prop == "" || l.Comp.has(p.Prop)) {
			begins = append(begins, i)
			for j := i; ; j++ {
				if lines[j].Comp == l.Comp && lines[j].Prop == -2 {
					ends = append(ends, j)
					break
				}
			}
		}
	}
	which := g.u(len(begins))
	begin, end := begins[which], ends[which]
	inst := lines[begin].Comp
	// where, between the lines of this component but not within others, a
	// line may be put
	gap := func() int {
		var at []int
		depth := 0
		for i := begin + 1; i <= end; i++ {
			if depth == 0 {
				at = append(at, i)
			}
			// unknown components carry their own nesting
			n, _, _ := strings.Cut(lines[i].Text, ":")
			switch strings.ToUpper(n) {
			case "BEGIN":
				depth++
			case "END":
				depth--
			}
		}
		return at[g.u(len(at))]
	}
	propLine := func(name string) int {
		for i := begin; i < end; i++ {
			if lines[i].Comp == inst && lines[i].Prop >= 0 && inst.Props[lines[i].Prop].Name == name {
				return i
			}
		}
		bad("no %s in %s", name, inst.Name)
		return 0
	}
	render := func(name string) string {
		q := g.prop(p.Comp, name, false)
		return s.prop(p.Comp, &q)
	}
	switch kind, arg, _ := strings.Cut(how, " "); kind {
	case "missing":
		remove(propLine(p.Prop))
	case "repeated":
		i := propLine(p.Prop)
		t := lines[i].Text
		if g.bool() {
			t = render(p.Prop)
		}
		insert(gap(), t)
	case "noend":
		remove(end)
	case "wrongend":
		n, _, _ := strings.Cut(p.Comp, ":")
		lines[end].Text = s.kw("END") + ":" + g.otherName(n)
	case "wrongbegin":
		n, _, _ := strings.Cut(p.Comp, ":")
		lines[begin].Text = s.kw("BEGIN") + ":" + g.otherName(n)
	case "extraend":
		n, _, _ := strings.Cut(p.Comp, ":")
		at := gap()
		if p.Comp == "VCALENDAR" {
			n = pick(g, []string{"VEVENT", "X", "VALARM"})
		}
		if g.bool() {
			n = pick(g, []string{"VEVENT", "X", "VALARM", "STANDARD"})
			for n == strings.Split(p.Comp, ":")[0] {
				n = "X"
			}
			insert(at, "END:"+n)
		} else {
			// a second end after the real one
			insert(end, "END:"+n)
		}
	case "extrabegin":
		insert(gap(), "BEGIN:"+pick(g, []string{"X-FOO", "VPOLL", "", "VEVENTX", "VFOO", "EVENT", "TODO", "ALARM", "TIMEZONE", "VSTANDARD", "VDAYLIGHT", "CALENDAR", "JOURNAL", "FREEBUSY"}))
	case "unknown":
		if isAlarm(p.Comp) {
			// what an alarm may contain is left open; damage the surroundings
			c.Note = "unterminated unknown component"
			insert(len(lines)-1, "BEGIN:X-FOO", "SUMMARY:x")
			break
		}
		at := gap()
		switch g.n(5) {
		case 0:
			insert(at, "BEGIN:X-FOO", "SUMMARY:x")
		case 1:
			n := pick(g, []string{"X-FOO", "VPOLL", "X", "VAVAILABILITY"})
			insert(at, "BEGIN:"+n, "END:"+g.otherName(n))
		case 2:
			insert(at, "BEGIN:X-FOO", "BEGIN:X-BAR", "END:X-FOO", "END:X-BAR")
		case 3:
			insert(at, "BEGIN:X-FOO", "BEGIN:X-BAR", "END:X-FOO")
		case 4:
			insert(at, "BEGIN:X-FOO", "BEGIN:X-BAR", "X:y", "END:X-BAR", "END:X-FO")
		}
		c.Note = "broken unknown component"
	case "cut":
		c.Mode = 1
		doc := string(c.Doc2)
		whole := len(strings.TrimRight(doc, "\r\n \t"))
		k := g.n(whole)
		switch g.n(3) {
		case 0: // anywhere
			k = g.u(whole)
		case 1: // at a line
			k = len(s.doc(lines[:g.u(len(lines))]))
			if k >= whole || strings.Contains(flags, "f") {
				k = g.u(whole)
			}
		}
		c.Doc = Str(doc[:k])
		c.Note = note("cut: at %d of %d", k, whole)
		return c
	case "firstline":
		switch g.n(6) {
		case 0:
			remove(0)
		case 1:
			lines[0].Text = "BEGIN:" + pick(g, []string{"VEVENT", "VCALENDARS", "", "X", "VCARD", "VCALENDA"})
		case 2:
			insert(0, pick(g, []string{"VERSION:2.0", "X-A:b", "END:VCALENDAR", "PRODID:x"}))
		case 3:
			insert(0, "BEGIN:X-FOO", "END:X-FOO")
		case 4:
			lines[0].Text = "END:VCALENDAR"
		case 5:
			lines[0].Text = "X-BEGIN:VCALENDAR"
		}
	case "noaction", "twoactions":
		at := -1
		for i := begin; i < end; i++ {
			if lines[i].Comp == inst && lines[i].Prop == -3 {
				at = i
			}
		}
		if kind == "noaction" {
			remove(at)
		} else {
			insert(gap(), s.kw("ACTION")+":"+s.kw(pick(g, alarmKinds)))
		}
	case "rule":
		var n int
		fmt.Sscan(arg, &n)
		r := rules[n]
		c.Note = note("rule: %s %s %s", r.Kind, r.A, r.B)
		// make the opposite true by editing the model and rendering again
		broken := cloneComp(m)
		bs := findComp(broken, p.Comp)
		b := bs[g.u(len(bs))]
		g.breakRule(b, r)
		lines = s.lines(broken)
	case "edits":
		for try := 0; try < 10; try++ {
			e := g.lineEdits(texts(lines))
			doc := join(e)
			if j := judgeDoc(doc); j.V == vReject && j.Classes["structure"] {
				c.Doc, c.Note = Str(doc), note("edits: %s", j.Why)
				return c
			}
		}
		remove(end)
		c.Note = "noend"
	default:
		bad("how %q", how)
	}
	c.Doc = Str(s.doc(lines))
	return c
}

// otherName is a component's name that is not the given one.
func (g *G) otherName(n string) string {
	i := g.u(len(n))
	l := []string{"", "X-FOO", "VCALENDARX", "XVCALENDAR", n + "S", n + " ", " " + n, n[:len(n)-1], n[1:], "V" + n, "X-" + n, n + "X", n[:i] + n[i+1:], n[:i] + "X" + n[i:], n[:i] + "X" + n[i+1:], n + n, n + ",", n + ";X", "\"" + n + "\""}
	for _, c := range compList {
		x, _, _ := strings.Cut(c.Name, ":")
		l = append(l, x)
	}
	for {
		if w := pick(g, l); upper(w) != upper(n) {
			return w
		}
	}
}

// breakRule changes a component so that it breaks the rule and nothing else.
func (g *G) breakRule(b *Comp, r rule) {
	need := func(name string) {
		if !b.has(name) {
			b.Props = append(b.Props, g.prop(b.Name, name, false))
		}
	}
	switch r.Kind {
	case "excl":
		need(r.A)
		need(r.B)
		if b.Name == "VTODO" {
			need("DTSTART")
		}
	case "needs":
		need(r.A)
		b.drop(r.B)
		if b.Name == "VTODO" && r.A == "DURATION" {
			b.drop("DUE")
		}
	case "both":
		need(r.A)
		need(r.B)
		if g.bool() {
			b.drop(r.A)
		} else {
			b.drop(r.B)
		}
	case "oneof":
		b.Subs = nil
	}
}

func cloneComp(c *Comp) *Comp {
	n := *c
	n.Props = append([]Prop(nil), c.Props...)
	n.Subs = nil
	for i := range c.Subs {
		n.Subs = append(n.Subs, *cloneComp(&c.Subs[i]))
	}
	return &n
}

// findComp gives the components of one name.
func findComp(c *Comp, name string) []*Comp {
	var out []*Comp
	if c.Name == name {
		out = append(out, c)
	}
	for i := range c.Subs {
		out = append(out, findComp(&c.Subs[i], name)...)
	}
	return out
}

// ---- C08 ----

func c08Sites() []string {
	var out []string
	for _, p := range allPairs() {
		if p.Prop == "" {
			continue
		}
		def := defOf(p.Comp, p.Prop)
		for _, k := range def.Kinds {
			out = append(out, p.String()+"|value "+string(k))
		}
		for _, n := range def.Params {
			out = append(out, p.String()+"|param "+n)
		}
		out = append(out, p.String()+"|head|sweep")
		if len(def.Kinds) > 1 {
			out = append(out, p.String()+"|type")
		}
		out = append(out, p.String()+"|head")
	}
	for _, c := range compList {
		out = append(out, c.Name+"/|line", c.Name+"/|line edit")
	}
	return out
}

// withKind gives the focused properties of the model a value of that kind.
func (g *G) withKind(m *Comp, p pair, k kind) {
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			if c.Props[i].Name == p.Prop && c.Props[i].Val.K != k {
				c.Props[i].Val = g.val(defOf(p.Comp, p.Prop), k)
			}
		}
	}
}

func genMalformed(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	what, arg, _ := strings.Cut(how, " ")
	m := g.calendar(p.Comp, p.Prop, g.in(3))
	if g.in(8) {
		g.pad(m, p)
	}
	if what == "value" {
		g.withKind(m, p, kind(arg))
	}
	s := g.style(pick(g, []string{"", "", "o", "os", "uo", "c"}))
	lines := s.lines(m)
	c := &Case{Doc2: Str(s.doc(lines))}
	if what == "line" {
		c.Note = g.brokenLine(&lines, arg == "edit")
		c.Doc = Str(s.doc(lines))
		return c
	}
	sound := append([]rline(nil), lines...)
	t := g.target(lines, p)
	head, value := splitLine(lines[t.Line].Text)
	def := defOf(p.Comp, p.Prop)
	switch what {
	case "value":
		v, made := g.badValue(def, kind(arg), value, zoneOf(&t.Prop.Val))
		lines[t.Line].Text = head + ":" + v
		c.Note = note("%s: %q", made, v)
		if k := kind(arg); (k == kDateTime || k == kPeriod) && zoneOf(&t.Prop.Val) != "" && g.in(4) {
			// a named zone on a time marked as UTC
			if k == kDateTime {
				lines[t.Line].Text = head + ":" + value + "Z"
			} else {
				a, b, _ := strings.Cut(value, "/")
				lines[t.Line].Text = head + ":" + a + "Z/" + b
			}
			c.Note = "zone and UTC"
		}
	case "param":
		for i := range t.Prop.Params {
			if t.Prop.Params[i].Name == arg {
				// spell the line again without it
				q := *t.Prop
				q.Params = append(append([]Param(nil), q.Params[:i]...), q.Params[i+1:]...)
				head, value = splitLine(s.prop(p.Comp, &q))
				break
			}
		}
		v, made := g.badParam(paramDefs[arg])
		name, rest, _ := strings.Cut(head, ";")
		if rest != "" {
			rest = ";" + rest
		}
		if g.bool() {
			lines[t.Line].Text = name + ";" + v + rest + ":" + value
		} else {
			lines[t.Line].Text = name + rest + ";" + v + ":" + value
		}
		c.Note = note("%s: %s", made, v)
	case "type":
		name, rest, _ := strings.Cut(head, ";")
		var keep []string
		if rest != "" {
			for _, x := range splitParams(rest) {
				if !strings.HasPrefix(strings.ToUpper(x), "VALUE=") {
					keep = append(keep, x)
				}
			}
		}
		own := valueNames[t.Prop.Val.K]
		v := pick(g, []string{"VALUE=X-FOO", "VALUE=", "VALUE=TEXT", "VALUE=INTEGER", "VALUE=" + own + ";VALUE=" + own, "VALUE=" + own + "," + own, "VALUE=" + own + ",X", "VALUE=," + own, "VALUE=" + own + "X", "VALUE=X" + own, "VALUE=FLOAT", "VALUE=BOOLEAN", "VALUE=CAL-ADDRESS", "VALUE=DATETIME", "VALUE=DATE-TIMES", "VALUE=DATES", "VALUE=TIME", "VALUE=TIMESTAMP", "VALUE=BASE64", "VALUE=URL", "VALUE=STRING", "VALUE=UNKNOWN", "VALUE=\"\"", "VALUE=\"X\"", "VALUE=RECUR", "VALUE=UTC-OFFSET", "VALUE=PERIODS", "VALUE=BIN", "VALUE=DURATIONS"})
		if t.Prop.Val.K == kBinary && g.bool() {
			// an encoding other than the one supported
			e := keep[:0]
			for _, x := range keep {
				if !strings.HasPrefix(strings.ToUpper(x), "ENCODING=") {
					e = append(e, x)
				}
			}
			keep, v = e, "VALUE=BINARY"+pick(g, []string{"", ";ENCODING=8BIT", ";ENCODING=7BIT", ";ENCODING=", ";ENCODING=BASE", ";ENCODING=BASE6", ";ENCODING=BASE64X", ";ENCODING=XBASE64", ";ENCODING=B", ";ENCODING=BASE32", ";ENCODING=HEX", ";ENCODING=QUOTED-PRINTABLE", ";ENCODING=BASE-64", ";ENCODING=BASE64URL", ";ENCODING=UNKNOWN", ";ENCODING=\"\"", ";ENCODING=64"})
		}
		if g.bool() && t.Prop.Val.K != kURI && t.Prop.Val.K != kBinary {
			// a supported type that does not fit the value
			for _, k := range def.Kinds {
				if k != t.Prop.Val.K {
					v = "VALUE=" + valueNames[k]
				}
			}
		}
		keep = append(keep, v)
		lines[t.Line].Text = name + ";" + strings.Join(keep, ";") + ":" + value
		c.Note = note("value type: %s", v)
	case "head":
		// random damage before the value
		found := false
		for try := 0; try < 10 && !found; try++ {
			h := g.edit(head, []string{";", "=", "\"", ",", ";X=", ";VALUE=", ";VALUE=DATE", ";ENCODING=BASE64", ";TZID=", "^", " ", ";CN=a", ";RSVP=", ";LANGUAGE=a,b", ";ALTREP=x"})
			if strings.ContainsAny(h, "\r\n") || h == "" || h[0] == ' ' || h[0] == '\t' {
				continue
			}
			l := append([]rline(nil), lines...)
			l[t.Line].Text = h + ":" + value
			j := judgeDoc(s.doc(l))
			if j.V == vReject && !j.Classes["structure"] {
				lines, found = l, true
				c.Note = note("edited name or parameters: %s", h)
			}
		}
		if !found {
			lines[t.Line].Text = head
			if !strings.Contains(head, "\"") {
				c.Note = "missing value"
			}
			lines[t.Line].Text = strings.ReplaceAll(head, ":", "")
		}
	}
	c.Doc = Str(s.doc(lines))
	// an unlucky change may have hit something the properties leave open
	if j := judgeDoc(string(c.Doc)); j.V != vReject {
		i := 1 + g.u(len(sound)-1)
		lines = append(sound[:i:i], append([]rline{{lines[0].Comp, -4, "NOCOLON"}}, sound[i:]...)...)
		c.Doc, c.Note = Str(s.doc(lines)), "fallback bad line"
	}
	return c
}

func splitParams(s string) []string {
	var out []string
	quoted := false
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			quoted = !quoted
		case ';':
			if !quoted {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

func (g *G) brokenLine(lines *[]rline, edit bool) string {
	ls := *lines
	if edit {
		for try := 0; try < 8; try++ {
			i := g.u(len(ls))
			v, how := g.badLine(ls[i].Text)
			if how != "edited line" {
				continue
			}
			n := append([]rline(nil), ls...)
			n[i].Text = v
			*lines = n
			return note("%s: %q", how, v)
		}
	}
	i := 1 + g.u(len(ls)-1)
	v, how := g.badLine(ls[i].Text)
	*lines = append(ls[:i:i], append([]rline{{ls[0].Comp, -4, v}}, ls[i:]...)...)
	if g.in(4) && !isAlarm(ls[i].Comp.Name) {
		// within an unknown component
		*lines = append(ls[:i:i], append([]rline{{ls[0].Comp, -4, "BEGIN:X-FOO"}, {ls[0].Comp, -4, v}, {ls[0].Comp, -4, "END:X-FOO"}}, ls[i:]...)...)
	}
	return note("%s: %q", how, v)
}

// ---- C06 ----

func c06Sites() []string {
	out := []string{"/|bytes", "/|lines", "/|tokens", "/|empty"}
	for _, c := range compList {
		for _, s := range []string{"octets", "lineedits", "cut", "linewise", "splice"} {
			out = append(out, c.Name+"/|"+s)
		}
	}
	for _, p := range allPairs() {
		if p.Prop != "" {
			out = append(out, p.String()+"|values", p.String()+"|line")
		}
	}
	out = append(out, sweepSites()...)
	for _, r := range recipes {
		out = append(out, "/|recipe "+r)
	}
	return out
}

var recipes = []string{"nested", "nested-alarm", "longline", "longfold", "manyparams", "manyvalues", "manyprops", "manyevents", "onlyfolds", "longname", "recurlist", "carets", "backslashes", "unterminated", "commas", "newlines", "zeros",
	"alarmlines", "unknownlines", "nestedclosed", "manyalarms", "manytodos", "manyzones", "manybusy", "busylines", "digits", "zeroes", "base64", "byday", "bylists", "rules", "longuri", "geo", "offset", "manylists", "manynames", "quotes", "params", "journal"}

// bigDoc makes inputs too big to store.
func bigDoc(recipe string, n int) string {
	head := "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n"
	tail := "END:VCALENDAR\r\n"
	ev := "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20010101T000000Z\r\n"
	end := "END:VEVENT\r\n"
	rep := strings.Repeat
	switch recipe {
	case "nested":
		return head + rep("BEGIN:X\r\n", n*4)
	case "nested-alarm":
		return head + ev + rep("BEGIN:VALARM\r\n", n)
	case "longline":
		return head + "X-A:" + rep("abcdefgh", n) + "\r\n" + tail
	case "longfold":
		return head + ev + "SUMMARY:" + rep("abcdefgh\r\n ", n) + "\r\n" + end + tail
	case "manyparams":
		return head + ev + "SUMMARY" + rep(";X-P=v", n) + ":x\r\n" + end + tail
	case "manyvalues":
		return head + ev + "ATTENDEE;MEMBER=\"a\"" + rep(",\"mailto:a@b\"", n) + ":mailto:x@y\r\n" + end + tail
	case "manyprops":
		return head + ev + rep("COMMENT:x\r\n", n) + end + tail
	case "manyevents":
		return head + rep(ev+end, n/4) + tail
	case "onlyfolds":
		return head + "X:" + rep("\r\n ", n*2) + "\r\n" + tail
	case "longname":
		return head + rep("X", n*4) + ":y\r\n" + tail
	case "recurlist":
		return head + ev + "RRULE:FREQ=DAILY;BYYEARDAY=1" + rep(",366", n) + "\r\n" + end + tail
	case "carets":
		return head + ev + "SUMMARY;LANGUAGE=\"" + rep("^n^^^'x", n) + "\":x\r\n" + end + tail
	case "backslashes":
		return head + ev + "SUMMARY:" + rep("\\\\\\n\\,", n) + "\r\n" + end + tail
	case "unterminated":
		return head + ev + "SUMMARY;LANGUAGE=\"" + rep("abcdefgh", n)
	case "commas":
		return head + ev + "CATEGORIES:" + rep(",", n*2) + "\r\n" + end + tail
	case "newlines":
		return head + rep("\r\n", n)
	case "zeros":
		return rep("\x00", n*4)
	case "alarmlines":
		return head + ev + "BEGIN:VALARM\r\n" + rep("X-A:b\r\n", n) + "ACTION:NONE\r\nEND:VALARM\r\n" + end + tail
	case "unknownlines":
		return head + "BEGIN:X\r\n" + rep("A:b\r\n", n) + "END:X\r\n" + tail
	case "nestedclosed":
		return head + rep("BEGIN:X\r\n", n) + rep("END:X\r\n", n) + tail
	case "manyalarms":
		return head + ev + rep("BEGIN:VALARM\r\nACTION:NONE\r\nEND:VALARM\r\n", n/2) + end + tail
	case "manytodos":
		return head + rep("BEGIN:VTODO\r\nUID:u\r\nDTSTAMP:20010101T000000Z\r\nEND:VTODO\r\n", n/4) + tail
	case "manyzones":
		return head + rep("BEGIN:VTIMEZONE\r\nTZID:x\r\nBEGIN:STANDARD\r\nDTSTART:20010101T000000\r\nTZOFFSETTO:+0100\r\nTZOFFSETFROM:+0200\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n", n/8) + tail
	case "manybusy":
		return head + rep("BEGIN:VFREEBUSY\r\nUID:u\r\nDTSTAMP:20010101T000000Z\r\nEND:VFREEBUSY\r\n", n/4) + tail
	case "busylines":
		return head + "BEGIN:VFREEBUSY\r\nUID:u\r\nDTSTAMP:20010101T000000Z\r\n" + rep("FREEBUSY:20010101T000000Z/PT1H\r\n", n) + "END:VFREEBUSY\r\n" + tail
	case "journal":
		return head + "BEGIN:VJOURNAL\r\nUID:u\r\nDTSTAMP:20010101T000000Z\r\n" + rep("DESCRIPTION:x\r\nCATEGORIES:a,b\r\nRDATE:20010101T000000Z\r\n", n/3) + "END:VJOURNAL\r\n" + tail
	case "digits":
		return head + ev + "DURATION:P" + rep("9", n*4) + "D\r\n" + end + tail
	case "zeroes":
		return head + ev + "PRIORITY:" + rep("0", n*4) + "1\r\n" + end + tail
	case "base64":
		return head + ev + "ATTACH;VALUE=BINARY;ENCODING=BASE64:" + rep("QUJD", n) + "\r\n" + end + tail
	case "byday":
		return head + ev + "RRULE:FREQ=YEARLY;BYDAY=MO" + rep(",-53SU", n) + "\r\n" + end + tail
	case "bylists":
		return head + ev + "RRULE:FREQ=YEARLY;BYSECOND=1" + rep(",60", n/4) + ";BYMINUTE=1" + rep(",59", n/4) + ";BYHOUR=1" + rep(",23", n/4) + ";BYMONTH=1" + rep(",12", n/4) + ";BYSETPOS=1" + rep(",-1", n/4) + ";BYWEEKNO=1" + rep(",-1", n/4) + ";BYMONTHDAY=1" + rep(",-1", n/4) + "\r\n" + end + tail
	case "rules":
		return head + ev + "RRULE:FREQ=YEARLY" + rep(";X=1", n) + "\r\n" + end + tail
	case "longuri":
		return head + ev + "URL:http://h/" + rep("a%20/", n) + "?" + rep("a=b&", n) + "\r\n" + end + tail
	case "geo":
		return head + ev + "GEO:" + rep("1", n*2) + "." + rep("1", n*2) + ";0\r\n" + end + tail
	case "offset":
		return head + "BEGIN:VTIMEZONE\r\nTZID:x\r\nBEGIN:STANDARD\r\nTZOFFSETTO:+" + rep("0", n*4) + "\r\n"
	case "manylists":
		return head + ev + rep("CATEGORIES:a,b\r\n", n) + rep("RESOURCES;LANGUAGE=x:c\r\n", n/2) + end + tail
	case "manynames":
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString("X-" + fmt.Sprint(i) + ";P" + fmt.Sprint(i) + "=1:v\r\n")
		}
		return head + ev + b.String() + end + tail
	case "quotes":
		return head + ev + "SUMMARY;X=" + rep("\"\",", n) + "\"\":x\r\n" + end + tail
	case "params":
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(";X-" + fmt.Sprint(i) + "=v")
		}
		return head + ev + "DTSTART" + b.String() + ":20010101T000000Z\r\n" + end + tail
	}
	bad("recipe %q", recipe)
	return ""
}

func genBytes(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	what, arg, _ := strings.Cut(how, " ")
	if strings.HasSuffix(site, "|sweep") {
		def, k := defOf(p.Comp, p.Prop), kind(what[:strings.IndexByte(what, '|')])
		return g.genSweep(p, k, func() Val { return g.val(def, k) })
	}
	c := &Case{Note: how}
	if g.in(4) {
		c.Sizes = []int{1 + g.n(7), g.n(30)}
		c.Mode = g.u(2)
	}
	var s *style
	var lines []rline
	if p.Comp != "" {
		g.Small = g.bool()
		m := g.calendar(p.Comp, p.Prop, g.in(3))
		s = g.style(pick(g, []string{"", "os", "uos", "f", "c"}))
		lines = s.lines(m)
	}
	switch what {
	case "empty":
		c.Doc = Str(pick(g, []string{"", "\r\n", "BEGIN:VCALENDAR", "BEGIN:VCALENDAR\r\n", "BEGIN", ":", ";", "\"", "BEGIN:", "BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nBEGIN:VALARM\r\n", "BEGIN:VCALENDAR\r\nBEGIN:VTIMEZONE\r\nBEGIN:STANDARD\r\n", "\r", "\n", "\r\n ", "A", "A;B", "A;B=", "A;B=\"", "A:", "A:\r", " ", "\t", "\ufeff"}))
		c.Doc += Str(pick(g, []string{"", "\r\n", "\r", "A", ":", "END:VALARM\r\n"}))
	case "bytes":
		b := make([]byte, g.n(200))
		for i := range b {
			b[i] = byte(g.n(256))
		}
		c.Doc = Str(b)
		if g.bool() {
			c.Doc = "BEGIN:VCALENDAR\r\n" + c.Doc
		}
	case "tokens":
		pieces := []string{"BEGIN", "END", ":", ";", "=", "\r\n", "\r\n ", "\"", ",", "VCALENDAR", "VEVENT", "VALARM", "VTIMEZONE", "STANDARD", "X", "ACTION", "AUDIO", "URI", "DTSTART", "VALUE", "DATE", "RRULE", "FREQ", "DAILY", "BYDAY", "+", "1", "T", "P", "Z", "20010101T000000", "\\", "^", "TZID", "ENCODING", "BASE64", "UID", "\x00", "\xc3", " "}
		var b strings.Builder
		if g.bool() {
			b.WriteString("BEGIN:VCALENDAR\r\n")
		}
		for n := g.n(60); n > 0; n-- {
			b.WriteString(pick(g, pieces))
		}
		c.Doc = Str(b.String())
	case "lines":
		// lines of the right shape in the wrong places
		var b strings.Builder
		b.WriteString("BEGIN:VCALENDAR\r\n")
		all := allPairs()
		for n := g.n(20); n > 0; n-- {
			switch g.n(4) {
			case 0:
				b.WriteString(pick(g, []string{"BEGIN:", "END:"}) + pick(g, []string{"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "X"}))
			case 1:
				b.WriteString("ACTION:" + pick(g, alarmKinds))
			default:
				q := pick(g, all)
				if q.Prop == "" {
					continue
				}
				def := defOf(q.Comp, q.Prop)
				k := pick(g, def.Kinds)
				v := pick(g, badCatalogue[pick(g, def.Kinds)])
				if g.bool() {
					val := g.val(def, k)
					v = (&style{c: plain{}}).value(&val)
				}
				b.WriteString(q.Prop + ":" + v)
			}
			b.WriteString("\r\n")
		}
		if g.bool() {
			b.WriteString("END:VCALENDAR\r\n")
		}
		c.Doc = Str(b.String())
	case "octets":
		c.Doc = Str(g.octets(s.doc(lines)))
	case "lineedits":
		c.Doc = Str(join(g.lineEdits(texts(lines))))
	case "cut":
		d := s.doc(lines)
		c.Doc = Str(d[:g.u(len(d)+1)])
	case "linewise":
		t := texts(lines)
		for n := 1 + g.n(3); n > 0; n-- {
			i := g.u(len(t))
			t[i] = g.edit(t[i], nil)
		}
		c.Doc = Str(join(t))
	case "splice":
		m2 := g.calendar(pick(g, compList).Name, "", false)
		d, e := s.doc(lines), renderPlain(m2)
		c.Doc = Str(d[:g.u(len(d)+1)] + e[g.u(len(e)+1):])
	case "values":
		t := g.target(lines, p)
		head, value := splitLine(lines[t.Line].Text)
		def := defOf(p.Comp, p.Prop)
		k := pick(g, def.Kinds)
		v := g.mutVal(k, value)
		if g.bool() {
			v = pick(g, badCatalogue[k])
		}
		lines[t.Line].Text = head + ":" + v
		if g.in(3) {
			lines[t.Line].Text = g.edit(head, []string{";", "=", "\"", ",", ";VALUE=DATE", ";VALUE=PERIOD", ";TZID=Europe/London", ";TZID=X", ";ENCODING=BASE64"}) + ":" + v
		}
		c.Doc = Str(s.doc(lines))
	case "line":
		if len(s.doc(lines)) > 3000 {
			g.Small = true
			s = g.style("")
			lines = s.lines(g.calendar(p.Comp, p.Prop, false))
		}
		return g.sweepable(s, lines, g.target(lines, p), true)
	case "recipe":
		c.Recipe = arg
		c.N = pick(g, []int{1, 3, 100, 5000, 60000})
		if g.bool() {
			k := 1 << g.n(17)
			c.N = k + g.u(k)
		} else if g.in(6) {
			c.N = 250000
		}
		c.Sizes = nil
	default:
		bad("how %q", how)
	}
	return c
}

// total decodes and wants memory in proportion to the input, with a generous
// constant and factor.
func total(r io.Reader, size int) (err error, fail string) {
	before := allocated()
	if _, err, fail = decode(r); fail != "" {
		return err, fail
	}
	if used := allocated() - before; used > 256<<20+uint64(size)*2000 {
		fail = fmt.Sprintf("allocated %d MB for an input of %d octets", used>>20, size)
	}
	return err, fail
}

func runTotal(c *Case, o *obs) string {
	if c.How == "sweep" {
		o.Nontrivial = true
		k := kind("")
		if f := strings.Split(c.Site, "|"); len(f) == 3 {
			k = kind(f[1])
		}
		return sweep(c, k, func(_, doc string) string {
			o.each(doc)
			_, _, fail := decodeString(doc)
			if fail != "" {
				o.Narrow = &Case{Doc: Str(doc)}
			}
			return fail
		})
	}
	doc := string(c.Doc)
	if c.Recipe != "" {
		doc = bigDoc(c.Recipe, c.N)
	}
	o.Nontrivial = len(doc) > 16 && strings.HasPrefix(doc, "BEGIN:VCALENDAR\r\n")
	var r io.Reader = strings.NewReader(doc)
	if len(c.Sizes) > 0 {
		r = &chunkReader{data: doc, sizes: c.Sizes, eof: c.Mode == 1, err: io.EOF}
	}
	err, fail := total(r, len(doc))
	if fail != "" {
		return fail
	}
	if err == nil {
		o.label("accepted")
	} else {
		o.label("rejected")
	}
	return ""
}

func init() {
	register(&check{ID: "C06", Rule: "the input is longer than the opening line and starts with it, so that component reading is reached; counted once per distinct input", Quick: 60, Thorough: 1500,
		Sites: c06Sites, Gen: genBytes, Run: runTotal})
	register(&check{ID: "C07", Rule: "the sound text decodes and the damaged one breaks a structural rule; counted once per distinct pair of texts", Quick: 250, Thorough: 3000,
		Sites: c07Sites, Gen: genStructure, Run: runReject})
	register(&check{ID: "C08", Rule: "the sound text decodes and the damaged one has a malformed line, parameter or value; counted once per distinct pair of texts", Quick: 90, Thorough: 1500,
		Sites: func() []string { return append(c08Sites(), sweepSites()...) },
		Gen: func(g *G, site string) *Case {
			if strings.HasSuffix(site, "|sweep") {
				return g.anySweep(site)
			}
			return genMalformed(g, site)
		},
		Run: func(c *Case, o *obs) string {
			if c.How != "sweep" {
				return runReject(c, o)
			}
			if _, ok := baseline(Str(c.sound()), o); !ok {
				return ""
			}
			o.Nontrivial = true
			if strings.HasSuffix(c.Site, "|head|sweep") {
				return headSweep(c, o, false, true, nil)
			}
			return judgedSweep(c, o, false, true)
		}})
}
