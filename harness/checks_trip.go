package main

import (
	"fmt"
	"io"
	"strings"
	"unicode/utf8"
)

func stats(c *Comp) (comps, props, params int) {
	comps, props = 1, len(c.Props)
	for i := range c.Props {
		params += len(c.Props[i].Params)
	}
	for i := range c.Subs {
		a, b, d := stats(&c.Subs[i])
		comps, props, params = comps+a, props+b, params+d
	}
	return
}

// labelModel records what kinds of values a case exercised.
func labelModel(o *obs, c *Comp) {
	seen := map[string]bool{}
	var walk func(c *Comp)
	walk = func(c *Comp) {
		seen["component "+c.Name] = true
		for i := range c.Props {
			p := &c.Props[i]
			seen["kind "+string(p.Val.K)] = true
			for j := range p.Params {
				seen["param "+p.Params[j].Name] = true
			}
		}
		for i := range c.Subs {
			walk(&c.Subs[i])
		}
	}
	walk(c)
	for l := range seen {
		o.label(l)
	}
}

func rich(o *obs, m *Comp) {
	comps, props, params := stats(m)
	o.Nontrivial = comps > 1 && props > 3 || params > 0
	labelModel(o, m)
}

const richRule = "the calendar has a component with properties beyond the two mandatory ones of the calendar, or some parameter; counted once per distinct input"

func (g *G) style(flags string) *style {
	s := &style{c: g}
	for _, f := range flags {
		switch f {
		case 'c':
			s.Case = true
		case 'o':
			s.Order = true
		case 's':
			s.Spell = true
		case 'u':
			s.Unknown = true
		case 'f':
			s.Fold = true
		}
	}
	return s
}

func init() {
	register(&check{
		ID: "C01", Rule: richRule, Quick: 110, Thorough: 2200, Sites: pairStrings,
		Gen: func(g *G, site string) *Case {
			p := parsePair(site)
			g.Loose = g.in(3)
			return &Case{Model: g.calendar(p.Comp, p.Prop, true)}
		},
		Run: func(c *Case, o *obs) string {
			rich(o, c.Model)
			return roundTrip(c.Model)
		},
	})
	register(&check{
		ID: "C02", Rule: richRule, Quick: 110, Thorough: 2200, Sites: pairStrings,
		Gen: func(g *G, site string) *Case {
			p := parsePair(site)
			g.Loose = g.in(3)
			return &Case{Model: g.calendar(p.Comp, p.Prop, true)}
		},
		Run: func(c *Case, o *obs) string {
			rich(o, c.Model)
			return readBack(c.Model)
		},
	})
	register(&check{
		ID: "C03", Rule: richRule + "; the text is an independent spelling of it", Quick: 100, Thorough: 2000,
		Sites: func() []string {
			out := pairStrings()
			for _, p := range out[:len(out):len(out)] {
				if !strings.HasSuffix(p, "/") {
					out = append(out, p+"|vary", p+"|head|sweep")
				}
			}
			return append(out, sweepSites()...)
		},
		Gen: func(g *G, site string) *Case {
			if strings.HasSuffix(site, "|sweep") {
				return g.anySweep(site)
			}
			p := parsePair(site)
			m := g.calendar(p.Comp, p.Prop, true)
			s := g.style("os")
			if strings.HasSuffix(site, "|vary") {
				return g.varied(m, s, p)
			}
			return &Case{Model: m, Doc: Str(s.doc(s.lines(m)))}
		},
		Run: func(c *Case, o *obs) string {
			if c.How == "sweep" {
				o.Nontrivial = true
				if strings.HasSuffix(c.Site, "|head|sweep") {
					return headSweep(c, o, true, false, nil)
				}
				return judgedSweep(c, o, true, false)
			}
			switch c.How {
			case "accepted":
				o.Nontrivial = true
				_, err, fail := decodeString(string(c.Doc))
				if err != nil {
					fail = "Decode failed: " + err.Error()
				}
				return fail
			case "distinct":
				o.Nontrivial = true
				want, ok := baseline(c.Doc2, o)
				if got, ok2 := baseline(c.Doc, o); ok && ok2 && got == want {
					return "texts of different meaning decode to the same calendar"
				}
				return ""
			}
			if c.Model == nil {
				j := judgeDoc(string(c.Doc))
				if j.V != vAccept {
					bad("varied text %q is not judged conforming: %s%s", c.Doc, j.Why, j.Open)
				}
				o.label("varied text")
				rich(o, j.Model)
				return decodeTo(string(c.Doc), canon(j.Model))
			}
			rich(o, c.Model)
			return decodeTo(string(c.Doc), canon(c.Model))
		},
	})
	register(&check{
		ID: "C04", Rule: "the output holds at least one folded line; counted once per distinct calendar", Quick: 100, Thorough: 1500,
		Sites: func() []string {
			var out []string
			for _, p := range []string{"VEVENT/SUMMARY", "VEVENT/CATEGORIES", "VTODO/ATTACH", "VJOURNAL/ATTENDEE", "VTIMEZONE/TZURL", "VALARM:DISPLAY/DESCRIPTION", "STANDARD/RRULE", "VCALENDAR/PRODID", "VFREEBUSY/COMMENT", "VEVENT/GEO"} {
				for _, w := range []string{"1", "2", "3", "4", "mix", "esc"} {
					out = append(out, p+"|"+w)
				}
			}
			return out
		},
		Gen: func(g *G, site string) *Case {
			p := parsePair(site)
			_, w, _ := strings.Cut(site, "|")
			m := g.calendar(p.Comp, p.Prop, false)
			stretch(g, m, p, w)
			return &Case{Model: m}
		},
		Run: runFolding,
	})
	register(&check{
		ID: "C05", Rule: "the text contains a fold or is delivered in more than one read; counted once per distinct text and delivery", Quick: 150, Thorough: 2200,
		Sites: func() []string {
			var out []string
			for _, p := range []string{"VEVENT/SUMMARY", "VEVENT/ATTENDEE", "VTODO/DUE", "VALARM:EMAIL/DESCRIPTION", "STANDARD/TZOFFSETTO", "VJOURNAL/CATEGORIES", "VFREEBUSY/FREEBUSY"} {
				for _, d := range []string{"bytes", "small", "chunks", "boundary", "everyfold", "whole", "page"} {
					out = append(out, p+"|"+d)
				}
			}
			return out
		},
		Gen: genDelivery,
		Run: runDelivery,
	})
	register(&check{
		ID: "C13", Rule: "the text holds at least one unknown property, parameter or component; counted once per distinct text", Quick: 350, Thorough: 4000, Sites: pairStrings,
		Gen: func(g *G, site string) *Case {
			p := parsePair(site)
			m := g.calendar(p.Comp, p.Prop, g.bool())
			s := g.style("u")
			if g.in(3) {
				s = g.style("uosf")
			}
			return &Case{Model: m, Doc: Str(s.doc(s.lines(m))), Doc2: Str(renderPlain(m))}
		},
		Run: runSame,
	})
	register(&check{
		ID: "C14", Rule: "the text differs from the plain spelling in letter case; counted once per distinct text", Quick: 350, Thorough: 4000, Sites: pairStrings,
		Gen: func(g *G, site string) *Case {
			p := parsePair(site)
			m := g.calendar(p.Comp, p.Prop, g.bool())
			s := g.style("c")
			if g.in(3) {
				s = g.style("cos")
			} else if g.in(3) {
				// unknown content keeps its place and changes its case
				u := g.style("u")
				lines := u.lines(m)
				sound := u.doc(lines)
				for i := range lines {
					lines[i].Text = s.recased(lines[i].Text)
				}
				return &Case{Model: m, Doc: Str(s.doc(lines)), Doc2: Str(sound)}
			}
			return &Case{Model: m, Doc: Str(s.doc(s.lines(m))), Doc2: Str(renderPlain(m))}
		},
		Run: runSame,
	})
}

// runSame wants the changed text to decode to what the plain one decodes to.
// If the plain one does not decode there is nothing to compare; that it does
// is another property.
func runSame(c *Case, o *obs) string {
	want, ok := baseline(c.Doc2, o)
	if !ok {
		return ""
	}
	o.Nontrivial = c.Doc != c.Doc2
	if c.Model != nil {
		labelModel(o, c.Model)
	}
	return decodeTo(string(c.Doc), want)
}

// baseline gives the canonical text of what the text decodes to in one read.
func baseline(doc Str, o *obs) (string, bool) {
	cal, err, fail := decodeString(string(doc))
	if fail != "" || err != nil {
		o.label("no baseline")
		return "", false
	}
	return canon(extract(cal)), true
}

// varied edits the focused line at random and keeps the text if the judge
// still reads it as conforming, as whatever calendar.
func (g *G) varied(m *Comp, s *style, p pair) *Case {
	lines := s.lines(m)
	t := g.target(lines, p)
	head, value := splitLine(lines[t.Line].Text)
	best := lines[t.Line].Text
	for try := 0; try < 12; try++ {
		h, v := head, value
		if g.in(3) {
			h = g.edit(head, []string{";X-A=b", ";x-a=\"b;c:d\"", ";VALUE=DATE", ";VALUE=DATE-TIME", ";TZID=Europe/Paris", ";LANGUAGE=en", ";RSVP=false", ";CN=\"^n\"", "^", "^^", "a", "\""})
		} else {
			v = g.mutVal(t.Prop.Val.K, value)
		}
		if strings.ContainsAny(h+v, "\r\n") || h == "" || h[0] == ' ' || h[0] == '\t' {
			continue
		}
		lines[t.Line].Text = h + ":" + v
		if judgeDoc(s.doc(lines)).V == vAccept {
			best = lines[t.Line].Text
			if g.bool() {
				break
			}
			head, value = h, v
		}
	}
	lines[t.Line].Text = best
	if judgeDoc(s.doc(lines)).V != vAccept {
		return &Case{Model: m, Doc: Str(s.doc(lines)), Labels: []string{"not judged conforming"}}
	}
	return &Case{Doc: Str(s.doc(lines)), Note: note("varied: %s", best)}
}

// stretch lengthens texts of the focused property so that folds fall at every
// offset and within runs of characters of one width.
func stretch(g *G, m *Comp, p pair, w string) {
	piece := map[string][]string{"1": {"a", "b"}, "2": {"é", "ß"}, "3": {"世", " "}, "4": {"😀", "\U0010ffff"}, "mix": {"a", "é", "世", "😀", " "}, "esc": {"\\", ",", ";", "\n", "a", "\"", "^"}}[w]
	long := func() Str {
		var b strings.Builder
		b.WriteString(strings.Repeat("x", g.n(9)))
		target := g.span(30, 330)
		for b.Len() < target {
			b.WriteString(piece[g.n(len(piece))])
		}
		return Str(b.String())
	}
	var walk func(c *Comp)
	walk = func(c *Comp) {
		for i := range c.Props {
			if c.Name != p.Comp || c.Props[i].Name != p.Prop {
				continue
			}
			v := &c.Props[i].Val
			switch v.K {
			case kText:
				v.S = long()
			case kMText:
				v.L = append(v.L, long(), long())
			case kURI:
				v.S = Str(stableURI("http://example.com/?q=" + strings.ReplaceAll(string(long()), "\n", "%0A")))
			}
			for j := range c.Props[i].Params {
				q := &c.Props[i].Params[j]
				switch paramDefs[q.Name].Kind {
				case pText, pQText:
					q.Vals[0] = long()
				case pQTexts:
					q.Vals = append(q.Vals, long())
				}
			}
		}
		for i := range c.Subs {
			walk(&c.Subs[i])
		}
	}
	walk(m)
}

func runFolding(c *Case, o *obs) string {
	labelModel(o, c.Model)
	cal, want := built(c.Model)
	doc, fail := encodeOK(cal)
	if fail != "" {
		return fail
	}
	lines, err := checkPhysical(doc)
	if err != nil {
		return err.Error()
	}
	folds := strings.Count(doc, "\r\n ")
	o.Nontrivial = folds > 0
	if folds > 0 {
		o.label("folded output")
	}
	// every fold is one that was inserted: the unfolded lines read back as the
	// calendar
	var b strings.Builder
	for _, l := range lines {
		if !utf8.ValidString(l) {
			return fmt.Sprintf("unfolded line is not valid UTF-8: %q", clip(l))
		}
		b.WriteString(l + "\r\n")
	}
	r, err := readUnfolded(lines)
	if err != nil {
		return "unfolded text is not well-formed: " + err.Error()
	}
	if got := canon(r); got != want {
		return "unfolded text says something else: " + diff(want, got)
	}
	return ""
}

func readUnfolded(lines []string) (c *Comp, err error) {
	defer catch(&err)
	ls := make([]*cline, len(lines))
	for i, l := range lines {
		ls[i] = parseLine(l)
	}
	if len(ls) == 0 || ls[0].name != "BEGIN" {
		rfail("no calendar")
	}
	c, rest := readComp("VCALENDAR", ls[1:])
	if len(rest) > 0 {
		rfail("text after the calendar")
	}
	return c, nil
}

// ---- delivery ----

// chunkReader delivers data in reads of the given sizes, cycled.
type chunkReader struct {
	data  string
	sizes []int
	i     int
	eof   bool  // deliver the final error with the last data
	err   error // final error
	zero  bool  // last read was empty
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := len(p)
	if len(r.sizes) > 0 {
		s := r.sizes[r.i%len(r.sizes)]
		r.i++
		if s == 0 {
			if len(p) > 0 && !r.zero {
				r.zero = true
				return 0, nil
			}
			s = 1
		}
		if s < n {
			n = s
		}
	}
	r.zero = false
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eof && n > 0 {
		return n, r.err
	}
	return n, nil
}

func genDelivery(g *G, site string) *Case {
	p := parsePair(site)
	_, mode, _ := strings.Cut(site, "|")
	g.Small = mode != "page" && mode != "chunks"
	m := g.calendar(p.Comp, p.Prop, mode == "page")
	s := g.style("")
	lines := s.lines(m)
	plainDoc := s.doc(lines)
	c := &Case{Model: m, Doc2: Str(plainDoc)}
	c.Mode = g.u(2)
	sizes := func(max int) {
		for k := 1 + g.n(6); k > 0; k-- {
			c.Sizes = append(c.Sizes, g.n(max+1))
		}
	}
	fs := &style{c: g, Fold: true}
	switch mode {
	case "bytes":
		c.Doc = Str(fs.doc(lines))
		c.Sizes = []int{1}
		if g.bool() {
			c.Sizes = []int{1, 0}
		}
	case "small":
		c.Doc = Str(fs.doc(lines))
		sizes(4)
	case "chunks":
		c.Doc = Str(fs.doc(lines))
		sizes(200)
	case "boundary":
		// one fold, one read boundary within a few octets of it
		at, doc := oneFold(g, lines)
		c.Doc = Str(doc)
		first := at + g.span(-2, 5)
		if first < 1 {
			first = 1
		}
		c.Sizes = []int{first}
		if g.bool() {
			c.Sizes = []int{first, 1 + g.n(4), 1 + g.n(4), len(doc)}
		}
	case "everyfold":
		// a fold between every two octets
		var b strings.Builder
		sep := pick(g, []string{"\r\n ", "\r\n\t"})
		for _, l := range lines {
			for i := 0; i < len(l.Text); i++ {
				b.WriteByte(l.Text[i])
				if i < len(l.Text)-1 {
					b.WriteString(sep)
				}
			}
			b.WriteString("\r\n")
		}
		c.Doc = Str(b.String())
		if g.bool() {
			sizes(8)
		}
	case "whole":
		c.Doc = Str(fs.doc(lines))
	case "page":
		// enough text that folds fall around the sizes buffers commonly have
		pageFolds(g, m, c)
	}
	return c
}

// oneFold puts a fold between two octets of some line and gives its offset.
func oneFold(g *G, lines []rline) (int, string) {
	li := g.u(len(lines))
	l := lines[li].Text
	at := 1
	if len(l) > 2 {
		at = g.span(1, len(l)-1)
	}
	sep := pick(g, []string{"\r\n ", "\r\n\t"})
	var b strings.Builder
	off := 0
	for i, x := range lines {
		if i == li {
			off = b.Len() + at
			b.WriteString(l[:at] + sep + l[at:])
		} else {
			b.WriteString(x.Text)
		}
		b.WriteString("\r\n")
	}
	return off, b.String()
}

func pageFolds(g *G, m *Comp, c *Case) {
	size := pick(g, []int{512, 1024, 2048, 4096, 4096, 8192})
	var ev *Comp
	for i := range m.Subs {
		if m.Subs[i].Name == "VEVENT" || m.Subs[i].Name == "VTODO" || m.Subs[i].Name == "VJOURNAL" || m.Subs[i].Name == "VFREEBUSY" {
			ev = &m.Subs[i]
		}
	}
	if ev == nil {
		m.Subs = append([]Comp{g.component("VEVENT", "COMMENT", 12, 0)}, m.Subs...)
		ev = &m.Subs[0]
	}
	ev.Props = append([]Prop{{Name: "COMMENT", Val: Val{K: kText, S: Str(strings.Repeat("y", size+g.n(40)))}}}, ev.Props...)
	s := &style{c: plain{}}
	doc := s.doc(s.lines(m))
	c.Doc2 = Str(doc)
	// the comment line covers offset size; put folds around it
	at := size + g.span(-4, 4)
	i := strings.LastIndex(doc[:at], "\r\n")
	if i < 0 || at-i < 4 || strings.ContainsAny(doc[at-2:at+2], "\r\n") {
		at = strings.Index(doc, "yyy") + 1
	}
	sep := pick(g, []string{"\r\n ", "\r\n\t"})
	doc = doc[:at] + sep + doc[at:]
	if g.bool() {
		doc = doc[:at-1] + sep + doc[at-1:]
	}
	c.Doc = Str(doc)
	if g.in(3) {
		c.Sizes = []int{size}
	}
}

func runDelivery(c *Case, o *obs) string {
	want, ok := baseline(c.Doc2, o)
	if !ok {
		return ""
	}
	o.Nontrivial = c.Doc != c.Doc2 || len(c.Sizes) > 0
	if len(c.Sizes) > 0 {
		o.label("split reads")
	}
	if c.Doc != c.Doc2 {
		o.label("folded input")
	}
	cal, err, fail := decode(&chunkReader{data: string(c.Doc), sizes: c.Sizes, eof: c.Mode == 1, err: io.EOF})
	if fail != "" {
		return fail
	}
	if err != nil {
		return "Decode failed on the folded or split text: " + err.Error()
	}
	if got := canon(extract(cal)); got != want {
		return "calendar changed: " + diff(want, got)
	}
	return ""
}
