package main

import (
	"fmt"
	"strings"
)

// ---- C29 ----

func partSites() []string {
	var out []string
	for _, c := range compList {
		if c.Name != "VCALENDAR" {
			out = append(out, c.Name+"/|join", c.Name+"/|join models")
		}
	}
	for _, p := range allPairs() {
		if p.Prop != "" && droppable(p) {
			out = append(out, p.String()+"|drop", p.String()+"|drop model")
		}
	}
	return out
}

// droppable says whether a component stays sound without the property.
func droppable(p pair) bool {
	for _, u := range compDefs[p.Comp].Props {
		if u.Name == p.Prop && u.Card == one {
			return false
		}
	}
	for _, r := range rules {
		if r.Comp == p.Comp && (r.Kind == "both" && r.A == p.Prop || (r.Kind == "both" || r.Kind == "needs") && r.B == p.Prop) {
			return false
		}
	}
	return true
}

// holder gives the component whose parts are joined.
func holder(m *Comp, comp string) *Comp {
	if compDefs[comp].Parent == "VCALENDAR" {
		return m
	}
	for i := range m.Subs {
		if len(findComp(&m.Subs[i], comp)) > 0 {
			return &m.Subs[i]
		}
	}
	bad("nothing holds %s", comp)
	return nil
}

func genParts(g *G, site string) *Case {
	p := parsePair(site)
	_, how, _ := strings.Cut(site, "|")
	c := &Case{How: how, Note: p.Prop}
	switch how {
	case "drop", "drop model":
		m := g.calendar(p.Comp, p.Prop, g.bool())
		if how == "drop" {
			s := g.style(pick(g, []string{"", "os", "uos", "f", "c"}))
			lines := s.lines(m)
			var at []int
			for i, l := range lines {
				if l.Prop >= 0 && l.Comp.Name == p.Comp && l.Comp.Props[l.Prop].Name == p.Prop {
					at = append(at, i)
				}
			}
			c.Doc2 = Str(s.doc(lines))
			i := at[g.u(len(at))]
			c.Doc = Str(s.doc(append(lines[:i:i], lines[i+1:]...)))
			return c
		}
		c.Models = []*Comp{m}
		c.Model = cloneComp(m)
		var with []*Comp
		for _, x := range findComp(c.Model, p.Comp) {
			if x.has(p.Prop) {
				with = append(with, x)
			}
		}
		x := with[g.u(len(with))]
		k := g.u(x.count(p.Prop))
		for i := range x.Props {
			if x.Props[i].Name == p.Prop {
				if k == 0 {
					x.Props = append(x.Props[:i:i], x.Props[i+1:]...)
					break
				}
				k--
			}
		}
		return c
	}
	// the parts come from several calendars
	n := 2 + g.n(3)
	var parts []Comp
	var root *Comp
	for i := 0; i < n; i++ {
		m := g.calendar(p.Comp, "", g.bool())
		h := holder(m, p.Comp)
		parts = append(parts, h.Subs...)
		if root == nil {
			root = m
			if h != m {
				root.Subs = []Comp{*h}
			}
		}
	}
	if g.in(3) { // the same part again
		parts = append(parts, *cloneComp(&parts[g.u(len(parts))]))
	}
	if len(parts) > 8 {
		parts = parts[:8]
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := g.n(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	h := root
	if compDefs[p.Comp].Parent != "VCALENDAR" {
		h = &root.Subs[0]
	}
	h.Subs = nil
	if how == "join models" {
		c.Model = root
		for i := range parts {
			c.Models = append(c.Models, &parts[i])
		}
		return c
	}
	s := g.style(pick(g, []string{"", "os", "uos", "f", "c"}))
	lines := s.lines(root)
	end := len(lines) - 1
	if h != root {
		end--
		c.Mode = 2
	}
	s.NoEOL = false
	c.Docs = []Str{Str(s.doc(lines[:end])), Str(s.doc(lines[end:]))}
	for i := range parts {
		c.Docs = append(c.Docs, Str(s.doc(s.lines(&parts[i]))))
	}
	return c
}

func runParts(c *Case, o *obs) string {
	switch c.How {
	case "drop":
		want, ok := baseline(c.Doc2, o)
		if !ok {
			return ""
		}
		o.Nontrivial = true
		cal, err, fail := decodeString(string(c.Doc))
		if fail != "" || err != nil {
			return fmt.Sprintf("cannot be decoded without one %s: %v%s", c.Note, err, fail)
		}
		return lessOne(strings.Split(want, "\n"), strings.Split(canon(extract(cal)), "\n"), c.Note)
	case "drop model":
		full, err, fail := encode(build(c.Models[0]))
		if fail != "" || err != nil {
			o.label("no baseline")
			return ""
		}
		o.Nontrivial = true
		less, err, fail := encode(build(c.Model))
		if fail != "" || err != nil {
			return fmt.Sprintf("cannot be encoded without one %s: %v%s", c.Note, err, fail)
		}
		return lessOne(logicalLines(full), logicalLines(less), c.Note)
	case "join models":
		return runJoinModels(c, o)
	}
	pre, post := string(c.Docs[0]), string(c.Docs[1])
	nested := c.Mode == 2
	var want *Comp
	all := ""
	for _, d := range c.Docs[2:] {
		cal, err, fail := decodeString(pre + string(d) + post)
		if err != nil || fail != "" {
			o.label("no baseline")
			return ""
		}
		m := extract(cal)
		all += string(d)
		switch {
		case want == nil:
			want = m
		case nested && len(m.Subs) == 1 && len(want.Subs) == 1:
			want.Subs[0].Subs = append(want.Subs[0].Subs, m.Subs[0].Subs...)
		default:
			want.Subs = append(want.Subs, m.Subs...)
		}
	}
	o.Nontrivial = true
	o.label(fmt.Sprintf("%d parts", len(c.Docs)-2))
	cal, err, fail := decodeString(pre + all + post)
	if err != nil || fail != "" {
		return fmt.Sprintf("each part decodes alone but not all together: %v%s", err, fail)
	}
	if w, got := canon(want), canon(extract(cal)); w != got {
		return "parts together differ from the parts alone: " + diff(w, got)
	}
	return ""
}

func runJoinModels(c *Case, o *obs) string {
	depth := 1
	if len(c.Model.Subs) > 0 {
		depth = 2
	}
	enc := func(parts []*Comp) (outer []string, blocks map[string][]string, err error, fail string) {
		m := cloneComp(c.Model)
		h := m
		if depth == 2 {
			h = &m.Subs[0]
		}
		for _, p := range parts {
			h.Subs = append(h.Subs, *cloneComp(p))
		}
		doc, err, fail := encode(build(m))
		if err != nil || fail != "" {
			return nil, nil, err, fail
		}
		blocks = map[string][]string{}
		at, kind := 0, ""
		for _, l := range logicalLines(doc) {
			if strings.HasPrefix(l, "BEGIN:") {
				if at++; at == depth+1 {
					kind = l
				}
			}
			if at > depth {
				blocks[kind] = append(blocks[kind], l)
			} else {
				outer = append(outer, l)
			}
			if strings.HasPrefix(l, "END:") {
				at--
			}
		}
		return outer, blocks, nil, ""
	}
	var outer []string
	want := map[string][]string{}
	for _, p := range c.Models {
		out, b, err, fail := enc([]*Comp{p})
		if err != nil || fail != "" {
			o.label("no baseline")
			return ""
		}
		if outer == nil {
			outer = out
		} else if d := sameLines(outer, out); d != "" {
			return "lines around a part change with the part: " + d
		}
		for k, l := range b {
			want[k] = append(want[k], l...)
		}
	}
	o.Nontrivial = true
	o.label(fmt.Sprintf("%d parts", len(c.Models)))
	out, got, err, fail := enc(c.Models)
	if err != nil || fail != "" {
		return fmt.Sprintf("each part encodes alone but not all together: %v%s", err, fail)
	}
	if d := sameLines(outer, out); d != "" {
		return "lines around the parts change with their number: " + d
	}
	for k := range got {
		if want[k] == nil {
			want[k] = []string{}
		}
	}
	for k := range want {
		if d := sameLines(want[k], got[k]); d != "" {
			return "parts together are written differently from the parts alone: " + d
		}
	}
	return ""
}

func sameLines(a, b []string) string {
	if x, y := strings.Join(a, "\n"), strings.Join(b, "\n"); x != y {
		return diff(x, y)
	}
	return ""
}

// logicalLines gives the unfolded lines of a text.
func logicalLines(doc string) []string {
	return strings.Split(strings.ReplaceAll(doc, "\r\n ", ""), "\r\n")
}

// lessOne wants less to be full without one line of the name.
func lessOne(full, less []string, name string) string {
	i := 0
	for i < len(less) && i < len(full) && full[i] == less[i] {
		i++
	}
	if i == len(full) || len(full) != len(less)+1 {
		return fmt.Sprintf("removing one %s removes %d lines: %s", name, len(full)-len(less), sameLines(full, less))
	}
	if d := sameLines(full[i+1:], less[i:]); d != "" {
		return fmt.Sprintf("removing one %s changes more: %s", name, d)
	}
	if !strings.HasPrefix(strings.TrimSpace(full[i]), name) {
		return fmt.Sprintf("removing one %s removes %q instead", name, clip(full[i]))
	}
	return ""
}

func init() {
	register(&check{ID: "C29", Rule: "every part is accepted alone, or the whole is accepted before a property is removed; counted once per distinct case", Quick: 400, Thorough: 3000,
		Sites: partSites, Gen: genParts, Run: runParts})
}
