package main

import (
	"hash/fnv"
	"strings"
	"unicode/utf8"
)

// A sweep takes one text with one value (or the whole line) marked in it and
// tries the small changes of that value one after another. The generator draws
// the text and which changes of the list are tried, the run goes through them.

// sweepable cuts a text around the value of a line.
func (g *G) sweepable(s *style, lines []rline, t target, whole bool) *Case {
	head, value := splitLine(lines[t.Line].Text)
	if whole {
		head, value = "", lines[t.Line].Text
	} else {
		head += ":"
	}
	var before, after strings.Builder
	for i, l := range lines {
		switch {
		case i < t.Line:
			before.WriteString(l.Text + "\r\n")
		case i > t.Line:
			after.WriteString(l.Text + "\r\n")
		}
	}
	c := &Case{How: "sweep", Docs: []Str{Str(before.String() + head), Str("\r\n" + after.String())}, Doc2: Str(value), N: 1}
	if len(value) > 12 {
		c.N = 1 + len(value)/12
	}
	c.At = g.n(c.N)
	return c
}

// sweepPieces are tried at every place of a whole line.
var sweepPieces = []string{"\"", ";", ":", ",", "=", "\\", "^", "\r", "\n", "\r\n", "\r\n ", "\x00", "\x7f", " ", "\xff", "é", "0", "a", ";X=", ";VALUE=DATE", ";TZID=Europe/Paris", ";TZID="}

// changes lists the small changes of a value of the kind.
func changes(k kind, raw string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	pieces := sweepPieces
	if k != "" {
		pieces = append(append([]string{}, kindPieces[k]...), commonPieces...)
	}
	for i := range raw {
		add(raw[:i])
		add(raw[i:])
		for n := 1; n <= 3 && i+n <= len(raw); n++ {
			add(raw[:i] + raw[i+n:])
			add(raw[:i+n] + raw[i:])
		}
		if i+1 < len(raw) {
			add(raw[:i] + raw[i+1:i+2] + raw[i:i+1] + raw[i+2:])
		}
		if c := raw[i]; c >= '0' && c <= '9' {
			for d := '0'; d <= '9'; d++ {
				add(raw[:i] + string(d) + raw[i+1:])
			}
		}
	}
	for _, p := range pieces {
		for i := 0; i <= len(raw); i++ {
			add(raw[:i] + p + raw[i:])
			if i < len(raw) {
				add(raw[:i] + p + raw[i+1:])
			}
		}
	}
	return out
}

// sweep calls f with each text of the case until one fails.
func sweep(c *Case, k kind, f func(value, doc string) string) string {
	try := func(v string) string { return f(v, string(c.Docs[0])+v+string(c.Docs[1])) }
	for i, v := range changes(k, string(c.Doc2)) {
		if i%c.N == c.At {
			if fail := try(v); fail != "" {
				return fail
			}
		}
	}
	if k != "" {
		for _, v := range badCatalogue[k] {
			if fail := try(v); fail != "" {
				return fail
			}
		}
	}
	return ""
}

func (c *Case) sound() string { return string(c.Docs[0]) + string(c.Doc2) + string(c.Docs[1]) }

// each counts one text within a case.
func (o *obs) each(doc string) {
	h := fnv.New64a()
	h.Write([]byte(doc))
	o.More = append(o.More, h.Sum64())
}

// judgedSweep wants each changed value to be read as the judge reads it: taken
// for what it denotes if accepts, and rejected if rejects.
func judgedSweep(c *Case, o *obs, accepts, rejects bool) string {
	p := parsePair(c.Site)
	def := defOf(p.Comp, p.Prop)
	k := kind(strings.Split(c.Site, "|")[1])
	zone := string(c.Recipe)
	return sweep(c, k, func(v, doc string) string {
		if strings.ContainsAny(v, "\r\n\u007f") || !utf8.ValidString(v) || v == string(c.Doc2) {
			return ""
		}
		_, verdict := judgeVal(def, k, v, zone)
		switch {
		case verdict == vReject && rejects:
			o.each(doc)
			o.label("sweep: rejected")
			if fail := mustReject(doc); fail != "" {
				o.Narrow = &Case{How: "reject", Doc: Str(doc), Doc2: Str(c.sound()), Note: note("changed value: %q", v)}
				return fail
			}
		case verdict == vAccept && accepts:
			j := judgeDoc(doc)
			if j.V != vAccept {
				return ""
			}
			o.each(doc)
			o.label("sweep: accepted")
			if fail := decodeTo(doc, canon(j.Model)); fail != "" {
				o.Narrow = &Case{How: "judged", Doc: Str(doc), Models: c.Models, Note: note("changed value: %q", v)}
				return fail
			}
		}
		return ""
	})
}

// sweepSites lists the places of values of each kind.
func sweepSites() []string {
	var out []string
	for _, p := range allPairs() {
		if p.Prop == "" {
			continue
		}
		for _, k := range defOf(p.Comp, p.Prop).Kinds {
			out = append(out, p.String()+"|"+string(k)+"|sweep")
		}
	}
	return out
}

func (g *G) anySweep(site string) *Case {
	p := parsePair(site)
	if strings.HasSuffix(site, "|head|sweep") {
		return g.genHeadSweep(p)
	}
	k := kind(strings.Split(site, "|")[1])
	def := defOf(p.Comp, p.Prop)
	return g.genSweep(p, k, func() Val { return g.val(def, k) })
}

// genSweep draws a text with a value of the kind to be swept.
func (g *G) genSweep(p pair, k kind, draw func() Val) *Case {
	g.Small = true
	m := g.focused(p, k, draw)
	s := g.style("")
	if g.bool() {
		s = g.style("s")
	}
	lines := s.lines(m)
	t := g.target(lines, p)
	c := g.sweepable(s, lines, t, false)
	c.Models = []*Comp{control(m, p)}
	c.Recipe = zoneOf(&t.Prop.Val)
	return c
}

// genHeadSweep draws a text with the name and parameters of a line to be
// swept.
func (g *G) genHeadSweep(p pair) *Case {
	g.Small = true
	m := g.calendar(p.Comp, p.Prop, false)
	s := g.style(pick(g, []string{"", "s"}))
	lines := s.lines(m)
	t := g.target(lines, p)
	head, value := splitLine(lines[t.Line].Text)
	lines[t.Line].Text = head + ":"
	c := g.sweepable(s, lines, t, true)
	c.Doc2 = Str(head)
	c.Docs[1] = Str(":"+value) + c.Docs[1]
	c.Models = []*Comp{bare(m, p)}
	return c
}

// headSweep wants each changed name and parameter list to be read as the judge
// reads it.
func headSweep(c *Case, o *obs, accepts, rejects bool, only func(v string, m *Comp) bool) string {
	return sweep(c, "", func(v, doc string) string {
		if strings.ContainsAny(v, "\r\n\u007f") || !utf8.ValidString(v) || v == string(c.Doc2) || v == "" || v[0] == ' ' || v[0] == '\t' {
			return ""
		}
		j := judgeDoc(doc)
		switch {
		case j.V == vReject && rejects && !j.Classes["structure"]:
			o.each(doc)
			o.label("sweep: rejected")
			if fail := mustReject(doc); fail != "" {
				o.Narrow = &Case{How: "reject", Doc: Str(doc), Doc2: Str(c.sound()), Note: note("changed name or parameters: %q", v)}
				return fail
			}
		case j.V == vAccept && accepts && (only == nil || only(v, j.Model)):
			o.each(doc)
			o.label("sweep: accepted")
			if fail := decodeTo(doc, canon(j.Model)); fail != "" {
				o.Narrow = &Case{How: "judged", Doc: Str(doc), Models: c.Models, Note: note("changed name or parameters: %q", v)}
				return fail
			}
		}
		return ""
	})
}
