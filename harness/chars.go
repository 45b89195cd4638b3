package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// A run over characters puts every character of the basic plane, some blocks
// of the others and every pair of printable ASCII characters into one value.
// What fails is cut down to the shortest part that still does.

const charBlock = 4096

// plainRune reports whether a character may stand in any text.
func plainRune(r rune) bool {
	return utf8.ValidRune(r) && r != utf8.RuneError && r != 0x7f && (r >= 0xa0 || r >= ' ' && r < 0x7f || r == '\t' || r == '\n')
}

// pairsOf is a text in which each pair of the characters occurs.
func pairsOf(alphabet string) string {
	var b strings.Builder
	rs := []rune(alphabet)
	for i, x := range rs {
		b.WriteRune(x)
		for _, y := range rs[i+1:] {
			b.WriteRune(x)
			b.WriteRune(y)
		}
		b.WriteRune(x)
	}
	return b.String()
}

// triplesOf is a text in which each triple of the characters occurs.
func triplesOf(alphabet string) string {
	var b strings.Builder
	rs := []rune(alphabet)
	for _, x := range rs {
		for _, y := range rs {
			for _, z := range rs {
				b.WriteRune(x)
				b.WriteRune(y)
				b.WriteRune(z)
			}
		}
	}
	return b.String()
}

// charTexts lists the texts of a run.
func charTexts(planes []int) []string {
	var out []string
	block := func(n int) {
		var b strings.Builder
		for r := rune(n * charBlock); r < rune((n+1)*charBlock); r++ {
			if plainRune(r) {
				b.WriteRune(r)
			}
		}
		if b.Len() > 0 {
			out = append(out, b.String())
		}
	}
	for n := 0; n < 16; n++ {
		block(n)
	}
	for _, p := range planes {
		block(16 + p%256)
	}
	ascii := ""
	for r := ' '; r < 0x7f; r++ {
		ascii += string(r)
	}
	out = append(out, pairsOf(ascii+"\t\n"), triplesOf("\\,;:\"^'\nnN =a\té"))
	return out
}

// charURIs lists URIs made of the characters of a text that may stand in them
// as they are, in each part.
func charURIs(s string) []string {
	var out []string
	for _, head := range []string{"urn:x:", "http://h/", "http://h/?", "http://h/#"} {
		var b strings.Builder
		b.WriteString(head)
		for _, r := range s {
			if strings.ContainsRune("#?", r) {
				continue
			}
			if x := head + "a" + string(r) + "b"; stableURI(x) == x {
				b.WriteRune(r)
			}
		}
		if x := stableURI(b.String()); x == b.String() && len(x) > len(head) {
			out = append(out, x)
		}
	}
	return out
}

func octetURIs() []string {
	var out []string
	for _, head := range []string{"http://h/", "http://h/?", "http://h/#", "urn:x:"} {
		var b strings.Builder
		for i := 0; i < 256; i++ {
			fmt.Fprintf(&b, "%%%02X", i)
			if i%3 == 0 {
				fmt.Fprintf(&b, "/%%%02x", i)
			}
		}
		if x := stableURI(head + b.String()); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// withText puts a text into the focused places.
func withText(m *Comp, p pair, param, s string) *Comp {
	m = cloneComp(m)
	for _, c := range findComp(m, p.Comp) {
		for i := range c.Props {
			q := &c.Props[i]
			if q.Name != p.Prop {
				continue
			}
			switch {
			case param == "" && q.Val.K == kMText:
				q.Val.L = []Str{Str(s), "x", Str(s)}
			case param == "":
				q.Val.S, q.Val.U = Str(s), nil
			case paramDefs[param].Kind == pQTexts || paramDefs[param].Kind == pQAddrs:
				q.Params = []Param{{Name: param, Vals: []Str{Str(s), "x:y", Str(s)}}}
			default:
				q.Params = []Param{{Name: param, Vals: []Str{Str(s)}}}
			}
		}
	}
	return m
}

func (g *G) genChars(p pair, k kind, param string) *Case {
	g.Small = true
	def := defOf(p.Comp, p.Prop)
	if k == "" {
		k = def.Kinds[0]
	}
	m := g.focused(p, k, func() Val { return simpleVal(def, k) })
	c := &Case{How: "chars", Model: m, Recipe: param}
	for i := 0; i < 4; i++ {
		c.Ops = append(c.Ops, g.u(256))
	}
	return c
}

// runChars tries each text of the run in the focused place.
func runChars(c *Case, o *obs, rel func(m *Comp) string) string {
	p := parsePair(c.Site)
	ctl := c.Model
	if c.Recipe == "" {
		ctl = control(c.Model, p)
	}
	if rel(ctl) != "" {
		o.label("control fails")
		return ""
	}
	o.Nontrivial = true
	uri := false
	if c.Recipe != "" {
		k := paramDefs[c.Recipe].Kind
		uri = k == pQURI || k == pQAddrs
	} else {
		k := kind(strings.Split(c.Site, "|")[1])
		uri = k == kURI || k == kAddr
	}
	try := func(s string) string { return rel(withText(c.Model, p, c.Recipe, s)) }
	var texts []string
	if c.Doc != "" {
		texts = []string{string(c.Doc)}
	} else if texts = charTexts(c.Ops); uri {
		l := octetURIs()
		for _, s := range texts {
			l = append(l, charURIs(s)...)
		}
		texts = l
	}
	for _, s := range texts {
		o.each(c.Site + s)
		fail := try(s)
		if fail == "" {
			continue
		}
		if c.Doc != "" {
			return fail
		}
		ok := func(t string) bool { return !uri || stableURI(t) == t }
		for again := true; again; {
			again = false
			rs := []rune(s)
			for n := len(rs) / 2; n > 0 && !again; n /= 2 {
				for i := 0; i < len(rs); i += n {
					t := string(rs[:i]) + string(rs[min(i+n, len(rs)):])
					if t == "" || !ok(t) {
						continue
					}
					if f := try(t); f != "" {
						s, fail, again = t, f, true
						break
					}
				}
			}
		}
		d := *c
		d.Doc, d.Ops = Str(s), nil
		o.Narrow = &d
		return fmt.Sprintf("text %q: %s", clip(s), fail)
	}
	return ""
}

// charSites lists the places of texts and URIs, values and parameters.
func charSites() []string {
	v := &valueCheck{kinds: []kind{kText, kMText, kURI, kAddr}, modes: []string{"chars"}}
	q := &paramCheck{kinds: []paramKind{pText, pQText, pQTexts, pQURI, pQAddrs}, modes: []string{"chars"}}
	return append(v.sites(), q.sites()...)
}

// withChars gives a check runs over characters too.
func withChars(ck *check, rel func(m *Comp) string) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string { return append(sites(), charSites()...) }
	ck.Gen = func(g *G, site string) *Case {
		if !strings.HasSuffix(site, "|chars") {
			return gen(g, site)
		}
		p, f := parsePair(site), strings.Split(site, "|")
		if strings.HasPrefix(f[1], ";") {
			return g.genChars(p, "", f[1][1:])
		}
		return g.genChars(p, kind(f[1]), "")
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.How != "chars" {
			return old(c, o)
		}
		o.label("characters")
		return runChars(c, o, rel)
	}
}
