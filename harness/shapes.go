package main

import (
	"fmt"
	"strings"
)

// Shapes are all small arrangements of parts: every sequence of up to four
// kinds of component within another, every number of each of up to three, every
// set of up to three properties of a component, and all but any two of them.

func shapeSites() []string {
	var out []string
	for _, c := range compList {
		if len(c.Subs) > 0 {
			out = append(out, c.Name+"/|parts|shape")
		}
		if c.Name != "VCALENDAR" && len(c.Props) > 2 {
			out = append(out, c.Name+"/|properties|shape")
		}
	}
	return out
}

// inside lists the kinds of component another may hold.
func inside(comp string) []string {
	subs := compDefs[comp].Subs
	if len(subs) == 1 && subs[0] == "VALARM" {
		subs = nil
		for _, k := range alarmKinds {
			subs = append(subs, "VALARM:"+k)
		}
	}
	return subs
}

func genShape(g *G, site string) *Case {
	g.Small = true
	p := parsePair(site)
	c := &Case{How: "shape", Note: strings.Split(site, "|")[1]}
	c.Model = g.calendar(p.Comp, "", false)
	c.Ops = []int{g.u(1 << 16)}
	if c.Note == "properties" {
		full := Comp{Name: p.Comp}
		for _, u := range compDefs[p.Comp].Props {
			n := 1
			if u.Card == many {
				n = g.span(1, 2)
			}
			for ; n > 0; n-- {
				full.Props = append(full.Props, g.prop(p.Comp, u.Name, false))
			}
		}
		c.Models = []*Comp{&full}
		return c
	}
	lean := g.in(3)
	for _, k := range inside(p.Comp) {
		for i := 0; i < 4; i++ {
			d := 2
			if lean {
				d = 30
			}
			x := g.component(k, "", d, 0)
			c.Models = append(c.Models, &x)
		}
	}
	return c
}

// arrangements lists which of n kinds come in which order.
func arrangements(n int) [][]int {
	var out [][]int
	most := 4
	if n == 2 {
		most = 7
	}
	var seq func(s []int)
	seq = func(s []int) {
		if len(s) > 0 {
			out = append(out, append([]int(nil), s...))
		}
		if len(s) == most {
			return
		}
		for k := 0; k < n; k++ {
			seq(append(s, k))
		}
	}
	seq(nil)
	// numbers of each, dealt out in turn
	counts := make([]int, n)
	for {
		i := 0
		for i < n && counts[i] == 3 {
			counts[i] = 0
			i++
		}
		if i == n {
			return out
		}
		counts[i]++
		var s []int
		for round := 0; round < 3; round++ {
			for k := range counts {
				if counts[k] > round {
					s = append(s, k)
				}
			}
		}
		if len(s) > most {
			out = append(out, s)
		}
	}
}

// choices lists sets of up to three of n things, and their complements up to
// two.
func choices(n int) [][]bool {
	var out [][]bool
	set := func(rest bool, of ...int) {
		s := make([]bool, n)
		for i := range s {
			s[i] = rest
		}
		for _, i := range of {
			s[i] = !rest
		}
		out = append(out, s)
	}
	for i := 0; i < n; i++ {
		set(false, i)
		set(true, i)
		for j := 0; j < i; j++ {
			set(false, i, j)
			set(true, i, j)
			for k := 0; k < j; k++ {
				set(false, i, j, k)
			}
		}
	}
	return out
}

// chosen gives the component only some of its optional properties, with what
// these need.
func chosen(full *Comp, names []string, take []bool, other bool) *Comp {
	has := map[string]bool{}
	for i, n := range names {
		has[n] = take[i]
	}
	for _, r := range rules {
		if r.Comp == full.Name && r.Kind == "excl" && has[r.A] && has[r.B] {
			has[map[bool]string{true: r.A, false: r.B}[other]] = false
		}
	}
	for _, r := range rules {
		if r.Comp == full.Name && (r.Kind == "needs" || r.Kind == "both") && has[r.A] {
			has[r.B] = true
		}
	}
	if isAlarm(full.Name) && (has["DURATION"] || has["REPEAT"]) {
		has["DURATION"], has["REPEAT"] = true, true
	}
	c := &Comp{Name: full.Name}
	for _, p := range full.Props {
		if has[p.Name] || cardOf(full.Name, p.Name) == one {
			c.Props = append(c.Props, p)
		}
	}
	return c
}

func runShape(c *Case, o *obs, rel func(m *Comp) string) string {
	comp := parsePair(c.Site).Comp
	place := func(subs []Comp, props []Prop) *Comp {
		m := cloneComp(c.Model)
		x := findComp(m, comp)[0]
		if props != nil {
			x.Props = props
			return cloneComp(m)
		}
		x.Subs = subs
		return cloneComp(m)
	}
	var models func(i int) *Comp
	var controls []*Comp
	n := 0
	if c.Note == "properties" {
		full := c.Models[0]
		var names []string
		for _, u := range compDefs[comp].Props {
			if u.Card != one {
				names = append(names, u.Name)
			}
		}
		list := choices(len(names))
		n = len(list)
		models = func(i int) *Comp {
			return place(nil, chosen(full, names, list[i], c.Ops[0]%2 == 0).Props)
		}
		for i := range names {
			take := make([]bool, len(names))
			take[i] = true
			controls = append(controls, place(nil, chosen(full, names, take, false).Props))
		}
	} else {
		kinds := len(inside(comp))
		list := arrangements(kinds)
		n = len(list)
		models = func(i int) *Comp {
			used := make([]int, kinds)
			var subs []Comp
			for _, k := range list[i] {
				subs = append(subs, *c.Models[k*4+used[k]%4])
				used[k]++
			}
			return place(subs, nil)
		}
		for _, m := range c.Models {
			controls = append(controls, place([]Comp{*m}, nil))
		}
	}
	for _, m := range controls {
		if fail := rel(m); fail != "" {
			o.label("control fails")
			return ""
		}
	}
	o.Nontrivial = true
	if c.N > 0 {
		return rel(models(c.N - 1))
	}
	seed := fmt.Sprint(c.hash(), "/")
	for i := 0; i < n; i++ {
		o.each(seed + fmt.Sprint(i))
		if fail := rel(models(i)); fail != "" {
			d := *c
			d.N = i + 1
			o.Narrow = &d
			return fmt.Sprintf("shape %d: %s", i, fail)
		}
	}
	return ""
}

// withShapes gives a check shapes too.
func withShapes(ck *check, only func(site string) bool, rel func(m *Comp) string) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string {
		out := sites()
		for _, s := range shapeSites() {
			if only == nil || only(s) {
				out = append(out, s)
			}
		}
		return out
	}
	ck.Gen = func(g *G, site string) *Case {
		if !strings.HasSuffix(site, "|shape") {
			return gen(g, site)
		}
		return genShape(g, site)
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.How != "shape" {
			return old(c, o)
		}
		o.label("shape")
		return runShape(c, o, rel)
	}
}
