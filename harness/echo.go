package main

// Echoes are values that stand in a calendar more than once: properties that
// agree with each other, repeated properties and components that are the same,
// equal items of a list, parameters that say what the value says. Code that
// compares, merges or drops what is equal only shows itself on these.

// like gives a value of the kind of the first with the content of the second.
func (g *G) like(v, w Val) (Val, bool) {
	uri := func(k kind) bool { return k == kURI || k == kAddr }
	day := func(k kind) bool { return k == kDate || k == kDateTime }
	switch {
	case v.K == kEnum:
		return v, false
	case v.K == w.K:
		n := w
		if day(v.K) && g.in(3) {
			// the same wall clock or the same instant in a different zone
			t := *w.T
			if t.Zero || v.T.Zero {
				return v, false
			}
			if v.K == kDateTime && g.bool() {
				u := t.Time().In(v.T.Location())
				t.Y, t.Mo, t.D, t.H, t.Mi, t.S = u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second()
			}
			t.Zone, t.Off = v.T.Zone, v.T.Off
			n.T = settle(&t)
		}
		return n, true
	case uri(v.K) && uri(w.K):
		n := w
		n.K = v.K
		return n, true
	case day(v.K) && day(w.K):
		t := *v.T
		t.Y, t.Mo, t.D = w.T.Y, w.T.Mo, w.T.D
		if t.Zero || w.T.Zero {
			return v, false
		}
		n := v
		n.T = settle(&t)
		return n, true
	}
	return v, false
}

// echoProp lets parameters repeat each other, their own items or the value.
func (g *G) echoProp(p *Prop) {
	own := func(q *Param) bool {
		switch paramDefs[q.Name].Kind {
		case pText, pQText, pQTexts:
			return true
		}
		return false
	}
	addr := func(q *Param) bool {
		switch paramDefs[q.Name].Kind {
		case pQURI, pQAddrs:
			return true
		}
		return false
	}
	for i := range p.Params {
		q := &p.Params[i]
		switch paramDefs[q.Name].Kind {
		case pQTexts, pQAddrs:
			if g.bool() && len(q.Vals) > 0 {
				v := pick(g, q.Vals)
				q.Vals = append(append([]Str(nil), q.Vals...), v)
			}
		}
		if g.in(3) && len(q.Vals) > 0 {
			for j := range p.Params {
				o := &p.Params[j]
				if j != i && len(o.Vals) > 0 && (own(q) && own(o) || addr(q) && addr(o)) {
					o.Vals = append([]Str(nil), o.Vals...)
					o.Vals[0] = q.Vals[0]
				}
			}
		}
		if g.in(3) && len(q.Vals) > 0 {
			ok := p.Val.U == nil && (p.Val.K == kURI || p.Val.K == kAddr) && addr(q) || p.Val.K == kText && own(q)
			if ok && p.Val.S != "" {
				q.Vals = append([]Str(nil), q.Vals...)
				q.Vals[0] = p.Val.S
			}
		}
	}
	switch p.Val.K {
	case kMText:
		if len(p.Val.L) > 0 {
			l := append([]Str(nil), p.Val.L...)
			for k := g.span(1, 2); k > 0; k-- {
				v, at := pick(g, l), g.u(len(l)+1)
				l = append(l[:at:at], append([]Str{v}, l[at:]...)...)
			}
			p.Val.L = l
		}
	case kRecur:
		r := *p.Val.R
		for _, l := range []*[]int{&r.BySecond, &r.ByMinute, &r.ByHour, &r.ByMonthDay, &r.ByYearDay, &r.ByWeekNo, &r.ByMonth, &r.BySetPos} {
			if len(*l) > 0 && g.bool() {
				n := append([]int(nil), *l...)
				v, at := pick(g, n), g.u(len(n)+1)
				*l = append(n[:at:at], append([]int{v}, n[at:]...)...)
			}
		}
		if len(r.ByDay) > 0 && g.bool() {
			n := append([][2]int(nil), r.ByDay...)
			v, at := pick(g, n), g.u(len(n)+1)
			r.ByDay = append(n[:at:at], append([][2]int{v}, n[at:]...)...)
		}
		p.Val.R = &r
	case kPeriod, kGeo:
		if p.Val.K == kGeo && len(p.Val.F) == 2 {
			p.Val.F = []Flt{p.Val.F[0], p.Val.F[0]}
		}
	}
}

// echo makes parts of a calendar repeat each other, around the focus where it
// has one.
func (g *G) echo(m *Comp, p pair) {
	c, i := firstOf(m, p)
	if c == nil || p.Prop == "" && len(c.Props) == 0 {
		return
	}
	if p.Prop == "" {
		i = g.u(len(c.Props))
	}
	what := 1 + g.u(15)
	if what&1 != 0 {
		g.echoProp(&c.Props[i])
	}
	if what&2 != 0 {
		// the other properties say what this one says
		w := c.Props[i].Val
		for j := range c.Props {
			if j != i && g.in(2) {
				if v, ok := g.like(c.Props[j].Val, w); ok {
					c.Props[j].Val = v
				}
			}
		}
	}
	if what&4 != 0 {
		// the same line again
		for j := len(c.Props) - 1; j >= 0; j-- {
			if q := c.Props[j]; cardOf(c.Name, q.Name) == many && (j == i || g.in(3)) {
				q.Params = append([]Param(nil), q.Params...)
				if len(q.Params) > 0 && g.in(3) {
					q.Params = q.Params[1:]
				}
				at := j + 1
				if g.in(3) {
					at = len(c.Props)
				}
				c.Props = append(c.Props[:at:at], append([]Prop{q}, c.Props[at:]...)...)
			}
		}
	}
	if what&8 != 0 {
		// the same component again, whole or with a change
		up, at := parentOf(m, c)
		if up == nil {
			return
		}
		if up != m && g.bool() {
			c, up = up, m
			_, at = parentOf(m, c)
		}
		d := *cloneComp(c)
		if n := len(d.Props); n > 1 && g.bool() {
			j := g.u(n)
			d.Props[j].Val = vary(d.Props[j].Val, 1)
		}
		if g.bool() {
			at++
		} else if g.bool() {
			at = len(up.Subs)
		}
		up.Subs = append(up.Subs[:at:at], append([]Comp{d}, up.Subs[at:]...)...)
	} else if g.in(2) {
		g.mirror(m, c)
	}
}

// mirror adds a component of another kind that says what one says.
func (g *G) mirror(m, c *Comp) {
	for up, _ := parentOf(m, c); up != nil && up != m; up, _ = parentOf(m, c) {
		c = up
	}
	kinds := []string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY"}
	d := Comp{Name: pick(g, kinds)}
	ok := false
	for _, k := range kinds {
		ok = ok || c.Name == k && d.Name != k
	}
	if !ok {
		return
	}
	seen := map[string]bool{}
	for _, p := range cloneComp(c).Props {
		switch p.Name {
		case "DTEND", "DUE", "DURATION", "STATUS": // rules and words differ
			continue
		}
		fits := false
		for _, u := range compDefs[d.Name].Props {
			fits = fits || u.Name == p.Name && (u.Card == many || !seen[p.Name])
		}
		if fits {
			seen[p.Name] = true
			d.Props = append(d.Props, p)
		}
	}
	if seen["UID"] && seen["DTSTAMP"] {
		m.Subs = append(m.Subs, d)
	}
}
