package main

import (
	"fmt"
	"io"
	"strings"
)

// Large calendars are made from a recipe and a size, so that a case of
// megabytes is stored as two fields.

var bigRecipes = []string{"text", "wide", "escaped", "binary", "list", "param", "members", "comments", "events", "alarms", "yeardays", "zones"}

// counted is a text of n octets or a little more in which no two places look
// the same.
func counted(n int, unit string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%d%s", i, unit)
	}
	return b.String()
}

func bigModel(recipe string, n int) *Comp {
	event := func(i int, ps ...Prop) Comp {
		return Comp{Name: "VEVENT", Props: append([]Prop{
			{Name: "DTSTAMP", Val: Val{K: kDateTime, T: &Tm{Y: 2020, Mo: 1, D: 2, H: 3, Mi: 4, S: i % 60, Zone: "UTC"}}},
			{Name: "UID", Val: Val{K: kText, S: Str(fmt.Sprintf("u%d", i))}}}, ps...)}
	}
	text := func(name, s string) Prop { return Prop{Name: name, Val: Val{K: kText, S: Str(s)}} }
	m := &Comp{Name: "VCALENDAR", Props: []Prop{text("PRODID", "p"), text("VERSION", "2.0")}}
	one := func(ps ...Prop) *Comp {
		m.Subs = []Comp{event(0, ps...), event(1)}
		return m
	}
	switch recipe {
	case "text":
		return one(text("DESCRIPTION", counted(n, "x")))
	case "wide":
		return one(text("DESCRIPTION", counted(n, "é世😀")))
	case "escaped":
		return one(text("DESCRIPTION", counted(n, "\\,;\n")))
	case "binary":
		b := make([]byte, n*3/4)
		x := uint32(1)
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return one(Prop{Name: "ATTACH", Val: Val{K: kBinary, B: b}})
	case "list":
		return one(Prop{Name: "CATEGORIES", Val: Val{K: kMText, L: strs(strings.Fields(counted(n, " ")))}})
	case "param":
		return one(Prop{Name: "SUMMARY", Params: []Param{{Name: "LANGUAGE", Vals: []Str{Str(counted(n, "^\";"))}}}, Val: Val{K: kText, S: "x"}})
	case "members":
		var l []Str
		for i := 0; i < n/16; i++ {
			l = append(l, Str(fmt.Sprintf("mailto:m%d@h", i)))
		}
		if l == nil {
			l = []Str{"mailto:m"}
		}
		return one(Prop{Name: "ATTENDEE", Params: []Param{{Name: "DELEGATED-TO", Vals: l}}, Val: Val{K: kAddr, S: "mailto:a@b"}})
	case "comments":
		var ps []Prop
		for i := 0; i < n/16; i++ {
			ps = append(ps, text("COMMENT", fmt.Sprint(i)))
		}
		return one(ps...)
	case "events":
		for i := 0; i <= n/64; i++ {
			m.Subs = append(m.Subs, event(i))
		}
		return m
	case "alarms":
		e := event(0)
		for i := 0; i <= n/64; i++ {
			e.Subs = append(e.Subs, Comp{Name: "VALARM:AUDIO", Props: []Prop{{Name: "TRIGGER", Val: Val{K: kDuration, D: &Dur{S: uint(i)}}}}})
		}
		m.Subs = []Comp{e, event(1)}
		return m
	case "yeardays":
		r := &Rec{Freq: 6}
		for i := 0; i <= n/4; i++ {
			r.ByYearDay = append(r.ByYearDay, 1+i*7%366)
		}
		return one(Prop{Name: "RRULE", Val: Val{K: kRecur, R: r}})
	case "zones":
		for i := 0; i <= n/256; i++ {
			m.Subs = append(m.Subs, Comp{Name: "VTIMEZONE", Props: []Prop{text("TZID", fmt.Sprintf("z%d", i))}, Subs: []Comp{{Name: "STANDARD", Props: []Prop{
				{Name: "DTSTART", Val: Val{K: kDateTime, T: &Tm{Y: 2020, Mo: 1, D: 2, Zone: "Local"}}},
				{Name: "TZOFFSETFROM", Val: Val{K: kOffset, I: int64(i % 3600)}},
				{Name: "TZOFFSETTO", Val: Val{K: kOffset, I: 3600}}}}}})
		}
		return m
	}
	bad("recipe %q", recipe)
	return nil
}

func strs(l []string) []Str {
	out := make([]Str, len(l))
	for i, s := range l {
		out[i] = Str(s)
	}
	return out
}

func bigSites() []string {
	var out []string
	for _, r := range bigRecipes {
		out = append(out, "/|big:"+r)
	}
	return out
}

// genBig draws sizes around powers of two, where buffers and counters end.
func genBig(g *G, site string) *Case {
	_, r, _ := strings.Cut(site, "|big:")
	c := &Case{Recipe: r}
	k := g.n(22)
	c.N = 1<<k + g.span(-20, 60)
	if c.N < 0 {
		c.N = 0
	}
	if r == "events" || r == "alarms" || r == "comments" || r == "members" || r == "zones" {
		c.N = c.N/2 + 1
	}
	switch g.n(3) {
	case 1:
		c.Sizes = []int{1 + g.n(4097), g.n(5000), 1 + g.n(100000)}
	case 2:
		c.Sizes = []int{pick(g, []int{512, 1024, 4095, 4096, 4097, 8192, 65536})}
	}
	return c
}

// withBig gives a check the sites of large calendars too.
func withBig(ck *check, run func(m *Comp, c *Case, o *obs) string) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string { return append(bigSites(), sites()...) }
	ck.Gen = func(g *G, site string) *Case {
		if strings.HasPrefix(site, "/|big:") {
			return genBig(g, site)
		}
		return gen(g, site)
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.Recipe == "" || !strings.HasPrefix(c.Site, "/|big:") {
			return old(c, o)
		}
		o.Nontrivial = true
		o.label("large " + c.Recipe)
		if c.N > 1<<16 {
			o.label("over 64 KiB")
		}
		if c.N > 1<<20 {
			o.label("over 1 MiB")
		}
		return run(bigModel(c.Recipe, c.N), c, o)
	}
}

func addBig() {
	withBig(checks["C01"], func(m *Comp, c *Case, o *obs) string { return roundTrip(m) })
	withBig(checks["C02"], func(m *Comp, c *Case, o *obs) string { return readBack(m) })
	withBig(checks["C03"], func(m *Comp, c *Case, o *obs) string { return decodeTo(renderPlain(m), canon(m)) })
	withBig(checks["C04"], func(m *Comp, c *Case, o *obs) string { return runFolding(&Case{Model: m}, o) })
	withBig(checks["C05"], func(m *Comp, c *Case, o *obs) string {
		plainDoc := renderPlain(m)
		want, ok := baseline(Str(plainDoc), o)
		if !ok {
			return ""
		}
		// folds at a steady distance, so that some fall on every boundary
		var b strings.Builder
		for _, l := range strings.SplitAfter(plainDoc, "\r\n") {
			for len(l) > 75 {
				b.WriteString(l[:60] + "\r\n ")
				l = l[60:]
			}
			b.WriteString(l)
		}
		cal, err, fail := decode(&chunkReader{data: b.String(), sizes: c.Sizes, err: io.EOF})
		if fail != "" {
			return fail
		}
		if err != nil {
			return "Decode failed on the folded or split text: " + err.Error()
		}
		if got := canon(extract(cal)); got != want {
			return "calendar changed: " + diff(want, got)
		}
		return ""
	})
}
