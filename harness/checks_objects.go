package main

import (
	"fmt"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// ---- C30 ----

// An item is a value within a calendar that can be changed on its own, or
// the room behind a list into which an append would write.
type item struct {
	Path     string
	From, To uintptr
	Spare    bool
	Local    bool // a time in the local zone
}

// items lists the changeable values below v and the spare room of its lists.
func items(v reflect.Value, path string, out *[]item) {
	add := func(v reflect.Value) *item {
		x := item{Path: path}
		if v.CanAddr() {
			x.From = v.Addr().Pointer()
			x.To = x.From + v.Type().Size()
		}
		*out = append(*out, x)
		return &(*out)[len(*out)-1]
	}
	switch v.Kind() {
	case reflect.Pointer:
		// user information is immutable
		if !v.IsNil() && v.Type() != reflect.TypeOf((*url.Userinfo)(nil)) {
			items(v.Elem(), path, out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			items(v.Elem(), path, out)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			add(v).Local = v.Interface().(time.Time).Location() == time.Local
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				items(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			items(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Slice:
		size := v.Type().Elem().Size()
		end := v.Pointer() + uintptr(v.Len())*size
		if v.Cap() > v.Len() {
			*out = append(*out, item{Path: path, From: end, To: v.Pointer() + uintptr(v.Cap())*size, Spare: true})
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, item{Path: path, From: v.Pointer(), To: end})
			return
		}
		for i := 0; i < v.Len(); i++ {
			items(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	default:
		add(v)
	}
}

// runApart wants every value of the decoded calendars to be an object of its
// own, so that changing it or appending to a list changes nothing else.
func runApart(c *Case, o *obs) string {
	var all []item
	var keep []*ics.Calendar
	for i, d := range c.Docs {
		cal, err, fail := decodeString(string(d))
		if err != nil || fail != "" {
			o.label("no baseline")
			return ""
		}
		keep = append(keep, cal)
		items(reflect.ValueOf(cal), fmt.Sprintf("calendar %d", i), &all)
	}
	o.Nontrivial = len(all) > 0
	sort.SliceStable(all, func(i, j int) bool { return all[i].From < all[j].From })
	var last *item // reaches furthest
	for i := range all {
		x := &all[i]
		if x.From == x.To {
			continue
		}
		if last != nil && x.From < last.To {
			switch {
			case last.Spare:
				return fmt.Sprintf("appending to %s changes %s", last.Path, x.Path)
			case x.Spare:
				return fmt.Sprintf("appending to %s changes %s", x.Path, last.Path)
			}
			return fmt.Sprintf("%s and %s are one object: changing one changes the other", last.Path, x.Path)
		}
		last = x
	}
	runtime.KeepAlive(keep)
	return ""
}

// local lists which times below v are in the local zone. To DeepEqual that
// zone may equal the named one it was loaded from.
func local(v reflect.Value, path string) (out string) {
	var all []item
	items(v, path, &all)
	for _, x := range all {
		if x.Local {
			out += x.Path + " "
		}
	}
	return out
}

// share makes equal parts of a calendar one object.
func share(v reflect.Value, seen map[reflect.Type][]reflect.Value, n *int) {
	same := func(v reflect.Value) bool {
		for _, old := range seen[v.Type()] {
			if reflect.DeepEqual(old.Interface(), v.Interface()) && local(old, "") == local(v, "") {
				v.Set(old)
				*n++
				return true
			}
		}
		if len(seen[v.Type()]) < 50 {
			seen[v.Type()] = append(seen[v.Type()], v)
		}
		return false
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && (!v.CanSet() || !same(v)) && v.Type() != reflect.TypeOf((*url.Userinfo)(nil)) {
			share(v.Elem(), seen, n)
		}
	case reflect.Interface:
		if !v.IsNil() && (!v.CanSet() || !same(v)) {
			share(v.Elem(), seen, n)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				share(v.Field(i), seen, n)
			}
		}
	case reflect.Slice:
		if v.Len() > 0 && (!v.CanSet() || !same(v)) && v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				share(v.Index(i), seen, n)
			}
		}
	}
}

// runShared wants a calendar holding one object in several places to be
// encoded like one holding copies of it.
func runShared(c *Case, o *obs) string {
	doc, err, fail := encode(build(c.Model))
	if err != nil || fail != "" {
		o.label("no baseline")
		return ""
	}
	cal, n := build(c.Model), 0
	share(reflect.ValueOf(cal), map[reflect.Type][]reflect.Value{}, &n)
	if o.Nontrivial = n > 0; n > 0 {
		o.label("shared parts")
	}
	got, err, fail := encode(cal)
	switch {
	case fail != "":
		return fail
	case err != nil:
		return "with shared parts Encode fails: " + err.Error()
	case got != doc:
		return "with shared parts the text differs: " + diff(doc, got)
	}
	// and again, when parts have been seen before
	if again, err, fail := encode(cal); err != nil || fail != "" || again != doc {
		return fmt.Sprintf("with shared parts the second text differs: %v %s %s", err, fail, diff(doc, again))
	}
	return ""
}

func genObjects(g *G, site string) *Case {
	p := parsePair(site)
	m := g.calendar(p.Comp, p.Prop, g.in(3))
	if p.Prop != "" && g.bool() {
		g.echo(m, p)
	}
	if g.in(3) {
		g.pad(m, p)
	}
	// the same component twice
	if len(m.Subs) > 0 && g.in(3) {
		i := g.n(len(m.Subs))
		m.Subs = append(m.Subs, *cloneComp(&m.Subs[i]))
	}
	if strings.HasSuffix(site, "|shared") {
		return &Case{How: "shared", Model: m}
	}
	s := g.style(pick(g, []string{"", "os", "uos", "c"}))
	c := &Case{How: "apart", Docs: []Str{Str(s.doc(s.lines(m)))}}
	if g.bool() {
		c.Docs = append(c.Docs, c.Docs[0])
	} else {
		c.Docs = append(c.Docs, Str(renderPlain(g.calendar(p.Comp, p.Prop, false))))
	}
	return c
}

func init() {
	register(&check{ID: "C30", Rule: "the texts decode and hold a value, or the calendar encodes and holds equal parts that are made one; counted once per distinct input", Quick: 100, Thorough: 1200,
		Sites: func() []string {
			var out []string
			for _, s := range pairStrings() {
				out = append(out, s+"|apart", s+"|shared")
			}
			return out
		},
		Gen: genObjects,
		Run: func(c *Case, o *obs) string {
			if c.How == "shared" {
				return runShared(c, o)
			}
			return runApart(c, o)
		}})
}
