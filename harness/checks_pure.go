package main

import (
	"bytes"
	"fmt"
	"io"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"vimagination.zapto.org/ics"
)

// outcome is what one call gave, as far as the properties speak of it.
type outcome struct {
	Text   string // written octets, or canonical text of the calendar
	Failed bool
}

// hookReader runs something else between its reads.
type hookReader struct {
	r    io.Reader
	hook func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if h.hook != nil {
		h.hook()
	}
	return h.r.Read(p)
}

type hookWriter struct {
	w    io.Writer
	hook func()
}

func (h *hookWriter) Write(p []byte) (int, error) {
	if h.hook != nil {
		h.hook()
	}
	n, err := h.w.Write(p)
	if h.hook != nil {
		h.hook()
	}
	return n, err
}

const opKinds = 5

// perform does one operation. The low part of the number picks the input.
func perform(op int, cals []*ics.Calendar, docs []Str, hook func()) (out outcome, fail string) {
	kind, arg := op%opKinds, op/opKinds
	switch kind {
	case 0, 3: // encode, 3 into a failing writer
		if len(cals) == 0 {
			return
		}
		cal := cals[arg%len(cals)]
		var b bytes.Buffer
		var w io.Writer = &b
		var fw *faultWriter
		if kind == 3 {
			fw = &faultWriter{room: arg * 7 % 200, err: errInjected}
			w = fw
		}
		var err error
		fail = guard("Encode", func() { err = ics.Encode(&hookWriter{w, hook}, cal) })
		out = outcome{b.String(), err != nil}
		if fw != nil {
			out.Text = fw.buf.String()
		}
	default: // decode, 2 in small reads, 4 from a failing reader
		if len(docs) == 0 {
			return
		}
		doc := string(docs[arg%len(docs)])
		var r io.Reader = strings.NewReader(doc)
		switch kind {
		case 2:
			r = &chunkReader{data: doc, sizes: []int{1 + arg%23, 3}, err: io.EOF}
		case 4:
			r = &chunkReader{data: doc[:len(doc)*(arg%10)/10], sizes: []int{1 + arg%40}, err: errInjected}
		}
		cal, err, f := decode(&hookReader{r, hook})
		fail = f
		out.Failed = err != nil
		if cal != nil {
			out.Text = canon(extract(cal))
		}
	}
	return
}

func pureSites() []string {
	var out []string
	for _, c := range compList {
		for _, m := range []string{"nested", "concurrent", "share", "sequence", "reuse", "fresh"} {
			out = append(out, c.Name+"/|"+m)
		}
	}
	return out
}

func genPure(g *G, site string) *Case {
	p := parsePair(site)
	_, mode, _ := strings.Cut(site, "|")
	g.Small = true
	c := &Case{How: mode}
	if mode == "fresh" {
		return genFresh(g, p, c)
	}
	for n := 1 + g.n(3); n > 0; n-- {
		comp := p.Comp
		if g.bool() {
			comp = pick(g, compList).Name
		}
		g.Loose = g.in(3)
		m := g.calendar(comp, "", g.bool())
		if g.in(4) {
			// one that is refused
			if x := findComp(m, comp); len(x[0].Props) > 0 {
				g.plant(m, pair{comp, x[0].Props[0].Name}, "value "+string(x[0].Props[0].Val.K))
			}
			if !reflect.DeepEqual(build(m), build(m)) {
				m = g.calendar(comp, "", false)
			}
		}
		c.Models = append(c.Models, m)
	}
	g.Loose = false
	for n := 1 + g.n(3); n > 0; n-- {
		m := g.calendar(p.Comp, "", g.bool())
		s := g.style(pick(g, []string{"", "os", "f", "uos", "c"}))
		lines := s.lines(m)
		d := s.doc(lines)
		if mode != "share" && g.in(4) {
			d = join(g.lineEdits(texts(lines)))
		}
		c.Docs = append(c.Docs, Str(d))
	}
	for n := 2 + g.n(8); n > 0; n-- {
		c.Ops = append(c.Ops, g.u(opKinds)+opKinds*g.n(40))
	}
	return c
}

// settleCalls decodes and encodes something simple, so that what is measured
// next does not follow whatever came before.
func settleCalls() {
	cal, err, fail := decodeString("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20010101T000000Z\r\nDTSTART:20010101T000000Z\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")
	if err == nil && fail == "" {
		encode(cal)
	}
}

func runPure(c *Case, o *obs) string {
	if c.How == "fresh" {
		return runFresh(c, o)
	}
	cals := make([]*ics.Calendar, len(c.Models))
	same := func() string {
		for i, m := range c.Models {
			if !reflect.DeepEqual(cals[i], build(m)) {
				return fmt.Sprintf("calendar %d was modified", i)
			}
		}
		return ""
	}
	for i, m := range c.Models {
		cals[i] = build(m)
	}
	switch c.How {
	case "share":
		return runShare(c, o)
	case "reuse":
		return runReuse(c, o)
	}
	// operations at the same time come first, as long as nothing has been
	// prepared by other calls
	const workers = 4
	type result struct {
		op   int
		got  outcome
		fail string
	}
	results := make([][]result, workers)
	if c.How == "concurrent" {
		fails := make([]string, workers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fails[w] = fmt.Sprintf("harness: %v", r)
					}
				}()
				<-start
				for k := range c.Ops {
					i := (k + w*len(c.Ops)/workers) % len(c.Ops)
					if w%2 == 1 {
						i = len(c.Ops) - 1 - i
					}
					got, fail := perform(c.Ops[i], cals, c.Docs, nil)
					results[w] = append(results[w], result{i, got, fail})
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for _, f := range fails {
			if f != "" {
				bad("%s", f)
			}
		}
	}
	// each operation alone, on its own objects, after the same other one
	want := make([]outcome, len(c.Ops))
	for i, op := range c.Ops {
		settleCalls()
		own := make([]*ics.Calendar, len(c.Models))
		for j, m := range c.Models {
			own[j] = build(m)
		}
		var fail string
		if want[i], fail = perform(op, own, c.Docs, nil); fail != "" {
			o.label("no baseline")
			return ""
		}
		if want[i].Failed {
			o.label("failing operation")
		}
	}
	o.Nontrivial = true
	compare := func(i int, got outcome, fail string) string {
		switch {
		case fail != "":
			return fmt.Sprintf("operation %d: %s", i, fail)
		case got.Failed != want[i].Failed:
			return fmt.Sprintf("operation %d: failed is %v, alone %v", i, got.Failed, want[i].Failed)
		case got.Text != want[i].Text:
			return fmt.Sprintf("operation %d: result differs from that alone: %s", i, diff(want[i].Text, got.Text))
		}
		return ""
	}
	switch c.How {
	case "sequence":
		for round := 0; round < 3; round++ {
			for k := range c.Ops {
				i := k
				if round == 1 {
					i = len(c.Ops) - 1 - k
				}
				got, fail := perform(c.Ops[i], cals, c.Docs, nil)
				if fail := compare(i, got, fail); fail != "" {
					return "in sequence: " + fail
				}
			}
			if fail := same(); fail != "" {
				return fail
			}
		}
	case "nested":
		// each operation runs within the reads and writes of the one before
		var first string
		steps := 0
		var run func(i, depth int)
		run = func(i, depth int) {
			var hook func()
			if depth < 3 && i+1 < len(c.Ops) {
				calls := 0
				hook = func() {
					if calls++; calls > 6 || steps > 400 || first != "" {
						return
					}
					steps++
					run(i+1, depth+1)
				}
			}
			got, fail := perform(c.Ops[i], cals, c.Docs, hook)
			if fail = compare(i, got, fail); fail != "" && first == "" {
				first = fmt.Sprintf("at depth %d: %s", depth, fail)
			}
		}
		for i := 0; i < len(c.Ops) && first == ""; i += 3 {
			run(i, 0)
		}
		if first != "" {
			return "interleaved: " + first
		}
	case "concurrent":
		for _, l := range results {
			for _, r := range l {
				if fail := compare(r.op, r.got, r.fail); fail != "" {
					return "concurrently: " + fail
				}
			}
		}
	default:
		bad("mode %q", c.How)
	}
	return same()
}

// scribble overwrites everything reachable.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *time.Time:
			*x = time.Unix(123456789, 0).UTC()
			return
		case *url.URL:
			x.Scheme, x.Opaque, x.Host, x.Path, x.RawPath, x.RawQuery, x.Fragment = "scribble", "scribble", "", "", "", "s", "s"
			if x.User != nil {
				*x.User = *url.User("scribble")
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
		// the room behind the elements belongs to the slice as well
		if v.CanSet() && v.Cap() > v.Len() {
			w := v.Slice(0, v.Cap())
			for i := v.Len(); i < w.Len(); i++ {
				if e := w.Index(i); e.CanSet() && e.Kind() != reflect.Struct && e.Kind() != reflect.Interface {
					scribble(e)
				}
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.String:
		v.SetString("scribble")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.Float64:
		v.SetFloat(77)
	}
}

// runShare wants calendars decoded separately to be independent.
func runShare(c *Case, o *obs) string {
	for i, d := range c.Docs {
		d := string(d)
		want, ok := baseline(Str(d), o)
		if !ok {
			continue
		}
		a, err1, f1 := decodeString(d)
		b, err2, f2 := decodeString(d)
		if f1+f2 != "" || err1 != nil || err2 != nil {
			return fmt.Sprintf("text %d does not decode every time: %s%s %v %v", i, f1, f2, err1, err2)
		}
		o.Nontrivial = true
		scribble(reflect.ValueOf(a).Elem())
		if got := canon(extract(b)); got != want {
			return "changing one calendar changed another: " + diff(want, got)
		}
		if fail := decodeTo(d, want); fail != "" {
			return "changing a calendar changed later decodings: " + fail
		}
	}
	return ""
}

// fill makes dst hold what src holds while keeping as much of the storage of
// dst as possible.
func fill(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Pointer:
		if !dst.IsNil() && !src.IsNil() && dst.Type().Elem().Kind() == reflect.Struct {
			if _, ok := dst.Interface().(*time.Location); !ok {
				fill(dst.Elem(), src.Elem())
				return
			}
		}
		dst.Set(src)
	case reflect.Struct:
		switch dst.Interface().(type) {
		case time.Time, url.URL:
			dst.Set(src)
			return
		}
		for i := 0; i < dst.NumField(); i++ {
			if dst.Field(i).CanSet() {
				fill(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Slice:
		if dst.Cap() >= src.Len() && !src.IsNil() {
			dst.SetLen(src.Len())
			for i := 0; i < src.Len(); i++ {
				fill(dst.Index(i), src.Index(i))
			}
			return
		}
		dst.Set(src)
	default:
		dst.Set(src)
	}
}

// runReuse changes what a calendar holds between encodings, and uses readers,
// writers and decoded calendars again for something else.
func runReuse(c *Case, o *obs) string {
	want := make([]outcome, len(c.Models))
	for i, m := range c.Models {
		doc, err, fail := encode(build(m))
		if fail != "" {
			o.label("no baseline")
			return ""
		}
		want[i] = outcome{doc, err != nil}
		if err != nil {
			o.label("failing operation")
		}
	}
	o.Nontrivial = true
	cal := build(c.Models[0])
	var b bytes.Buffer
	for k, op := range append([]int{0}, c.Ops...) {
		i := op / opKinds % len(c.Models)
		if k > 0 {
			switch op % 3 {
			case 0:
				*cal = *build(c.Models[i])
			default:
				fill(reflect.ValueOf(cal).Elem(), reflect.ValueOf(build(c.Models[i])).Elem())
			}
			if !reflect.DeepEqual(cal, build(c.Models[i])) {
				*cal = *build(c.Models[i])
			}
		} else {
			i = 0
		}
		b.Reset()
		var err error
		if fail := guard("Encode", func() { err = ics.Encode(&b, cal) }); fail != "" {
			return fail
		}
		if (err != nil) != want[i].Failed {
			return fmt.Sprintf("a calendar changed in place: failed is %v, a new one with that content %v", err != nil, want[i].Failed)
		}
		if b.String() != want[i].Text {
			return "a calendar changed in place is not encoded as one with that content: " + diff(want[i].Text, b.String())
		}
	}
	var r strings.Reader
	for _, op := range c.Ops {
		d := string(c.Docs[op/opKinds%len(c.Docs)])
		_, err, fail := decodeString(d)
		if fail != "" {
			continue
		}
		r.Reset(d)
		cal2, err2, fail := decode(&r)
		switch {
		case fail != "":
			return fail
		case (err == nil) != (err2 == nil):
			return fmt.Sprintf("a reader used again: %v, a new one: %v", err2, err)
		case err == nil:
			x, _, _ := decodeString(d)
			if got, want := canon(extract(cal2)), canon(extract(x)); got != want {
				return "a reader used again gives something else: " + diff(want, got)
			}
			// what was decoded may be changed and encoded at will
			*cal2 = *cal
			scribble(reflect.ValueOf(x).Elem())
		}
	}
	return ""
}

// pure wants a calendar to be as before after it was encoded, and the text it
// gave to be decoded alike each time.
func pure(m *Comp) string {
	cal := build(m)
	first, err, fail := encode(cal)
	if fail != "" {
		return ""
	}
	if !reflect.DeepEqual(cal, build(m)) {
		return "encoding modified the calendar"
	}
	second, err2, fail := encode(cal)
	if fail != "" || (err == nil) != (err2 == nil) || first != second {
		return fmt.Sprintf("encoding again gives something else: %s %v %v %s", fail, err, err2, diff(first, second))
	}
	if err != nil {
		return ""
	}
	a, err, fail := decodeString(first)
	if fail != "" || err != nil {
		return ""
	}
	want := canon(extract(a))
	b, err, fail := decodeString(first)
	if fail != "" || err != nil {
		return fmt.Sprintf("decodes only once: %s %v", fail, err)
	}
	scribble(reflect.ValueOf(a).Elem())
	if got := canon(extract(b)); got != want {
		return "decoding again gives something else or shares with the first: " + diff(want, got)
	}
	return ""
}

// priorText is accepted and has something of everything.
const priorText = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//prior//text\r\nBEGIN:VTIMEZONE\r\nTZID:Prior\r\nBEGIN:STANDARD\r\nDTSTART:20001029T030000\r\nTZOFFSETFROM:0200\r\nTZOFFSETTO:-010030\r\nRRULE:FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n" +
	"BEGIN:VEVENT\r\nUID:prior-1\r\nDTSTAMP:20010203T040506Z\r\nDTSTART;TZID=Asia/Tokyo:20010203T040506\r\nDURATION:P1DT2H3M4S\r\nSUMMARY;LANGUAGE=xx;ALTREP=\"http://prior.example/a\":Prior\\, text \\n with a line that is long enough to be folded wherever the \r\n folding takes place\r\nGEO:12.5;-7.25\r\nATTENDEE;CN=Prior^'s;RSVP=TRUE;ROLE=CHAIR;MEMBER=\"mailto:prior-m@example.com\":mailto:prior@example.com\r\nCATEGORIES:prior,text\r\nATTACH;ENCODING=BASE64;VALUE=BINARY:cHJpb3I=\r\nCLASS:PRIVATE\r\nRRULE:FREQ=WEEKLY;COUNT=7;BYDAY=2MO,TU\r\n" +
	"BEGIN:VALARM\r\nTRIGGER;VALUE=DATE-TIME:20010203T000000Z\r\nACTION:EMAIL\r\nSUMMARY:prior\r\nDESCRIPTION:alarm\r\nATTENDEE:mailto:prior@example.com\r\nEND:VALARM\r\nEND:VEVENT\r\n" +
	"BEGIN:VTODO\r\nUID:prior-2\r\nDTSTAMP:20010203T040506Z\r\nDUE;VALUE=DATE:20010204\r\nPRIORITY:3\r\nX-PRIOR;X-P=1:x\r\nEND:VTODO\r\nBEGIN:VFREEBUSY\r\nUID:prior-3\r\nDTSTAMP:20010203T040506Z\r\nFREEBUSY;FBTYPE=BUSY:20010203T040506Z/PT1H\r\nEND:VFREEBUSY\r\nEND:VCALENDAR\r\n"

// disturb makes one call, most of which fail half way, before a case. What a
// call gives does not depend on those before, so it must not matter.
func disturb(n int) {
	if n == 0 {
		return
	}
	kind, n := n%8, n/8
	at := n % len(priorText)
	switch kind {
	case 0, 1: // the output fails
		cal, err, fail := decodeString(priorText)
		if err == nil && fail == "" {
			guard("Encode", func() { ics.Encode(&faultWriter{room: at, err: errInjected}, cal) })
		}
	case 2: // the input fails
		decode(&chunkReader{data: priorText[:at], sizes: []int{1 + n%50}, err: errInjected})
	case 3: // the text ends early
		decodeString(priorText[:at])
	case 4: // the text is broken
		decodeString(priorText[:at] + pickOf(n, "\x00", ";", "\r\n", ":", "\"", "\\", "\xff") + priorText[at:])
	case 5: // a character is missing
		decodeString(priorText[:at] + priorText[at+1:])
	case 6: // the calendar is refused
		cal, err, fail := decodeString(priorText)
		if err == nil && fail == "" && len(cal.Event) > 0 && len(cal.Todo) > 0 {
			if n%2 == 0 {
				cal.Event[0].Categories = append(cal.Event[0].Categories, ics.PropCategories{MText: ics.MText{"a", "\x00"}})
			} else {
				cal.Todo[0].DateTimeStamp = ics.PropDateTimeStamp{}
			}
			encode(cal)
		}
	case 7: // all is well
		cal, err, fail := decodeString(priorText)
		if err == nil && fail == "" {
			encode(cal)
		}
	}
}

func pickOf(n int, l ...string) string { return l[n%len(l)] }

func init() {
	register(&check{ID: "C25", Rule: "every operation has an outcome of its own; counted once per distinct set of inputs and operations", Quick: 60, Thorough: 1500, Race: true,
		Sites: pureSites, Gen: genPure, Run: runPure})
}
