package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"runtime/debug"
	"strings"

	"vimagination.zapto.org/ics"
)

// Case is one concrete, replayable input of a check. Its meaning depends on
// the check; a replay runs the check on it again without any generator.
type Case struct {
	Prop   string   `json:"property"`
	Site   string   `json:"site"`
	Note   string   `json:"note,omitempty"`   // what was done to the input
	How    string   `json:"how,omitempty"`    // which relation is to hold
	Model  *Comp    `json:"model,omitempty"`  // calendar
	Doc    Str      `json:"doc,omitempty"`    // text
	Doc2   Str      `json:"doc2,omitempty"`   // second text
	Reject bool     `json:"reject,omitempty"` // the text must not decode / the model must not encode
	Sizes  []int    `json:"sizes,omitempty"`  // read sizes, cycled; 0 is an empty read
	Mode   int      `json:"mode,omitempty"`   // variant of the stream
	At     int      `json:"at,omitempty"`     // position of the fault
	Recipe string   `json:"recipe,omitempty"` // how to make an input too big to store
	N      int      `json:"n,omitempty"`
	Docs   []Str    `json:"docs,omitempty"`
	Models []*Comp  `json:"models,omitempty"`
	Ops    []int    `json:"ops,omitempty"`
	Prior  int      `json:"prior,omitempty"` // a call to make first, see disturb
	Labels []string `json:"labels,omitempty"`
}

func (c *Case) label(l string) { c.Labels = append(c.Labels, l) }

func (c *Case) json() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		bad("cannot store case: %v", err)
	}
	return b
}

// hash identifies the input apart from its annotations.
func (c *Case) hash() uint64 {
	d := *c
	d.Labels, d.Site, d.Note, d.Prior = nil, "", "", 0
	h := fnv.New64a()
	h.Write(d.json())
	return h.Sum64()
}

// obs collects what one evaluation showed.
type obs struct {
	Nontrivial bool
	Labels     []string
	More       []uint64 // further inputs evaluated within the case
	Narrow     *Case    // the one of them that failed, as a case of its own
}

func (o *obs) label(l string) { o.Labels = append(o.Labels, l) }

// A check decides one property.
type check struct {
	ID       string
	Rule     string // when a case counts as non-trivial
	Sites    func() []string
	Gen      func(g *G, site string) *Case
	Run      func(c *Case, o *obs) string // empty if the property held
	Quick    int                          // cases per site
	Thorough int
	Level    string
	Race     bool
}

var checks = map[string]*check{}

func register(c *check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// ---- calling the code under test ----

func guard(what string, f func()) (fail string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			fail = fmt.Sprintf("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/ics/") || strings.Contains(l, "ics.") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func encode(cal *ics.Calendar) (doc string, err error, fail string) {
	var b bytes.Buffer
	fail = guard("Encode", func() { err = ics.Encode(&b, cal) })
	return b.String(), err, fail
}

func decode(r io.Reader) (cal *ics.Calendar, err error, fail string) {
	fail = guard("Decode", func() { cal, err = ics.Decode(r) })
	if fail == "" && (cal == nil) == (err == nil) {
		fail = fmt.Sprintf("Decode returned calendar %v and error %v", cal != nil, err)
	}
	return
}

func decodeString(s string) (*ics.Calendar, error, string) { return decode(strings.NewReader(s)) }

// decodeTo wants the text to decode to the calendar with the given canonical
// text.
func decodeTo(doc, want string) string {
	cal, err, fail := decodeString(doc)
	if fail != "" {
		return fail
	}
	if err != nil {
		return fmt.Sprintf("Decode failed: %v", err)
	}
	if got := canon(extract(cal)); got != want {
		return "decoded calendar differs: " + diff(want, got)
	}
	return ""
}

func mustReject(doc string) string {
	cal, err, fail := decodeString(doc)
	if fail != "" {
		return fail
	}
	if err == nil {
		return "Decode accepted it as " + clip(canon(extract(cal)))
	}
	return ""
}

// built builds the calendar and checks that building lost nothing.
func built(m *Comp) (*ics.Calendar, string) {
	cal := build(m)
	want := canon(m)
	if got := canon(extract(cal)); got != want {
		bad("building lost something: %s", diff(want, got))
	}
	return cal, want
}

type countWriter struct {
	bytes.Buffer
	calls int
}

func (c *countWriter) Write(p []byte) (int, error) {
	c.calls++
	return c.Buffer.Write(p)
}

// mustRefuse wants Encode to return an error without writing anything.
func mustRefuse(cal *ics.Calendar) string {
	var w countWriter
	var err error
	if fail := guard("Encode", func() { err = ics.Encode(&w, cal) }); fail != "" {
		return fail
	}
	if err == nil {
		return "Encode accepted it and wrote " + clip(w.String())
	}
	if w.Len() > 0 {
		return fmt.Sprintf("Encode failed with %v but wrote %d octets: %s", err, w.Len(), clip(w.String()))
	}
	return ""
}

func encodeOK(cal *ics.Calendar) (string, string) {
	doc, err, fail := encode(cal)
	if fail != "" {
		return "", fail
	}
	if err != nil {
		return "", fmt.Sprintf("Encode refused a valid calendar: %v", err)
	}
	return doc, ""
}

// roundTrip wants encode-then-decode to give back the calendar.
func roundTrip(m *Comp) string {
	cal, want := built(m)
	doc, fail := encodeOK(cal)
	if fail != "" {
		return fail
	}
	if fail = decodeTo(doc, want); fail != "" {
		return fail + "\nencoded as " + clip(doc)
	}
	return ""
}

// readBack wants the independent reader to read the calendar from the
// encoder's output.
func readBack(m *Comp) string {
	cal, want := built(m)
	doc, fail := encodeOK(cal)
	if fail != "" {
		return fail
	}
	c, err := readDoc(doc)
	if err != nil {
		return "encoded text is not well-formed: " + err.Error()
	}
	if got := canon(c); got != want {
		return "encoded text says something else: " + diff(want, got)
	}
	return ""
}

var errInjected = errors.New("injected stream failure")
