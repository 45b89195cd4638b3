package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"
)

// ---- C25, against calls in a process of their own ----

// genFresh makes texts that differ in little: whatever is remembered of one
// must not be taken for the other.
func genFresh(g *G, p pair, c *Case) *Case {
	m := g.calendar(p.Comp, "", g.bool())
	s := g.style(pick(g, []string{"", "o", "s"}))
	doc := join(texts(s.lines(m)))
	c.Docs = []Str{Str(doc)}
	for n := 1 + g.n(2); n > 0; n-- {
		c.Docs = append(c.Docs, Str(g.near(doc)))
	}
	if g.bool() {
		last := len(c.Docs) - 1
		c.Docs[0], c.Docs[last] = c.Docs[last], c.Docs[0]
	}
	return c
}

var zoneParam = regexp.MustCompile(`(?i)TZID="?([^":;,\r\n]+)`)

// near changes a text in one place.
func (g *G) near(doc string) string {
	if zones := zoneParam.FindAllStringSubmatchIndex(doc, -1); len(zones) > 0 && g.in(3) {
		z := pick(g, zones)
		name := doc[z[2]:z[3]]
		cut := strings.LastIndexByte(name, '/') + 1
		return doc[:z[2]] + pick(g, []string{name[cut:], strings.ToLower(name), strings.ToUpper(name), "Europe/" + name[cut:], "posix/" + name, name[:len(name)-1], name + "x", "./" + name, "Etc/UTC", "Local"}) + doc[z[3]:]
	}
	lines := strings.SplitAfter(doc, "\r\n")
	i := g.u(len(lines))
	for strings.HasPrefix(lines[i], "BEGIN:") || strings.HasPrefix(lines[i], "END:") || len(lines[i]) < 4 {
		i = (i + 1) % len(lines)
	}
	l := lines[i][:len(lines[i])-2]
	at := g.u(len(l))
	if v := strings.LastIndexByte(l, ':') + 1; v < len(l) && g.bool() {
		at = v + g.u(len(l)-v)
	}
	b := l[at]
	switch {
	case g.in(5): // without it
		l = l[:at] + l[at+1:]
	case g.in(5): // twice
		l = l[:at+1] + l[at:]
	case g.in(5): // the line ends there
		l = l[:at]
	case b >= '0' && b <= '9':
		l = l[:at] + string('0'+byte(g.u(10))) + l[at+1:]
	case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z':
		if g.bool() {
			b ^= 0x20
		} else {
			b = b&^0x1f | byte(1+g.u(26))
		}
		l = l[:at] + string(b) + l[at+1:]
	case b < 0x80:
		l = l[:at] + pick(g, []string{":", ";", ",", "\\", "-", "+", " ", "/", "."}) + l[at+1:]
	default:
		l += "x"
	}
	lines[i] = l + "\r\n"
	return strings.Join(lines, "")
}

// both decodes a text and encodes what it gave.
func both(doc string) (out outcome, fail string) {
	cal, err, fail := decodeString(doc)
	if fail != "" || err != nil {
		return outcome{Failed: true}, fail
	}
	out.Text = canon(extract(cal))
	text, err, fail := encode(cal)
	if err != nil {
		text = "refused\n"
	}
	out.Text += "\n" + text
	return out, fail
}

// alone does the same in a process that has done nothing else.
func alone() int {
	doc, err := io.ReadAll(os.Stdin)
	if err != nil {
		return exitError
	}
	out, fail := both(string(doc))
	if fail != "" {
		return exitError
	}
	b, err := json.Marshal(struct {
		Text   Str
		Failed bool
	}{Str(out.Text), out.Failed})
	if err != nil {
		return exitError
	}
	os.Stdout.Write(b)
	return 0
}

func elsewhere(doc string) (outcome, bool) {
	self, err := os.Executable()
	if err != nil {
		bad("no executable: %v", err)
	}
	ctx, stop := context.WithTimeout(context.Background(), 2*time.Minute)
	defer stop()
	cmd := exec.CommandContext(ctx, self, "alone")
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
	cmd.Stdin = strings.NewReader(doc)
	b, err := cmd.Output()
	var out struct {
		Text   Str
		Failed bool
	}
	if err != nil || json.Unmarshal(b, &out) != nil {
		return outcome{}, false
	}
	return outcome{string(out.Text), out.Failed}, true
}

func runFresh(c *Case, o *obs) string {
	got := make([]outcome, len(c.Docs))
	for i, d := range c.Docs {
		var fail string
		if got[i], fail = both(string(d)); fail != "" {
			o.label("no baseline")
			return ""
		}
	}
	for i, d := range c.Docs {
		want, ok := elsewhere(string(d))
		if !ok {
			o.label("no baseline")
			continue
		}
		o.Nontrivial = true
		if want.Failed {
			o.label("failing operation")
		}
		again, fail := both(string(d))
		if fail != "" {
			return fmt.Sprintf("text %d: %s", i, fail)
		}
		for _, x := range []outcome{got[i], again} {
			switch {
			case x.Failed != want.Failed:
				return fmt.Sprintf("text %d after others: failed is %v, in a process of its own %v", i, x.Failed, want.Failed)
			case x.Text != want.Text:
				return fmt.Sprintf("text %d after others: result differs from that in a process of its own: %s", i, diff(want.Text, x.Text))
			}
		}
	}
	return ""
}
