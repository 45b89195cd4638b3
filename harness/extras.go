package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/metrics"
	"strings"
)

//go:embed regress known
var stored embed.FS

// regressions are shrunk cases that once failed, run in every run.
func regressions(id string) map[string]*Case {
	out := map[string]*Case{}
	ents, err := stored.ReadDir("regress")
	if err != nil {
		bad("%v", err)
	}
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), id+"-") {
			out["regress/"+e.Name()] = storedCase("regress/" + e.Name())
		}
	}
	return out
}

// replayed runs one stored case in a process of its own, so that a hang or a
// crash cannot take the parent along. It gives the failure, if any.
func replayed(c *Case, name string, errs *[]string) string {
	p := filepath.Join(*fScratch, strings.ReplaceAll(name, "/", "-"))
	writeReplay(p, violation{Case: c})
	for try := 0; ; try++ {
		cmd, out := selfCommand(0, "replay", "-scratch", *fScratch, "-casecpu", fBudget.String(), p)
		code, timedOut := runLimited(cmd, 8**fBudget)
		switch {
		case code == exitOK:
			return ""
		case code != exitError && !timedOut:
			return strings.TrimSpace(clip(out.String()))
		case try == 2:
			*errs = append(*errs, fmt.Sprintf("stored case %s: exit %d: %s", name, code, clipTail(out.String())))
			return ""
		}
	}
}

func storedCase(path string) *Case {
	b, err := stored.ReadFile(path)
	if err != nil {
		bad("%v", err)
	}
	var r struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil || r.Case == nil {
		bad("%s: %v", path, err)
	}
	return r.Case
}

// knownFindings runs the cases listed as known findings of the property and
// reports those that still fail. Only those very cases are covered.
func knownFindings(id string, errs *[]string) []string {
	if *fKnown == "" {
		return nil
	}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		bad("%v", err)
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 || !strings.HasPrefix(f[2], "case=") {
			bad("known findings line %q", l)
		}
		c := storedCase("known/" + f[2][5:])
		if fail := replayed(c, "known/"+f[2][5:], errs); fail != "" {
			out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, f[3]))
		}
	}
	return out
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}
