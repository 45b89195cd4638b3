package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// fuzzText decides a property on one arbitrary text. It is what the
// coverage-guided fuzzer runs and what its findings replay.
func fuzzText(id, doc string) string {
	switch id {
	case "C05":
		return sameDelivered(doc)
	case "C06":
		return runTotal(&Case{Doc: Str(doc)}, &obs{})
	case "C24":
		return runStable(&Case{Doc: Str(doc), Mode: 1}, &obs{})
	case "judge":
		// for trying the judge itself; no property is decided by this
		j := judgeDoc(doc)
		switch j.V {
		case vAccept:
			return decodeTo(doc, canon(j.Model))
		case vReject:
			return mustReject(doc)
		}
		return ""
	}
	bad("%s is not fuzzed", id)
	return ""
}

// sameDelivered wants a text to give the same outcome however it arrives.
func sameDelivered(doc string) string {
	outcome := func(sizes []int, mode int) string {
		cal, err, fail := decode(&chunkReader{data: doc, sizes: sizes, eof: mode == 1, err: io.EOF})
		switch {
		case fail != "":
			return "failure: " + fail
		case err != nil:
			return "error"
		}
		return canon(extract(cal))
	}
	want := outcome([]int{1 << 20}, 0)
	if strings.HasPrefix(want, "failure: ") {
		return ""
	}
	for i, sizes := range [][]int{{1}, {2, 0, 1}, {7}, {1 << 20}} {
		if got := outcome(sizes, i%2); got != want {
			return fmt.Sprintf("read in parts of %v it gives %s instead of %s", sizes, clip(got), clip(want))
		}
	}
	return ""
}

// writeFuzzSeeds writes texts for the fuzzer to start from, in the form of its
// corpus files: one for every property of every component.
func writeFuzzSeeds(dir string) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		bad("%v", err)
	}
	for i, p := range allPairs() {
		gen := rapid.Custom(func(t *rapid.T) string {
			g := &G{t: t, Small: true}
			m := g.calendar(p.Comp, p.Prop, false)
			s := g.style(pick(g, []string{"", "os", "uosf"}))
			return s.doc(s.lines(m))
		})
		doc := gen.Example(int(*fSeed)*1000 + i)
		b := "go test fuzz v1\n[]byte(" + strconv.Quote(doc) + ")\n"
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("seed-%03d", i)), []byte(b), 0o644); err != nil {
			bad("%v", err)
		}
	}
}

var fuzzExecs = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)
var fuzzFile = regexp.MustCompile(`testdata/fuzz/FuzzText/([0-9a-f]+)`)

// fuzz runs the coverage-guided fuzzer for a while and gives the number of
// executions, the number of texts that reached something new and the case of a
// failure.
func fuzz(id, bin string, d time.Duration, errs *[]string) (execs, fresh int, found *Case) {
	dir := filepath.Join(*fScratch, "fuzz")
	corpus := filepath.Join(dir, "testdata", "fuzz", "FuzzText")
	writeFuzzSeeds(corpus)
	cmd, out := selfCommand(0)
	cmd.Path, cmd.Args = bin, []string{bin, "-test.run=^$", "-test.fuzz=^FuzzText$", "-test.fuzztime=" + d.String(), "-test.fuzzminimizetime=20s",
		"-test.fuzzcachedir=" + filepath.Join(dir, "cache"), "-test.parallel=8", "-test.timeout=0"}
	cmd.Dir = dir
	cmd.Env = append(cmd.Env, "ICSVERIF_FUZZ="+id, "GOMAXPROCS=8")
	code, timedOut := runLimited(cmd, d+2*time.Minute)
	text := out.String()
	for _, m := range fuzzExecs.FindAllStringSubmatch(text, -1) {
		execs, _ = strconv.Atoi(m[1])
		fresh, _ = strconv.Atoi(m[2])
	}
	switch {
	case timedOut:
		*errs = append(*errs, "the fuzzer did not end in time: "+clipTail(text))
	case code != 0:
		f := fuzzFile.FindStringSubmatch(text)
		var doc string
		if f != nil {
			b, err := os.ReadFile(filepath.Join(corpus, f[1]))
			if l := strings.SplitN(string(b), "\n", 3); err == nil && len(l) > 1 {
				doc, err = strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(l[1], "[]byte("), ")"))
				if err == nil {
					return execs, fresh, &Case{Prop: id, Site: "fuzz", How: "fuzz", Doc: Str(doc)}
				}
			}
		}
		*errs = append(*errs, "the fuzzer failed: "+clipTail(text))
	case execs == 0:
		*errs = append(*errs, "the fuzzer ran nothing: "+clipTail(text))
	}
	return
}
