// Command icsverif decides properties of the ics package by generated-input
// search against explicit oracles.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	_ "time/tzdata"

	"pgregory.net/rapid"
)

const (
	exitOK       = 0
	exitViolated = 1
	exitError    = 3
	exitRunaway  = 7 // hang or memory
)

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fShard   = flag.Int("shard", 0, "shard")
	fShards  = flag.Int("shards", 8, "number of shards")
	fScratch = flag.String("scratch", "", "scratch directory")
	fOut     = flag.String("evidence", "", "evidence directory")
	fKnown   = flag.String("known", "", "known findings file")
	fSite    = flag.String("site", "", "only this site")
	fShrink  = flag.Duration("shrink", 12*time.Second, "time for shrinking a failure")
	fScale   = flag.Float64("scale", 1, "multiply the number of cases")
	fCap     = flag.Duration("cap", 0, "stop starting new sites after this long")
	fFuzz    = flag.String("fuzz", "", "fuzzer built from this package, run after the search")
	fFuzzFor = flag.Duration("fuzztime", 3*time.Minute, "how long to run the fuzzer")
	fBudget  = flag.Duration("casecpu", 25*time.Second, "processor time allowed for one case")
)

func main() {
	if len(os.Args) == 2 && os.Args[1] == "alone" {
		os.Exit(alone())
	}
	testing.Init()
	addBig()
	addLadders()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: icsverif run|worker|replay|list")
		os.Exit(exitError)
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "harness failure: %v\n%s", r, debug.Stack())
			os.Exit(exitError)
		}
	}()
	switch mode {
	case "run":
		os.Exit(parent())
	case "worker":
		os.Exit(worker())
	case "replay":
		os.Exit(replay(flag.Arg(0)))
	case "list":
		for _, id := range ids() {
			fmt.Println(id, len(checks[id].Sites()))
		}
	case "seeds":
		writeFuzzSeeds(flag.Arg(0))
	default:
		os.Exit(exitError)
	}
}

func ids() []string {
	var l []string
	for id := range checks {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

// ---- worker ----

type result struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	SitesDone   int            `json:"sites_done"`
	Sites       int            `json:"sites"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	Fail        string         `json:"fail"`
	Case        *Case          `json:"case"`
	Capped      bool           `json:"capped"`
}

type stopTB struct{}

type workerTB struct {
	failed bool
	log    []string
}

func (*workerTB) Helper()                     {}
func (*workerTB) Name() string                { return "icsverif" }
func (w *workerTB) Logf(f string, a ...any)   { w.Log(fmt.Sprintf(f, a...)) }
func (w *workerTB) Log(a ...any)              { w.log = append(w.log, fmt.Sprint(a...)) }
func (w *workerTB) Skipf(string, ...any)      { panic(stopTB{}) }
func (w *workerTB) Skip(...any)               { panic(stopTB{}) }
func (w *workerTB) SkipNow()                  { panic(stopTB{}) }
func (w *workerTB) Errorf(f string, a ...any) { w.Logf(f, a...); w.Fail() }
func (w *workerTB) Error(a ...any)            { w.Log(a...); w.Fail() }
func (w *workerTB) Fatalf(f string, a ...any) { w.Logf(f, a...); w.FailNow() }
func (w *workerTB) Fatal(a ...any)            { w.Log(a...); w.FailNow() }
func (w *workerTB) FailNow()                  { w.failed = true; panic(stopTB{}) }
func (w *workerTB) Fail()                     { w.failed = true }
func (w *workerTB) Failed() bool              { return w.failed }

func seedFor(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func cpuNow() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

var caseSerial atomic.Int64 // odd while a case runs

// watchdog ends the process if one case runs away.
func watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}, {Name: "/gc/heap/live:bytes"}}
	var last int64
	var since time.Time
	var cpu time.Duration
	for {
		time.Sleep(40 * time.Millisecond)
		s := caseSerial.Load()
		if s != last {
			last, since, cpu = s, time.Now(), cpuNow()
		}
		if s%2 == 0 {
			continue
		}
		if used := cpuNow() - cpu; used > *fBudget || time.Since(since) > 6**fBudget {
			fmt.Fprintf(os.Stderr, "RUNAWAY: did not finish within %s of processor time (%s elapsed)\n", used, time.Since(since))
			os.Exit(exitRunaway)
		}
		metrics.Read(sample)
		live, all := sample[1].Value.Uint64()+sample[2].Value.Uint64(), sample[0].Value.Uint64()+sample[1].Value.Uint64()
		if live > 3<<29 || all > 3<<30 {
			fmt.Fprintf(os.Stderr, "RUNAWAY: used %d MB of memory, %d MB of it live\n", all>>20, live>>20)
			os.Exit(exitRunaway)
		}
	}
}

func worker() int {
	ck := checks[*fProp]
	if ck == nil {
		bad("no property %q", *fProp)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", fShrink.String())
	stop := filepath.Join(*fScratch, "stop")
	journal, err := os.OpenFile(filepath.Join(*fScratch, fmt.Sprintf("journal-%d", *fShard)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	if err != nil {
		bad("%v", err)
	}
	go watchdog()

	res := &result{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var past history
	start := time.Now()
	sites := ck.Sites()
	res.Sites = 0
	per := ck.Quick
	if *fTier == "thorough" {
		per = ck.Thorough
	}
	per = int(float64(per) * *fScale)
	if per < 1 {
		per = 1
	}
	for i, site := range sites {
		if *fSite != "" && site != *fSite || *fSite == "" && i%*fShards != *fShard {
			continue
		}
		res.Sites++
		if *fCap > 0 && time.Since(start) > *fCap {
			res.Capped = true
			continue
		}
		// another shard has found a violation
		if _, err := os.Stat(stop); err == nil {
			continue
		}
		n := 0
		var lastFail string
		var lastCase *Case
		// a sweep is many cases in one
		share := per
		if *fTier == "quick" && !ck.Race {
			share *= 3
		}
		if strings.HasSuffix(site, "|sweep") || strings.HasSuffix(site, "|line") {
			share = max(per/12, int(3**fScale), 1)
		} else if strings.HasSuffix(site, "|ladder") || strings.HasSuffix(site, "|chars") || strings.HasSuffix(site, "|zones") || strings.HasSuffix(site, "|names") {
			share = max(per/100, 1)
		} else if strings.HasSuffix(site, "|table") {
			share = max(per/400, 1)
		} else if strings.HasSuffix(site, "|shape") {
			share = max(per/200, 2)
		} else if strings.HasPrefix(site, "/|big:") {
			share = max(per, int(40**fScale))
		}
		flag.Set("rapid.checks", strconv.Itoa(share))
		flag.Set("rapid.seed", strconv.FormatUint(seedFor(*fSeed, "/", ck.ID, "/", site, "/", *fTier), 10))
		tb := &workerTB{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopTB); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				g := &G{t: t}
				var c *Case
				c = ck.Gen(g, site)
				if c == nil {
					t.SkipNow()
				}
				c.Prop, c.Site = ck.ID, site
				if ck.ID != "C25" && g.in(8) {
					c.Prior = g.span(1, 1<<16)
				}
				j := c.json()
				var hdr [8]byte
				binary.LittleEndian.PutUint64(hdr[:], uint64(len(j)))
				journal.WriteAt(append(hdr[:], j...), 0)
				o := &obs{}
				fail := runCase(ck, c, o)
				if lastFail == "" {
					past.add(j)
					n++
					res.Evaluations += 1 + len(o.More)
					for _, l := range c.Labels {
						res.Labels[l]++
					}
					for _, l := range o.Labels {
						res.Labels[l]++
					}
					if o.Nontrivial {
						h := c.hash()
						if !seen[h] {
							seen[h] = true
							res.Nontrivial++
						}
						for _, h := range o.More {
							if !seen[h] {
								seen[h] = true
								res.Nontrivial++
							}
						}
						if len(res.Samples) < 2 && n == 1+i%share || len(res.Samples) == 0 {
							res.Samples = append(res.Samples, sample(c))
						}
					}
				}
				if fail != "" {
					if lastFail == "" {
						os.WriteFile(stop, nil, 0o644)
						past.save(filepath.Join(*fScratch, fmt.Sprintf("past-%d", *fShard)))
					}
					lastFail, lastCase = fail, c
					if o.Narrow != nil {
						lastCase = o.Narrow
						lastCase.Prop, lastCase.Site = ck.ID, site
					}
					// for when shrinking it runs out of memory
					if b, err := json.Marshal(violation{Case: lastCase, Fail: lastFail}); err == nil {
						os.WriteFile(filepath.Join(*fScratch, fmt.Sprintf("failed-%d", *fShard)), b, 0o600)
					}
					t.Fatalf("property violated")
				}
			})
		}()
		res.SitesDone++
		if lastFail != "" {
			res.Failed, res.Fail, res.Case = true, lastFail, lastCase
			break
		}
		if tb.failed {
			bad("site %s: %s", site, strings.Join(tb.log, "\n"))
		}
	}
	f, err := os.Create(filepath.Join(*fScratch, fmt.Sprintf("hashes-%d", *fShard)))
	if err != nil {
		bad("%v", err)
	}
	bw := bufio.NewWriter(f)
	for h := range seen {
		binary.Write(bw, binary.LittleEndian, h)
	}
	bw.Flush()
	f.Close()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(*fScratch, fmt.Sprintf("result-%d.json", *fShard)), b, 0o600); err != nil {
		bad("%v", err)
	}
	return exitOK
}

// history is the latest cases run, in case a failure depends on them.
type history struct {
	cases [][]byte
	next  int
}

func (h *history) add(j []byte) {
	const most = 4000
	if len(j) > 1<<15 {
		return
	}
	if len(h.cases) < most {
		h.cases = append(h.cases, j)
		return
	}
	h.cases[h.next] = j
	h.next = (h.next + 1) % most
}

func (h *history) save(path string) {
	var b bytes.Buffer
	for i := range h.cases {
		b.Write(h.cases[(h.next+i)%len(h.cases)])
		b.WriteByte('\n')
	}
	os.WriteFile(path, b.Bytes(), 0o600)
}

func runCase(ck *check, c *Case, o *obs) string {
	caseSerial.Add(1)
	defer caseSerial.Add(1)
	disturb(c.Prior)
	if c.How == "fuzz" {
		return fuzzText(ck.ID, string(c.Doc))
	}
	return ck.Run(c, o)
}

func sample(c *Case) string {
	b := c.json()
	if len(b) > 1500 {
		b = append(b[:1500:1500], "..."...)
	}
	return string(b)
}

// ---- replay ----

func loadCases(path string) []*Case {
	b, err := os.ReadFile(path)
	if err != nil {
		bad("%v", err)
	}
	var r struct {
		Before []*Case `json:"before"`
		Case   *Case   `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil || r.Case == nil {
		bad("cannot read %s: %v", path, err)
	}
	return append(r.Before, r.Case)
}

func replay(path string) int {
	go watchdog()
	var c *Case
	for _, c = range loadCases(path) {
		ck := checks[c.Prop]
		if ck == nil {
			bad("no property %q", c.Prop)
		}
		if fail := runCase(ck, c, &obs{}); fail != "" {
			fmt.Printf("REPLAY property=%s fails: %s\n", c.Prop, fail)
			return exitViolated
		}
	}
	fmt.Printf("REPLAY property=%s holds\n", c.Prop)
	return exitOK
}

// ---- parent ----

var tzs = []string{"UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/London", "Pacific/Apia", "America/St_Johns", "UTC"}

func selfCommand(shard int, args ...string) (*exec.Cmd, *bytes.Buffer) {
	exe, err := os.Executable()
	if err != nil {
		bad("%v", err)
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = *fScratch
	cmd.Env = append(os.Environ(), "TZ="+tzs[shard%len(tzs)], "GOTRACEBACK=single", "GOMAXPROCS="+threads(), "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	lw := &limitWriter{w: &buf, n: 1 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	return cmd, &buf
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	q := p
	if len(q) > l.n {
		q = q[:l.n]
	}
	l.n -= len(q)
	l.w.Write(q)
	return len(p), nil
}

// runLimited runs a command, killing it after the given time.
func runLimited(cmd *exec.Cmd, d time.Duration) (code int, timedOut bool) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		bad("%v", err)
	}
	var killed atomic.Bool
	tm := time.AfterFunc(d, func() { killed.Store(true); cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	if err == nil {
		return 0, false
	}
	if cmd.ProcessState != nil {
		return cmd.ProcessState.ExitCode(), killed.Load()
	}
	return -1, killed.Load()
}

type violation struct {
	Case   *Case
	Fail   string
	TZ     string
	Shard  int
	Before []json.RawMessage // cases to run first, in the same process
}

func parent() int {
	start := time.Now()
	ck := checks[*fProp]
	if ck == nil {
		bad("no property %q", *fProp)
	}
	if *fScratch == "" || *fOut == "" {
		bad("need -scratch and -evidence")
	}
	overall := 13 * time.Minute
	if *fTier == "thorough" {
		overall = 40 * time.Minute
	}
	var (
		wg   sync.WaitGroup
		mu   sync.Mutex
		viol []violation
		errs []string
		tot  = &result{Labels: map[string]int{}}
		all  = map[uint64]bool{}
	)
	for s := 0; s < *fShards; s++ {
		wg.Add(1)
		var run func(s, again int)
		run = func(s, again int) {
			cmd, out := selfCommand(s, "worker", "-prop", ck.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10), "-shard", strconv.Itoa(s), "-shards", strconv.Itoa(*fShards),
				"-scratch", *fScratch, "-scale", strconv.FormatFloat(*fScale, 'g', -1, 64), "-cap", fCap.String(), "-casecpu", fBudget.String(), "-shrink", fShrink.String(), "-site", *fSite)
			code, timedOut := runLimited(cmd, overall)
			if timedOut {
				mu.Lock()
				errs = append(errs, fmt.Sprintf("shard %d did not finish within %s", s, overall))
				mu.Unlock()
				return
			}
			if code == 0 {
				var r result
				b, err := os.ReadFile(filepath.Join(*fScratch, fmt.Sprintf("result-%d.json", s)))
				if err == nil {
					err = json.Unmarshal(b, &r)
				}
				hb, err2 := os.ReadFile(filepath.Join(*fScratch, fmt.Sprintf("hashes-%d", s)))
				mu.Lock()
				defer mu.Unlock()
				if err != nil || err2 != nil {
					errs = append(errs, fmt.Sprintf("shard %d: no result: %v %v", s, err, err2))
					return
				}
				tot.Evaluations += r.Evaluations
				tot.Sites += r.Sites
				tot.SitesDone += r.SitesDone
				tot.Capped = tot.Capped || r.Capped
				tot.Samples = append(tot.Samples, r.Samples...)
				for k, v := range r.Labels {
					tot.Labels[k] += v
				}
				for ; len(hb) >= 8; hb = hb[8:] {
					all[binary.LittleEndian.Uint64(hb)] = true
				}
				if r.Failed {
					viol = append(viol, violation{Case: r.Case, Fail: r.Fail, TZ: tzs[s%len(tzs)], Shard: s})
				}
				return
			}
			text := out.String()
			if code == exitError {
				mu.Lock()
				errs = append(errs, fmt.Sprintf("shard %d: %s", s, clipTail(text)))
				mu.Unlock()
				return
			}
			// A failure was found before, and is to be confirmed as any other.
			if b, err := os.ReadFile(filepath.Join(*fScratch, fmt.Sprintf("failed-%d", s))); err == nil {
				v := violation{TZ: tzs[s%len(tzs)], Shard: s}
				if json.Unmarshal(b, &v) == nil && v.Case != nil {
					v.TZ, v.Shard = tzs[s%len(tzs)], s
					mu.Lock()
					viol = append(viol, v)
					mu.Unlock()
					return
				}
			}
			// The process died within a case. It counts only if the very
			// case brings a fresh process down again.
			c := journalCase(s)
			if c == nil {
				mu.Lock()
				errs = append(errs, fmt.Sprintf("shard %d died (exit %d) without a case: %s", s, code, clipTail(text)))
				mu.Unlock()
				return
			}
			p := filepath.Join(*fScratch, fmt.Sprintf("crash-%d.json", s))
			writeReplay(p, violation{Case: c})
			for try := 0; try < 3; try++ {
				rc, rout := selfCommand(s, "replay", "-scratch", *fScratch, "-casecpu", fBudget.String(), p)
				code2, to2 := runLimited(rc, 8**fBudget)
				if !to2 && code2 != 0 && code2 != exitError {
					mu.Lock()
					viol = append(viol, violation{Case: c, Fail: fmt.Sprintf("process died (exit %d): %s", code2, clipTail(rout.String())), TZ: tzs[s%len(tzs)], Shard: s})
					mu.Unlock()
					return
				}
			}
			// perhaps for want of memory
			if again > 0 {
				run(s, again-1)
				return
			}
			mu.Lock()
			errs = append(errs, fmt.Sprintf("shard %d died (exit %d) and the case does not reproduce it: %s", s, code, clipTail(text)))
			mu.Unlock()
		}
		go func(s int) {
			defer wg.Done()
			run(s, 1)
		}(s)
	}
	wg.Wait()

	if *fFuzz != "" && len(viol) == 0 && len(errs) == 0 {
		execs, fresh, found := fuzz(ck.ID, *fFuzz, *fFuzzFor, &errs)
		tot.Evaluations += execs
		tot.Labels["fuzzer executions"] = execs
		tot.Labels["fuzzer texts reaching new code"] = fresh
		if found != nil {
			viol = append(viol, violation{Case: found, Fail: "found by the fuzzer", TZ: tzs[0], Shard: -1})
		}
	}

	known := knownFindings(ck.ID, &errs)
	for _, k := range known {
		fmt.Println(k)
	}
	stored := regressions(ck.ID)
	var names []string
	for n := range stored {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		tot.Evaluations++
		tot.Labels["regression"]++
		if fail := replayed(stored[n], n, &errs); fail != "" {
			viol = append(viol, violation{Case: stored[n], Fail: fail, TZ: tzs[0], Shard: -1})
		}
	}

	for i := range viol {
		confirm(&viol[i], ck, i, &errs)
	}
	n := 0
	for _, v := range viol {
		if v.Case == nil {
			continue
		}
		n++
		h := v.Case.hash()
		dir := filepath.Join(*fOut, "replays")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			bad("%v", err)
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", ck.ID, h))
		writeReplay(path, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		fmt.Printf("  site %s%s: %s\n", v.Case.Site, noteOf(v.Case), strings.ReplaceAll(clip(v.Fail), "\n", "\n  "))
	}
	if n == 0 && len(errs) == 0 && len(all) < 2 {
		errs = append(errs, "no non-trivial cases were generated")
	}
	if n == 0 && len(errs) == 0 && tot.SitesDone < tot.Sites && !tot.Capped {
		errs = append(errs, fmt.Sprintf("only %d of %d sites were tried", tot.SitesDone, tot.Sites))
	}
	writeEvidence(ck, tot, len(all), n, known, time.Since(start))
	switch {
	case n > 0:
		return exitViolated
	case len(errs) > 0:
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "CHECK ERROR:", e)
		}
		return exitError
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d sites=%d/%d %.1fs\n", ck.ID, *fTier, *fSeed, tot.Evaluations, len(all), tot.SitesDone, tot.Sites, time.Since(start).Seconds())
	return exitOK
}

// confirm replays a reported case in a fresh process; a case that does not
// fail again there is an error of the check, not a violation.
func confirm(v *violation, ck *check, i int, errs *[]string) {
	p := filepath.Join(*fScratch, fmt.Sprintf("confirm-%d.json", i))
	writeReplay(p, *v)
	var out string
	// code that uses chance may need several tries
	for try, start := 0, time.Now(); try < 5 || try < 100 && time.Since(start) < 15*time.Second; try++ {
		cmd, buf := selfCommand(0, "replay", "-scratch", *fScratch, "-casecpu", fBudget.String(), p)
		cmd.Env = append(cmd.Env, "TZ="+v.TZ)
		code, to := runLimited(cmd, 8**fBudget)
		if !to && code != 0 && code != exitError {
			return
		}
		out = buf.String()
	}
	if afterOthers(v, p) {
		return
	}
	*errs = append(*errs, fmt.Sprintf("case at %s failed in the search (%s) but not when replayed (%s)", v.Case.Site, clip(v.Fail), clipTail(out)))
	v.Case = nil
}

// afterOthers replays a case after those that were run before it in the
// search, and drops those that do not matter.
func afterOthers(v *violation, path string) bool {
	b, err := os.ReadFile(filepath.Join(*fScratch, fmt.Sprintf("past-%d", v.Shard)))
	lines := bytes.Split(bytes.TrimSpace(b), []byte("\n"))
	if err != nil || len(lines) < 2 {
		return false
	}
	var before []json.RawMessage
	for _, l := range lines[:len(lines)-1] {
		before = append(before, l)
	}
	var last Case
	if json.Unmarshal(lines[len(lines)-1], &last) != nil {
		return false
	}
	fails := func(before []json.RawMessage) bool {
		writeReplay(path, violation{Case: &last, Before: before})
		cmd, _ := selfCommand(0, "replay", "-scratch", *fScratch, "-casecpu", fBudget.String(), path)
		cmd.Env = append(cmd.Env, "TZ="+v.TZ)
		code, to := runLimited(cmd, 4*time.Minute)
		return !to && code != 0 && code != exitError
	}
	if !fails(before) {
		return false
	}
	start := time.Now()
	for size := (len(before) + 1) / 2; size > 0 && len(before) > 0; {
		dropped := false
		for i := 0; i < len(before) && time.Since(start) < 30*time.Second; {
			less := append(append([]json.RawMessage{}, before[:i]...), before[min(i+size, len(before)):]...)
			if fails(less) {
				before, dropped = less, true
			} else {
				i += size
			}
		}
		if size == 1 && !dropped || time.Since(start) > 30*time.Second {
			break
		}
		size = max(size/2, 1)
	}
	v.Case, v.Before = &last, before
	v.Fail += fmt.Sprintf(" (in the same process as %d earlier cases)", len(before))
	return true
}

func noteOf(c *Case) string {
	if c.Note != "" {
		return " (" + c.Note + ")"
	}
	return ""
}

func clipTail(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 3000 {
		return s[:2000] + "\n...\n" + s[len(s)-1000:]
	}
	return s
}

func writeReplay(path string, v violation) {
	m := map[string]any{"case": v.Case, "failure": v.Fail, "tz": v.TZ,
		"how": "TZ=<tz> icsverif replay <this file> (see /verif/replay.sh)"}
	if len(v.Before) > 0 {
		m["before"] = v.Before
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		bad("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		bad("%v", err)
	}
}

func journalCase(s int) *Case {
	b, err := os.ReadFile(filepath.Join(*fScratch, fmt.Sprintf("journal-%d", s)))
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if uint64(len(b)) < 8+n {
		return nil
	}
	var c Case
	if json.Unmarshal(b[8:8+n], &c) != nil {
		return nil
	}
	return &c
}

func writeEvidence(ck *check, tot *result, distinct, viol int, known []string, wall time.Duration) {
	samples := tot.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	ev := map[string]any{
		"property": ck.ID, "tier": *fTier, "seed": *fSeed, "level": ck.Level, "wall_s": wall.Seconds(), "violations": viol,
		"coverage": map[string]any{
			"evaluations": tot.Evaluations, "distinct_nontrivial": distinct, "rule": ck.Rule, "samples": samples,
			"sites": tot.Sites, "sites_done": tot.SitesDone, "labels": tot.Labels, "capped": tot.Capped, "shards": *fShards,
		},
	}
	if len(known) > 0 {
		ev["known_findings"] = known
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		bad("%v", err)
	}
	if err := os.MkdirAll(*fOut, 0o755); err != nil {
		bad("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*fOut, ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		bad("%v", err)
	}
}

// threads gives the number of processors for a worker.
func threads() string {
	if ck := checks[*fProp]; ck != nil && ck.Race {
		return "4"
	}
	return "2"
}
