package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one observed breach of the property, with what is needed to replay it.
type Violation struct {
	Section string   `json:"section"`
	Index   int      `json:"index"`
	Seed    uint64   `json:"seed"`
	Key     string   `json:"key"` // stable identity, matched against known_findings.jsonl
	Msg     string   `json:"msg"`
	Trace   []string `json:"trace,omitempty"`
	Stack   string   `json:"stack,omitempty"`
}

// Run collects what one monitor run observed.
type Run struct {
	first      bool // stop at the first violation
	Prop, Tier string
	Seed       uint64
	OnlySec    string
	OnlyIdx    int
	Scale      float64
	Out        string

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	rule       string
	samples    []any
	counters   map[string]int64
	violations []Violation
	inconcl    []string
	assume     []string
	start      time.Time
	stop       atomic.Bool
	beats      atomic.Int64
}

func (r *Run) thorough() bool { return r.Tier == "thorough" }

// N scales a case count by tier.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.thorough() {
		n = thorough
	}
	n = int(float64(n) * r.Scale)
	if n < 1 {
		n = 1
	}
	return n
}

func (r *Run) Count(k string, n int64) {
	r.mu.Lock()
	r.counters[k] += n
	r.mu.Unlock()
}

func (r *Run) Max(k string, n int64) {
	r.mu.Lock()
	if r.counters[k] < n {
		r.counters[k] = n
	}
	r.mu.Unlock()
}

func (r *Run) Inconclusive(f string, a ...any) {
	r.mu.Lock()
	r.inconcl = append(r.inconcl, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

func (r *Run) addViolation(v Violation) {
	r.mu.Lock()
	r.violations = append(r.violations, v)
	if len(r.violations) >= 8 || r.first {
		r.stop.Store(true)
	}
	r.mu.Unlock()
}

// Case is one generated execution. Its PRNG depends only on (seed, property, section, index).
type Case struct {
	R       *Run
	Section string
	Index   int
	Rng     *rand.Rand
	trace   []string
	key     string
	h       uint64
	nontriv bool
	sample  any
	ops     int64
	held    []heldList
}

// heldList is a list the library returned and what it read like then.
type heldList struct {
	what, was string
	at        int64
	now       func() string
}

// Hold keeps a returned list until the end of the case, when it must still read the same. Later ones push out earlier ones.
func (c *Case) Hold(what string, now func() string) {
	h := heldList{what, now(), c.ops, now}
	if len(c.held) < 6 {
		c.held = append(c.held, h)
	} else {
		c.held[c.Rng.IntN(6)] = h
	}
}

func (c *Case) checkHeld() {
	for _, h := range c.held {
		s := h.now()
		c.Check(s == h.was, "a list returned earlier, by %s at step %d of %d, was changed by later operations: it read %s and now reads %s", h.what, h.at, c.ops, trunc(h.was, 300), trunc(s, 300))
	}
	if len(c.held) > 0 {
		c.R.Count("returned_lists_compared_at_the_end", int64(len(c.held)))
	}
}

type caseFail struct{ msg string }

// Op records a step of the case.
func (c *Case) Op(f string, a ...any) {
	c.ops++
	c.R.beats.Add(1)
	s := fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		c.h = (c.h ^ uint64(s[i])) * 1099511628211
	}
	if len(c.trace) < 600 {
		c.trace = append(c.trace, s)
	} else {
		copy(c.trace[300:], c.trace[301:])
		c.trace[len(c.trace)-1] = s
	}
}

// Beat marks progress without recording.
func (c *Case) Beat() { c.ops++; c.R.beats.Add(1) }

// Mix adds to the identity of the case.
func (c *Case) Mix(v uint64) { c.h = (c.h ^ v) * 1099511628211 }

// Nontrivial marks the case as exercising the property by the check's rule.
func (c *Case) Nontrivial() { c.nontriv = true }

func (c *Case) Fail(f string, a ...any) { panic(caseFail{fmt.Sprintf(f, a...)}) }

func (c *Case) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Fail(f, a...)
	}
}

func (c *Case) finish() {
	r := c.R
	r.mu.Lock()
	r.evals++
	r.counters["operations"] += c.ops
	if c.nontriv {
		r.distinct[c.h] = struct{}{}
		if len(r.samples) < 4 && c.Index%7 == 3%7 || len(r.samples) == 0 {
			var s any = c.sample
			if s == nil {
				t := c.trace
				if len(t) > 14 {
					t = append(append([]string{}, t[:14]...), fmt.Sprintf("... (%d steps)", len(c.trace)))
				}
				s = map[string]any{"section": c.Section, "index": c.Index, "steps": t}
			}
			r.samples = append(r.samples, s)
		}
	}
	r.mu.Unlock()
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Run) newCase(section string, i int) *Case {
	return &Case{R: r, Section: section, Index: i, key: section,
		Rng: rand.New(rand.NewPCG(r.Seed^hashStr(r.Prop+"/"+section), uint64(i)*0x9e3779b97f4a7c15+1)),
		h:   hashStr(section)}
}

func (r *Run) runCase(section string, i int, f func(c *Case)) {
	c := r.newCase(section, i)
	defer func() {
		if p := recover(); p != nil {
			v := Violation{Section: section, Index: i, Seed: r.Seed, Key: r.Prop + "/" + c.key, Trace: c.trace}
			if cf, ok := p.(caseFail); ok {
				v.Msg = cf.msg
			} else {
				v.Msg = fmt.Sprintf("panic: %v", p)
				v.Stack = string(debug.Stack())
			}
			r.addViolation(v)
		}
		c.finish()
	}()
	f(c)
	c.checkHeld()
}

// Each runs n cases of a section on all processors; Seq on one.
func (r *Run) Each(section string, n int, f func(c *Case, i int)) {
	r.each(section, n, runtime.GOMAXPROCS(0), f)
}
func (r *Run) Seq(section string, n int, f func(c *Case, i int)) { r.each(section, n, 1, f) }

func (r *Run) each(section string, n, workers int, f func(c *Case, i int)) {
	if r.OnlySec != "" && r.OnlySec != section {
		return
	}
	if r.OnlySec != "" && r.OnlyIdx >= 0 {
		r.runCase(section, r.OnlyIdx, func(c *Case) { f(c, r.OnlyIdx) })
		return
	}
	// on a slow machine a section ends early, though not before a tenth of its cases
	limit := 5 * time.Minute
	if r.thorough() {
		limit = 3 * time.Hour
	}
	var next, ran atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n || i >= n/10+1 && time.Since(r.start) > limit {
					return
				}
				r.runCase(section, i, func(c *Case) { f(c, i) })
				ran.Add(1)
			}
		}()
	}
	wg.Wait()
	r.Count("cases:"+section, ran.Load())
	if int(ran.Load()) < n {
		r.Count("cases_left_out:"+section, int64(n)-ran.Load())
	}
}

// ---- results ----

type result struct {
	Property     string           `json:"property"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int              `json:"distinct_nontrivial"`
	Rule         string           `json:"rule"`
	Samples      []any            `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Assumptions  []string         `json:"assumptions"`
	WallS        float64          `json:"wall_s"`
}

func (r *Run) write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	sort.SliceStable(r.violations, func(i, j int) bool {
		a, b := r.violations[i], r.violations[j]
		if a.Section != b.Section {
			return a.Section < b.Section
		}
		return a.Index < b.Index
	})
	for k, v := range shimCounters() {
		r.counters[k] = v
	}
	b, err := json.MarshalIndent(result{r.Prop, r.evals, len(r.distinct), r.rule, r.samples, r.counters, r.violations, r.inconcl,
		r.assume, time.Since(r.start).Seconds()}, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(r.Out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// exitNow writes the results gathered so far and ends the process (used by the watchdog, which cannot unblock workers).
func (r *Run) exitNow() {
	r.write()
	os.Exit(0)
}

// ---- watchdog: blocked forever / never terminating ----

var goroutineRe = regexp.MustCompile(`(?m)^goroutine (\d+) \[([^\]]*)\]:$`)

type gstate struct {
	id, state, stack string
}

func dumpGoroutines() []gstate {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []gstate
	for _, b := range strings.Split(string(buf), "\n\n") {
		m := goroutineRe.FindStringSubmatch(b)
		if m == nil {
			continue
		}
		st := m[2]
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		out = append(out, gstate{m[1], st, b})
	}
	return out
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

var blockedStates = map[string]bool{"semacquire": true, "sync.Mutex.Lock": true, "sync.RWMutex.Lock": true, "sync.RWMutex.RLock": true,
	"sync.Cond.Wait": true, "sync.WaitGroup.Wait": true, "chan receive": true, "chan send": true, "select": true,
	"chan receive (nil chan)": true, "chan send (nil chan)": true, "select (no cases)": true}

const libFrame = "github.com/henderiw/idxtable/pkg"

// deadlocked reports whether goroutines are blocked inside the library and nothing in the process can run to unblock
// them: every goroutine other than the watchdog (and timers' own) is in a blocking wait.
func deadlocked(gs []gstate) (bool, string) {
	var inLib []string
	sig := []string{}
	for _, g := range gs {
		if strings.Contains(g.stack, "main.(*Run).watchdog") {
			continue
		}
		lib := strings.Contains(g.stack, libFrame)
		if !lib && !strings.Contains(g.stack, "main.") {
			continue // runtime or package-level helper goroutines (e.g. klog flusher)
		}
		if !blockedStates[g.state] {
			return false, ""
		}
		if lib {
			inLib = append(inLib, g.stack)
			sig = append(sig, g.id)
		}
	}
	if len(inLib) == 0 {
		return false, ""
	}
	return true, strings.Join(sig, ",") + "\n" + strings.Join(inLib, "\n\n")
}

func (r *Run) watchdog() {
	last, since, cpu0 := int64(-1), time.Now(), cpuSeconds()
	prevSig := ""
	for {
		time.Sleep(500 * time.Millisecond)
		if b := r.beats.Load(); b != last {
			last, since, cpu0, prevSig = b, time.Now(), cpuSeconds(), ""
			continue
		}
		idle := time.Since(since)
		if idle < 4*time.Second {
			continue
		}
		gs := dumpGoroutines()
		if dl, d := deadlocked(gs); dl {
			if prevSig == d[:strings.IndexByte(d, '\n')] {
				r.addViolation(Violation{Section: "watchdog", Seed: r.Seed, Key: r.Prop + "/deadlock",
					Msg: "deadlock: goroutines are blocked inside the library and nothing is left that could release them", Stack: trunc(d, 20000)})
				r.exitNow()
			}
			prevSig = d[:strings.IndexByte(d, '\n')]
			continue
		}
		prevSig = ""
		if idle > 60*time.Second && cpuSeconds()-cpu0 > 45 {
			for _, g := range gs {
				if strings.Contains(g.stack, libFrame) && (g.state == "running" || g.state == "runnable") {
					r.addViolation(Violation{Section: "watchdog", Seed: r.Seed, Key: r.Prop + "/nontermination",
						Msg: "a call consumed over 45 s of CPU without returning (calls of this workload take milliseconds)", Stack: trunc(g.stack, 20000)})
					r.exitNow()
				}
			}
		}
	}
}

func sleepMs(n int) { time.Sleep(time.Duration(n) * time.Millisecond) }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(truncated)"
	}
	return s
}

var checks = map[string]func(*Run){}

func main() {
	var seed string
	r := &Run{distinct: map[uint64]struct{}{}, counters: map[string]int64{}, start: time.Now()}
	flag.StringVar(&r.Prop, "prop", "", "property id")
	flag.StringVar(&r.Tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&seed, "seed", "1", "seed")
	flag.StringVar(&r.Out, "out", "/dev/stdout", "result file")
	flag.StringVar(&r.OnlySec, "section", "", "replay: only this section")
	flag.IntVar(&r.OnlyIdx, "index", -1, "replay: only this case of the section")
	flag.Float64Var(&r.Scale, "scale", 1, "scale case counts")
	child := flag.String("child", "", "internal: run one resource-limited child case")
	flag.Parse()
	if s, err := strconv.ParseUint(seed, 10, 64); err == nil {
		r.Seed = s
	} else {
		r.Seed = hashStr(seed)
	}
	if strings.HasPrefix(*child, apartChild) {
		apartMain(*child)
		return
	}
	if *child != "" {
		childMain(r, *child)
		return
	}
	f := checks[r.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // what the library prints; results go to the file of -out
	}
	go r.watchdog()
	f(r)
	if m, ok := mixes[r.Prop]; ok && !r.stop.Load() {
		mixSection(r, m)
		if !r.stop.Load() {
			quietSection(r, m)
		}
	}
	if !r.stop.Load() {
		ownSection(r)
	}
	r.write()
}
