package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

func init() {
	checks["C05"] = func(r *Run) { checkLin(r, "idxtable", 30000, 600000) }
	checks["C11"] = func(r *Run) { checkLin(r, "tables", 40000, 800000) }
	checks["C19"] = func(r *Run) { checkLin(r, "trees", 24000, 480000) }
}

type event struct {
	client    int
	op        cop
	out       string
	call, ret int64
	panicked  string
}

// profiles are operation mixes: subsets that put contended multi-step operations next to observers of their effects.
var linProfiles = map[string][][]string{
	"idxtable": {
		{"ClaimDynamic", "Release", "FindFree"},
		{"ClaimDynamic", "ClaimSize", "Release", "Size"},
		{"ClaimRange", "GetAll", "IterateFree", "Release"},
		{"ClaimRange", "Claim", "Release", "Size"},
		{"ClaimSize", "Iterate", "FindFreeSize", "Release"},
		{"Claim", "Update", "Get", "Release"},
		{"Claim", "Release", "Has", "IsFree", "Update"},
		{"ClaimRange", "ClaimDynamic", "FindFreeRange", "Release"},
		{"ClaimSize", "ClaimRange", "Has", "Size"},
		{"Claim", "ClaimDynamic", "ClaimRange", "ClaimSize", "Release", "Release"},
		{"ClaimDynamic"}, {"Claim", "Claim", "Get"}, {"ClaimSize", "GetAll"},
	},
	"tables": {
		{"ClaimFree", "Release"}, {"ClaimFree"}, {"ClaimFree", "Claim", "Release", "Size"},
		{"Claim", "Update", "Get", "Release"}, {"Claim", "Release"}, {"ClaimFree", "FindFree", "Release"},
		{"ClaimFree", "GetAll", "Release"}, {"Claim", "Update", "GetByLabel", "Release"}, {"Claim", "Has", "IsFree", "Release"},
		{"ClaimFree", "Update", "Size", "GetAll"},
		{"Update", "GetAll", "GetByLabel", "Get"},
	},
	"trees": {
		{"ClaimFree"}, {"ClaimFree", "ReleaseID"}, {"ClaimFree", "ClaimID", "Size"}, {"ClaimRange", "GetAll"}, {"ClaimRange", "Size", "ReleaseByLabel"},
		{"ReleaseByLabel", "GetAll", "Update"}, {"ReleaseByLabel", "Clone", "ClaimID"}, {"ClaimRange", "Clone"}, {"Update", "ReleaseID", "Get"},
		{"ClaimID", "Children", "Parents", "ReleaseID"}, {"ClaimRange", "Children", "ReleaseByLabel"}, {"Update", "GetByLabel", "ReleaseByLabel"},
		{"ClaimFree", "ReleaseByLabel", "GetAll"}, {"ClaimFree", "ClaimRange", "ReleaseByLabel"}, {"Update", "ReleaseID"}, {"ClaimRange", "ClaimFree"},
		{"ClaimRange", "Parents"}, {"ClaimRange", "GetByLabel"}, {"ClaimRange", "Update", "ReleaseID", "Get"},
	},
}

// linGlimpses are the operations on many ids and the questions about one: in a glimpse, one client performs the former while
// the others ask the latter over and over, so that two answers can fall within one operation.
var linGlimpses = map[string][2][]string{
	"idxtable": {{"ClaimRange", "ClaimRange", "ClaimSize", "Release"}, {"Has", "Get", "IsFree", "Size"}},
	"tables":   {{"Claim", "ClaimFree", "Update", "Release"}, {"Has", "Get", "IsFree", "Size"}},
	"trees":    {{"ClaimRange", "ClaimRange", "ReleaseByLabel", "ClaimFree"}, {"Get", "Get", "Parents", "Size"}},
}

func kinds(t target, ns []string) (ks []int) {
	for _, n := range ns {
		if k := kindIdx(t, n); k >= 0 {
			ks = append(ks, k)
		}
	}
	return
}

func kindIdx(t target, n string) int {
	for i, k := range t.kinds() {
		if k == n {
			return i
		}
	}
	return -1
}

// history runs clients*n operations concurrently against t after a sequential warm-up and returns the record.
func history(rng *rand.Rand, t target, mix []int, clients, n, warm int, look []int, v int32, base time.Time) []event {
	var evs []event
	g0 := &gctx{}
	call := func(g *gctx, client int, o cop) (e event) {
		e.client, e.op = client, o
		defer func() {
			if p := recover(); p != nil {
				e.panicked = fmt.Sprint(p)
				e.ret = 2*int64(time.Since(base)) + 1
			}
		}()
		e.call = 2 * int64(time.Since(base))
		e.out = t.do(g, o)
		e.ret = 2*int64(time.Since(base)) + 1
		return
	}
	for i := 0; i < warm; i++ {
		v++
		e := call(g0, 0, t.gen(rng, mix[rng.IntN(len(mix))], v))
		evs = append(evs, e)
	}
	plan := make([][]cop, clients)
	for c := range plan {
		mix, n := mix, n
		if len(look) > 0 && c > 0 { // all but the first only look, often
			mix, n = look, 6+rng.IntN(8)
		}
		for i := 0; i < n; i++ {
			v++
			k := mix[rng.IntN(len(mix))]
			o := t.gen(rng, k, v)
			if rng.IntN(24) == 0 {
				o = t.bad(rng, k, v)
			}
			plan[c] = append(plan[c], o)
		}
	}
	res := make([][]event, clients)
	var ready, done sync.WaitGroup
	var start atomic.Bool
	for c := 0; c < clients; c++ {
		ready.Add(1)
		done.Add(1)
		spin := rng.IntN(40)
		go func() {
			defer done.Done()
			g := &gctx{}
			ready.Done()
			for !start.Load() {
				runtime.Gosched()
			}
			for i := 0; i < spin; i++ { // stagger by some tens of nanoseconds
				start.Load()
			}
			for _, o := range plan[c] {
				res[c] = append(res[c], call(g, c+1, o))
			}
		}()
	}
	ready.Wait()
	start.Store(true)
	done.Wait()
	for _, x := range res {
		evs = append(evs, x...)
	}
	return evs
}

func shortOut(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q... (%d bytes, hash %x)", s[:200], len(s), hashStr(s))
	}
	return fmt.Sprintf("%q", s)
}

func render(t target, evs []event) []string {
	s := append([]event(nil), evs...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].call < s[j].call })
	var out []string
	for _, e := range s {
		out = append(out, fmt.Sprintf("client %d [%d..%d] %s = %s%s", e.client, e.call, e.ret, t.describe(e.op), shortOut(e.out), e.panicked))
	}
	return out
}

func linModel(t target, init cstate) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return init },
		Step: func(st, in, out any) (bool, any) {
			ok, ns := t.step(slices.Clone(st.(cstate)), in.(cop), out.(string))
			return ok, ns
		},
		Equal: func(a, b any) bool { return slices.Equal(a.(cstate), b.(cstate)) },
	}
}

func checkLin(r *Run, kind string, quick, thorough int) {
	r.rule = "a case is one small shared object (3-7 slots; trees of 2-3 bits with all their prefixes) with up to 4 warm-up operations and 2-4 clients issuing 2-5 operations each, drawn from an operation mix chosen to put multi-step operations next to observers; call and return times and results are recorded at the client and the history is checked offline for linearizability against the sequential specification. big: the same on objects that start with up to hundreds of entries (index tables of 300-1200 ids, windows of 200-600, IP ranges of 150-300, trees of 6 and 8 bits), where ranges, sizes, listings and label releases touch many entries at a time. glimpses: one client performs operations on many ids of such an object while the others ask about single ids over and over, so that two answers fall within one operation. Distinct = different operations, results or order of call/return events; non-trivial = operations of different clients overlap and at least one of them modifies the object."
	base := time.Now()
	ts := linTargets(kind)
	r.each("linearizable", r.N(quick, thorough), 3, func(c *Case, i int) {
		t := ts[c.Rng.IntN(len(ts))].fresh()
		linCase(r, c, kind, t, make(cstate, t.slots()), c.Rng.IntN(5), 0, false, base)
	})
	bs := bigTargets(kind)
	big := func(glimpse bool) func(c *Case, i int) {
		return func(c *Case, i int) {
			t := bs[c.Rng.IntN(len(bs))].fresh()
			st := make(cstate, t.slots())
			v := int32(0)
			if !glimpse || c.Rng.IntN(2) == 0 {
				for _, o := range t.fill(c.Rng) {
					v = max(v, o.v)
					out := t.do(&gctx{}, o)
					ok, ns := t.step(st, o, out)
					if !ok {
						c.Fail("%s: %s = %q does not fit the content before", t.name(), t.describe(o), out)
					}
					st = ns
				}
			}
			n := 0
			for _, v := range st {
				if v != 0 {
					n++
				}
			}
			r.Count("entries_in_big_objects", int64(n))
			linCase(r, c, kind, t, st, 0, v, glimpse, base)
		}
	}
	r.each("big", r.N(quick/20, thorough/20), 3, big(false))
	r.each("glimpses", r.N(quick/5, thorough/5), 3, big(true))
}

func linCase(r *Run, c *Case, kind string, t target, init cstate, warm int, v int32, glimpse bool, base time.Time) {
	profs := linProfiles[kind]
	var mix []int
	if p := c.Rng.IntN(len(profs) + 3); p < len(profs) {
		mix = kinds(t, profs[p])
	}
	if len(mix) == 0 {
		for k := 0; k < t.lin(); k++ {
			mix = append(mix, k)
		}
	}
	clients := 2 + c.Rng.IntN(3)
	n := 2 + c.Rng.IntN(4)
	var look []int
	if glimpse {
		g := linGlimpses[kind]
		mix, look = kinds(t, g[0]), kinds(t, g[1])
		if c.Rng.IntN(2) == 0 {
			look = look[:1]
		}
		n, clients = 1+c.Rng.IntN(3), 2+c.Rng.IntN(2)
	}
	evs := history(c.Rng, t, mix, clients, n, warm, look, v, base)
	var ops []porcupine.Operation
	type pt struct {
		t int64
		s string
	}
	var pts []pt
	for _, e := range evs {
		c.Beat()
		if e.panicked != "" {
			c.trace = render(t, evs)
			c.key = "panic"
			c.Fail("%s panicked: %s", t.describe(e.op), e.panicked)
		}
		ops = append(ops, porcupine.Operation{ClientId: e.client, Input: e.op, Call: e.call, Output: e.out, Return: e.ret})
		pts = append(pts, pt{e.call, fmt.Sprintf("c%d%v", e.client, e.op)}, pt{e.ret, fmt.Sprintf("r%d%s", e.client, e.out)})
	}
	overlap := false
	for a := range evs {
		for b := range evs {
			if evs[a].client != evs[b].client && evs[a].call < evs[b].ret && evs[b].call < evs[a].ret {
				overlap = true
			}
		}
	}
	sort.SliceStable(pts, func(i, j int) bool { return pts[i].t < pts[j].t })
	for _, p := range pts {
		c.Mix(hashStr(p.s))
	}
	if overlap {
		c.Nontrivial()
		r.Count("histories_with_overlap", 1)
	}
	c.trace = nil
	if c.Index%7 == 3 {
		c.sample = map[string]any{"object": t.name(), "slots": t.slots(), "history": render(t, evs)}
	}
	r.Count("histories:"+t.name(), 1)
	res, _ := porcupine.CheckOperationsVerbose(linModel(t, init), ops, 20*time.Second)
	switch res {
	case porcupine.Illegal:
		c.trace = render(t, evs)
		c.key = "not-linearizable:" + strings.TrimRight(t.name(), "0123456789")
		c.Fail("%s: no order of these operations consistent with their call and return times explains the results", t.name())
	case porcupine.Unknown:
		r.Count("checker_gave_up", 1)
		if r.counters["checker_gave_up"] > 20 {
			r.Inconclusive("the linearizability checker gave up on more than 20 histories")
		}
	}
}
