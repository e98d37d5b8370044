package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
)

func init() {
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// stressTargets are the shared objects of the race and deadlock monitors.
func stressTargets() []target {
	ts := []target{newIx(6), newIx(48)}
	for _, w := range widths {
		ts = append(ts, newTb(w, 100, 8))
	}
	ts = append(ts, newIP("10.0.0.254", 6), newIP("2001:db8::fffe", 6))
	for _, w := range widths {
		ts = append(ts, newTr(w, 3))
	}
	return ts
}

// bigStressTargets are prefilled, so that whatever only happens in objects with many entries happens.
func bigStressTargets() []target {
	ts := []target{newBigIx(300)}
	for _, w := range widths {
		ts = append(ts, newBigTb(w, 100, 200))
	}
	ts = append(ts, newBigIP("10.0.0.254", 200))
	for _, w := range widths {
		ts = append(ts, newBigTr(w, 8))
	}
	return ts
}

// fillBig fills most of it, nearly always.
func fillBig(rng *rand.Rand, t target) {
	g := &gctx{}
	for _, o := range t.fill(rng) {
		t.do(g, o)
	}
	if rng.IntN(8) == 0 {
		return
	}
	claim := 0
	for k, n := range t.kinds() {
		if n == "Claim" || n == "ClaimID" {
			claim = k
		}
	}
	tr, isTree := t.(*trTarget)
	for i := 0; i < t.slots(); i++ {
		o := t.gen(rng, claim, int32(1000+i))
		if isTree {
			if o.a = uint64(i); tr.pks[i].l < tr.w.B-3 {
				continue
			}
			if tr.pks[i].l < tr.w.B && rng.IntN(10) == 0 {
				continue
			}
		}
		if rng.IntN(20) > 0 {
			t.do(g, o)
		}
	}
}

// fill puts some content in, so that both outcomes of most operations occur.
func fill(rng *rand.Rand, t target, n int) {
	g := &gctx{}
	for i := 0; i < n; i++ {
		k := rng.IntN(t.lin())
		if strings.HasPrefix(t.kinds()[k], "Claim") || strings.HasPrefix(t.kinds()[k], "Update") {
			t.do(g, t.gen(rng, k, int32(i+1)))
		}
	}
}

// storm runs the given operation lists concurrently (one goroutine per list, n rounds each) and returns a panic, if any.
// Between the start barrier and the end nothing but the library orders the goroutines.
func storm(t target, seed uint64, lists [][]int, n int, badShare int) (executed int64, pan string) {
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	pans := make([]string, len(lists))
	for c := range lists {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					pans[c] = fmt.Sprintf("%v\n%s", p, debug.Stack())
				}
			}()
			rng := rand.New(rand.NewPCG(seed, uint64(c)+1))
			g := &gctx{}
			// everything drawn beforehand
			ops := make([]cop, n)
			for i := range ops {
				k := lists[c][rng.IntN(len(lists[c]))]
				v := int32(c*n + i + 1)
				if badShare > 0 && rng.IntN(badShare) == 0 && k < t.lin() {
					ops[i] = t.bad(rng, k, v)
				} else {
					ops[i] = t.gen(rng, k, v)
				}
			}
			ready.Done()
			<-start
			for i, o := range ops {
				t.do(g, o)
				if i&7 == 3 {
					runtime.Gosched()
				}
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, p := range pans {
		if p != "" {
			return 0, p
		}
	}
	return int64(n * len(lists)), ""
}

type pair struct {
	t    target
	a, b int
}

func allPairs(ts []target) []pair {
	var ps []pair
	for _, t := range ts {
		n := len(t.kinds())
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				ps = append(ps, pair{t, a, b})
			}
		}
	}
	return ps
}

func checkC06(r *Run) {
	r.rule = "built with the race detector. pairs: for every object kind and every unordered pair of its operations (including draining an older iterator or list and using an older clone) two to four goroutines run the two operations against one object with no other ordering between them; mixes: up to 8 goroutines run all operations; separate: different objects and clones are used by different goroutines at once; big: the pairs on objects with up to hundreds of entries. A race report that involves the library, a panic or a runtime fault is a violation. Distinct = object kind, operations and random choices; non-trivial = all operations of the case were executed by at least two goroutines."
	ps := allPairs(stressTargets())
	r.Count("operation_pairs", int64(len(ps)))
	r.each("pairs", len(ps)*r.N(2, 40), 2, func(c *Case, i int) {
		p := ps[i%len(ps)]
		t := p.t.fresh()
		fill(c.Rng, t, 6)
		lists := [][]int{{p.a}, {p.b}}
		if c.Rng.IntN(2) == 0 {
			lists = append(lists, []int{p.a}, []int{p.b})
		}
		c.Op("%s: %s against %s, %d goroutines", t.name(), t.kinds()[p.a], t.kinds()[p.b], len(lists))
		c.Mix(uint64(i))
		n, pan := storm(t, c.Rng.Uint64(), lists, 24, 8)
		c.ops += n
		c.key = "panic"
		c.Check(pan == "", "%s: concurrent %s and %s: panic %s", t.name(), t.kinds()[p.a], t.kinds()[p.b], pan)
		c.Nontrivial()
	})
	ts := stressTargets()
	r.each("mixes", r.N(60, 3000), 1, func(c *Case, i int) {
		t := ts[i%len(ts)].fresh()
		fill(c.Rng, t, c.Rng.IntN(8))
		var all []int
		for k := range t.kinds() {
			all = append(all, k)
		}
		lists := make([][]int, 3+c.Rng.IntN(6))
		for k := range lists {
			lists[k] = all
		}
		c.Op("%s: all operations, %d goroutines", t.name(), len(lists))
		c.Mix(uint64(i))
		n, pan := storm(t, c.Rng.Uint64(), lists, 150, 10)
		c.ops += n
		c.key = "panic"
		c.Check(pan == "", "%s: panic %s", t.name(), pan)
		c.Nontrivial()
	})
	bp := allPairs(bigStressTargets())
	r.each("big", len(bp)*r.N(1, 20), 3, func(c *Case, i int) {
		p := bp[i%len(bp)]
		t := p.t.fresh()
		fillBig(c.Rng, t)
		c.Op("%s with up to %d entries: %s against %s", t.name(), t.slots(), t.kinds()[p.a], t.kinds()[p.b])
		c.Mix(uint64(i))
		n, pan := storm(t, c.Rng.Uint64(), [][]int{{p.a}, {p.b}}, 5, 8)
		c.ops += n
		c.key = "panic"
		c.Check(pan == "", "%s: concurrent %s and %s: panic %s", t.name(), t.kinds()[p.a], t.kinds()[p.b], pan)
		c.Nontrivial()
	})
	// Different objects (and clones of one tree) share nothing a caller could know of.
	r.each("separate", r.N(40, 1500), 1, func(c *Case, i int) {
		var objs []target
		if i%2 == 0 {
			for k := 0; k < 4; k++ {
				objs = append(objs, ts[c.Rng.IntN(len(ts))].fresh())
			}
		} else {
			w := widths[(i/2)%3]
			o := newTr(w, 3)
			fill(c.Rng, o, 8)
			objs = append(objs, o)
			for k := 0; k < 3; k++ {
				cl := *o
				cl.t = objs[c.Rng.IntN(len(objs))].(*trTarget).t.Clone()
				objs = append(objs, &cl)
			}
		}
		var wg sync.WaitGroup
		var bad atomic.Pointer[string]
		var names []string
		seed := c.Rng.Uint64()
		for k, o := range objs {
			names = append(names, o.name())
			var all []int
			for x := range o.kinds() {
				all = append(all, x)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, p := storm(o, seed+uint64(k), [][]int{all}, 120, 10); p != "" {
					bad.Store(&p)
				}
			}()
		}
		wg.Wait()
		c.Op("separate objects %v (clones: %v)", names, i%2 == 1)
		c.Mix(uint64(i))
		c.ops += 480
		if p := bad.Load(); p != nil {
			c.key = "panic"
			c.Fail("separate objects %v: panic %s", names, *p)
		}
		c.Nontrivial()
	})
}

func checkC07(r *Run) {
	r.rule = "built with a lock stand-in that lets a writer queue between the nested read locks of one goroutine and dawdles when a second lock is taken. pairs: every unordered pair of operations of every object kind, each by two goroutines, next to one goroutine of a modifying operation; mixes: up to 8 goroutines; big: the pairs on objects with up to hundreds of entries; after-error: every operation is refused (or succeeds) and then every operation must still complete; repeated: each pair 10000 or 150000 times from one goroutine. A deadlock is decided from goroutine states: goroutines wait inside the library and nothing in the process can run. Distinct = object kind, operations, random choices; non-trivial = all calls of the case were made from at least two goroutines (after-error: at least one call was refused)."
	ps := allPairs(stressTargets())
	r.Count("operation_pairs", int64(len(ps)))
	r.each("pairs", len(ps)*r.N(3, 60), 4, func(c *Case, i int) {
		p := ps[i%len(ps)]
		t := p.t.fresh()
		fill(c.Rng, t, 6)
		var writers []int
		for k, n := range t.kinds()[:t.lin()] {
			if strings.HasPrefix(n, "Claim") || strings.HasPrefix(n, "Release") || n == "Update" {
				writers = append(writers, k)
			}
		}
		lists := [][]int{{p.a}, {p.b}, {p.a}, {p.b}, {writers[c.Rng.IntN(len(writers))]}}
		c.Op("%s: %s and %s next to %s", t.name(), t.kinds()[p.a], t.kinds()[p.b], t.kinds()[lists[4][0]])
		c.Mix(uint64(i))
		n, pan := storm(t, c.Rng.Uint64(), lists, 12, 6)
		_ = pan // a panic is C06's business; if it leaves a lock behind, later calls on the object hang
		if pan != "" {
			r.Count("cases_with_panic", 1)
			storm(t, c.Rng.Uint64(), lists, 6, 0)
		}
		c.ops += n
		c.Nontrivial()
	})
	ts := stressTargets()
	r.each("mixes", r.N(240, 8000), 2, func(c *Case, i int) {
		t := ts[i%len(ts)].fresh()
		fill(c.Rng, t, c.Rng.IntN(8))
		var all []int
		for k := range t.kinds() {
			all = append(all, k)
		}
		lists := make([][]int, 3+c.Rng.IntN(6))
		for k := range lists {
			lists[k] = all
		}
		c.Op("%s: all operations, %d goroutines", t.name(), len(lists))
		c.Mix(uint64(i))
		n, _ := storm(t, c.Rng.Uint64(), lists, 80, 6)
		c.ops += n
		c.Nontrivial()
	})
	bp := allPairs(bigStressTargets())
	r.each("big", len(bp)*r.N(1, 20), 4, func(c *Case, i int) {
		p := bp[i%len(bp)]
		t := p.t.fresh()
		fillBig(c.Rng, t)
		w := kindIdx(t, "Update")
		c.Op("%s with up to %d entries: %s and %s next to Update", t.name(), t.slots(), t.kinds()[p.a], t.kinds()[p.b])
		c.Mix(uint64(i))
		n, pan := storm(t, c.Rng.Uint64(), [][]int{{p.a}, {p.b}, {w}}, 6, 6)
		if pan != "" {
			storm(t, c.Rng.Uint64(), [][]int{{p.a}, {p.b}, {w}}, 6, 0)
		}
		c.ops += n
		c.Nontrivial()
	})
	// Something may fill up without anybody emptying it.
	nrep := len(ps) * r.N(1, 4)
	if os.Getenv("VERIF_SHIM_TRACK") != "" {
		nrep = 0 // without the stand-in, for numbers
	}
	r.each("repeated", nrep, 8, func(c *Case, i int) {
		p := ps[i%len(ps)]
		t := p.t.fresh()
		fill(c.Rng, t, 4)
		n := 10000
		if ka, kb := t.kinds()[p.a], t.kinds()[p.b]; p.a == p.b || strings.HasPrefix(ka, "Claim") && strings.HasPrefix(kb, "Release") || strings.HasPrefix(ka, "Release") && strings.HasPrefix(kb, "Claim") {
			n = 150000
		}
		c.Op("%s: %s and %s, %d times from one goroutine", t.name(), t.kinds()[p.a], t.kinds()[p.b], n)
		c.Mix(uint64(i))
		g := &gctx{}
		for k := 0; k < n; k++ {
			x := p.a
			if k&1 == 1 {
				x = p.b
			}
			try(t, g, t.gen(c.Rng, x, int32(k+1)))
			if k&63 == 0 {
				c.Beat()
			}
		}
		c.ops += int64(n)
		c.Nontrivial()
	})
	// After any operation has returned, every other operation can still complete.
	bts := bigStressTargets()
	r.each("after-error", r.N(1000, 30000), 8, func(c *Case, i int) {
		t := ts[i%len(ts)].fresh()
		// empty, partly filled, full, hundreds of entries
		switch c.Rng.IntN(4) {
		case 3:
			t = bts[i%len(bts)].fresh()
			fillBig(c.Rng, t)
		case 1:
			fill(c.Rng, t, 8)
		case 2:
			fill(c.Rng, t, 80)
		}
		g := &gctx{}
		refused := 0
		for round := 0; round < 2; round++ {
			for k := range t.kinds() {
				if k < t.lin() {
					o := t.bad(c.Rng, k, int32(100+k))
					c.Op("%s = (refused call)", t.describe(o))
					if try(t, g, o) == "E" {
						refused++
					}
				}
				// every other operation, each of which takes the lock
				for q := 0; q < t.lin(); q++ {
					o := t.gen(c.Rng, q, int32(200+q))
					c.Op("%s", t.describe(o))
					if try(t, g, o) == "E" {
						refused++
					}
				}
			}
		}
		if refused > 0 {
			c.Nontrivial()
		}
		r.Count("refused_calls", int64(refused))
	})
}

func try(t target, g *gctx, o cop) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = "panic"
		}
	}()
	return t.do(g, o)
}
