package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	checks["C09"] = checkC09
	checks["C10"] = checkC10
}

// tabModel is the reference for a windowed table.
type tabModel struct {
	w          *Width
	start, end uint64
	m          map[uint64]labels.Set
}

func (m *tabModel) in(id uint64) bool { return m.start <= id && id <= m.end }
func (m *tabModel) sorted() []uint64 {
	ks := make([]uint64, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}
func (m *tabModel) lowestFree() (uint64, bool) {
	if m.start > m.end {
		return 0, false
	}
	for id := m.start; ; id++ {
		if _, ok := m.m[id]; !ok {
			return id, true
		}
		if id == m.end {
			return 0, false
		}
	}
}

var labelKeys = []string{"a", "b", "app", "tier"}
var labelVals = []string{"", "x", "y", "z", "1", "2"}

// plainLabels are given to many entries alike; some are easily taken for one another.
var plainLabels = []labels.Set{{"a": "x"}, {"a": "x", "b": "y"}, {"a": "x,b=y"}, {"b": "y"}, {"a": ""}, {"a": "", "b": ""}, {"a": "x", "b": ""}, {"ab": "x"}, {"a": "bx"}, {"a": "y"},
	{"A": "x"}, {"a": "X"}, {"a": " x"}, {"a": "x "}, {"a": longVal + "1"}, {"a": longVal + "2"}, {longVal + "1": "x"}, {longVal + "2": "x"}, {"é": "x"}, {"a\x00": "x"}}

var longVal = strings.Repeat("x", 300)

// randLabels gives a write a unique uid label plus a few class labels, or no labels at all, or the same as others.
func randLabels(c *Case, uid int) labels.Set {
	switch c.Rng.IntN(12) {
	case 0:
		return nil
	case 1:
		return labels.Set{}
	case 2, 3:
		return cloneLabels(plainLabels[c.Rng.IntN(len(plainLabels))])
	}
	l := labels.Set{"uid": fmt.Sprint(uid)}
	if c.Rng.IntN(24) == 0 { // very many of them
		for i := 5 + c.Rng.IntN(80); i > 0; i-- {
			l["k"+strconv.Itoa(i)] = "v" + strconv.Itoa(c.Rng.IntN(3))
		}
	}
	for i := c.Rng.IntN(4); i > 0; i-- {
		l[labelKeys[c.Rng.IntN(len(labelKeys))]] = labelVals[c.Rng.IntN(len(labelVals))]
	}
	return l
}

var selStrings = []string{"a=x", "a!=x", "a in (x,y)", "a notin (x,y)", "a", "!a", "b=y,a", "a=x,b!=y", "app", "!app,b", "tier in (1,2)", "app=", "tier>1", "tier<2", "a=y,b=y", "a==z", "a=", "a!=", "a in (,x)", "b notin (,y)", "b=,a", "uid>10", "uid<20,a", "ab", "a=bx", "A", "a=X", "k9", "!k9", "k70", "k70=v1", "k12!=v0", "k4=v1,k5", "k30 in (v0,v1,v2)"}

func randSelector(c *Case) labels.Selector {
	switch c.Rng.IntN(12) {
	case 10: // may read like another one
		return labels.SelectorFromSet(plainLabels[c.Rng.IntN(len(plainLabels))])
	case 0:
		return labels.Everything()
	case 1:
		return labels.Nothing()
	case 2:
		return labels.NewSelector()
	case 3:
		return labels.SelectorFromSet(labels.Set{"uid": fmt.Sprint(c.Rng.IntN(60))})
	}
	s := selStrings[c.Rng.IntN(len(selStrings))]
	if c.Rng.IntN(4) == 0 {
		s += "," + selStrings[c.Rng.IntN(len(selStrings))]
	}
	switch c.Rng.IntN(24) {
	case 0: // many requirements, most of them met by most
		for i := 3 + c.Rng.IntN(12); i > 0; i-- {
			s += "," + []string{"!q", "tier!=9", "a notin (q)", "app!=q", "!zz", "uid!=0"}[c.Rng.IntN(6)]
		}
	case 1: // many values
		s = "uid in (0"
		for i := 20 + c.Rng.IntN(100); i > 0; i-- {
			s += "," + strconv.Itoa(c.Rng.IntN(80))
		}
		s += ")"
	}
	sel, err := labels.Parse(s)
	if err != nil {
		panic(err)
	}
	return sel
}

func (m *tabModel) window(c *Case, i int) {
	w := m.w
	switch i % 10 {
	case 0:
		m.start, m.end = 0, w.Max
	case 1:
		m.start = c.Rng.Uint64N(w.Max)
		m.end = m.start
	case 2:
		m.end = w.Max
		m.start = w.Max - c.Rng.Uint64N(20)
	case 3:
		m.start = 1 + c.Rng.Uint64N(w.Max-1)
		m.end = m.start - 1 - c.Rng.Uint64N(min(m.start, 50)) // reversed
	case 4:
		m.start, m.end = 0, c.Rng.Uint64N(20)
	case 5:
		m.start = 1
		m.end = w.Max
	case 6:
		m.start, m.end = 0, w.Max-1
	default:
		m.start = c.Rng.Uint64N(w.Max)
		m.end = m.start + min(c.Rng.Uint64N(20), w.Max-m.start)
	}
}

func (m *tabModel) pool(c *Case) []uint64 {
	p := []uint64{m.start, m.end, m.start + 1, m.end - 1, m.start - 1, m.end + 1, 0, m.w.Max, m.w.Max + 1, math.MaxUint64, m.start + m.w.Max + 1, m.start + 2, m.start + 3}
	for i := 0; i < 5; i++ {
		if m.start <= m.end {
			sp := m.end - m.start
			p = append(p, m.start+c.Rng.Uint64N(min(sp, 15)+1))
			if sp < math.MaxUint64 {
				p = append(p, m.start+c.Rng.Uint64N(sp+1))
			}
		}
		p = append(p, c.Rng.Uint64()>>c.Rng.IntN(64))
		p = append(p, (m.w.Max+1)|m.start) // same low bits, beyond the width
	}
	return p
}

func (m *tabModel) checkEntry(c *Case, what string, e tree.Entry, id uint64) {
	c.Check(e != nil, "%s: nil entry for id %d", what, id)
	c.Check(e.ID().ID() == id && e.ID().Length() == m.w.B, "%s: entry reports id %d/%d, want %d/%d", what, e.ID().ID(), e.ID().Length(), id, m.w.B)
	c.Check(lkey(e.Labels()) == lkey(m.m[id]), "%s: id %d has labels %v, want %v", what, id, e.Labels(), m.m[id])
}

// checkState checks occupancy only (C09); the entries' contents are C10's business, labels identify the write.
func (m *tabModel) checkState(c *Case, t table.Table, pool []uint64) {
	c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	probe := func(id uint64) {
		l, cl := m.m[id]
		c.Check(t.Has(id) == cl, "Has(%d) = %v, want %v (window %d-%d)", id, t.Has(id), cl, m.start, m.end)
		c.Check(t.IsFree(id) == (m.in(id) && !cl), "IsFree(%d) = %v, want %v (window %d-%d)", id, t.IsFree(id), m.in(id) && !cl, m.start, m.end)
		e, err := t.Get(id)
		c.Check((err == nil) == cl, "Get(%d) error %v, claimed %v (window %d-%d)", id, err, cl, m.start, m.end)
		if cl {
			c.Check(e != nil && lkey(e.Labels()) == lkey(l), "Get(%d) labels differ from the last claim or update: %v, want %v", id, e, l)
		}
	}
	for id := range m.m {
		probe(id)
	}
	for _, id := range pool {
		probe(id)
	}
	f, err := t.FindFree()
	want, ok := m.lowestFree()
	c.Check((err == nil) == ok && (!ok || f == want), "FindFree() = %d, %v; want %d, %v (window %d-%d)", f, err, want, ok, m.start, m.end)
}

// mutate applies one random operation to table and model.
func (m *tabModel) mutate(c *Case, t table.Table, pool []uint64, uid int) (kind string) {
	id := pool[c.Rng.IntN(len(pool))]
	if c.Rng.IntN(3) == 0 && len(m.m) > 0 {
		ks := m.sorted()
		id = ks[c.Rng.IntN(len(ks))]
	}
	l := randLabels(c, uid)
	_, cl := m.m[id]
	switch op := c.Rng.IntN(10); {
	case op < 3:
		err := t.Claim(id, cloneLabels(l))
		c.Op("Claim(%d,%v) = %v", id, l, err)
		c.Check((err == nil) == (m.in(id) && !cl), "Claim(%d) error %v; in window %v, claimed %v", id, err, m.in(id), cl)
		if err != nil {
			return "reject"
		}
		m.m[id] = l
		return "claim"
	case op < 5:
		want, ok := m.lowestFree()
		e, err := t.ClaimFree(cloneLabels(l))
		c.Op("ClaimFree(%v) = %v", l, err)
		c.Check((err == nil) == ok, "ClaimFree error %v, free id exists: %v", err, ok)
		if err != nil {
			return "exhausted"
		}
		m.m[want] = l
		c.Check(e != nil && e.ID().ID() == want, "ClaimFree returned %v, want lowest free %d", e, want)
		return "claimfree"
	case op < 7:
		err := t.Update(id, cloneLabels(l))
		c.Op("Update(%d,%v) = %v", id, l, err)
		c.Check((err == nil) == cl, "Update(%d) error %v, claimed %v", id, err, cl)
		if err != nil {
			return "reject"
		}
		m.m[id] = l
		return "update"
	default:
		err := t.Release(id)
		c.Op("Release(%d) = %v", id, err)
		c.Check((err == nil) == m.in(id), "Release(%d) error %v, in window %v", id, err, m.in(id))
		if err != nil {
			return "reject"
		}
		delete(m.m, id)
		if cl {
			return "release"
		}
		return "noop"
	}
}

func checkC09(r *Run) {
	r.rule = "a case is one table of one width and a window (full width, one id, upper end, reversed, small, offset) with a history of 60 random operations over in-window, adjacent, far and beyond-width ids; after every operation Size, FindFree and Has/IsFree/Get for all pool and claimed ids are compared with the reference. fill: small windows and the whole 16-bit window claimed to exhaustion by ClaimFree. Non-trivial: the history contains a rejected id, a release of a claimed id and a ClaimFree (or, for reversed windows, only rejections)."
	r.Each("history", r.N(900, 30000), func(c *Case, i int) {
		m := &tabModel{w: widths[i%3], m: map[uint64]labels.Set{}}
		m.window(c, i/3)
		t := m.w.NewTable(m.start, m.end)
		c.Op("table%d.New(%d,%d)", m.w.B, m.start, m.end)
		pool := m.pool(c)
		m.checkState(c, t, pool)
		n := map[string]int{}
		for k := 0; k < 60; k++ {
			n[m.mutate(c, t, pool, k)]++
			m.checkState(c, t, pool)
		}
		if n["reject"] > 0 && (m.start > m.end || n["release"] > 0 && n["claimfree"] > 0) {
			c.Nontrivial()
		}
		for k, v := range n {
			r.Count("outcome:"+k, int64(v))
		}
	})
	r.Each("fill", r.N(120, 2000), func(c *Case, i int) {
		m := &tabModel{w: widths[i%3], m: map[uint64]labels.Set{}}
		switch i % 4 {
		case 0:
			m.end = m.w.Max
			m.start = m.end - c.Rng.Uint64N(120)
		case 1:
			m.end = c.Rng.Uint64N(120)
		default:
			m.start = c.Rng.Uint64N(m.w.Max - 200)
			m.end = m.start + c.Rng.Uint64N(120)
		}
		t := m.w.NewTable(m.start, m.end)
		c.Op("table%d.New(%d,%d): fill by ClaimFree", m.w.B, m.start, m.end)
		for id := m.start; ; id++ {
			e, err := t.ClaimFree(labels.Set{"n": fmt.Sprint(id)})
			c.Beat()
			c.Check(err == nil && e != nil && e.ID().ID() == id, "ClaimFree = %v, %v; want id %d", e, err, id)
			m.m[id] = labels.Set{"n": fmt.Sprint(id)}
			if id == m.end {
				break
			}
		}
		_, err := t.ClaimFree(nil)
		c.Check(err != nil, "ClaimFree on a full table succeeded")
		m.checkState(c, t, []uint64{m.start - 1, m.end + 1})
		ks := m.sorted()
		x := ks[c.Rng.IntN(len(ks))]
		c.Check(t.Release(x) == nil, "Release(%d)", x)
		e, err := t.ClaimFree(nil)
		c.Op("release and reallocate %d: %v", x, err)
		c.Check(err == nil && e != nil && e.ID().ID() == x, "after releasing %d of a full table ClaimFree = %v, %v", x, e, err)
		c.Nontrivial()
	})
	r.Seq("full16", 1, func(c *Case, i int) {
		w := widths[0]
		t := w.NewTable(0, w.Max)
		c.Op("table16.New(0,65535): claim all ids")
		for id := uint64(0); id <= w.Max; id++ {
			err := t.Claim(id, nil)
			c.Beat()
			c.Check(err == nil, "Claim(%d) in the full 16-bit window failed: %v", id, err)
		}
		c.Check(t.Size() == 65536, "Size() = %d after claiming 65536 ids", t.Size())
		_, err := t.FindFree()
		c.Check(err != nil, "FindFree succeeded on a full 16-bit window")
		for _, id := range []uint64{65535, 0, 32768} {
			c.Check(t.Release(id) == nil, "Release(%d)", id)
			f, err := t.FindFree()
			c.Check(err == nil && f == id, "FindFree = %d, %v; only %d is free", f, err, id)
			e, err := t.ClaimFree(nil)
			c.Check(err == nil && e.ID().ID() == id, "ClaimFree = %v, %v; only %d is free", e, err, id)
		}
		c.Nontrivial()
	})
	largeC09(r)
	hugeC09(r)
}

func checkC10(r *Run) {
	r.rule = "a case is one table (any width and window) with a history of 50 random operations and random label sets; after every operation GetAll, Get of every claimed id, the entry returned by ClaimFree and three GetByLabel queries are compared with the reference (id, width, labels, order, mutual equality). Non-trivial: some query matched a proper non-empty subset, and labels of a claimed id were changed by Update."
	r.Each("history", r.N(900, 30000), func(c *Case, i int) {
		m := &tabModel{w: widths[i%3], m: map[uint64]labels.Set{}}
		m.window(c, i/3)
		if m.start > m.end {
			m.start, m.end = m.end, m.start
		}
		t := m.w.NewTable(m.start, m.end)
		c.Op("table%d.New(%d,%d)", m.w.B, m.start, m.end)
		pool := m.pool(c)
		subset, updates := 0, 0
		for k := 0; k < 50; k++ {
			if c.Rng.IntN(4) == 0 {
				want, ok := m.lowestFree()
				l := randLabels(c, k)
				e, err := t.ClaimFree(cloneLabels(l))
				c.Op("ClaimFree(%v) = %v", l, err)
				c.Check((err == nil) == ok, "ClaimFree error %v", err)
				if ok {
					m.m[want] = l
					m.checkEntry(c, "ClaimFree", e, want)
					g, err := t.Get(want)
					c.Check(err == nil, "Get(%d) after ClaimFree: %v", want, err)
					c.Check(e.Equal(g) && g.Equal(e), "entry of ClaimFree %v and of Get %v differ", e, g)
				}
			} else if m.mutate(c, t, pool, k) == "update" {
				updates++
			}
			ks := m.sorted()
			all := t.GetAll()
			c.Check(len(all) == len(ks), "GetAll lists %d entries, want ids %v", len(all), ks)
			for x, e := range all {
				m.checkEntry(c, "GetAll", e, ks[x])
				g, err := t.Get(ks[x])
				c.Check(err == nil, "Get(%d): %v", ks[x], err)
				m.checkEntry(c, "Get", g, ks[x])
				c.Check(e.Equal(g) && g.Equal(e), "entries of Get and GetAll for id %d are not Equal", ks[x])
			}
			own(c, "GetAll", all)
			for q := 0; q < 3; q++ {
				sel := randSelector(c)
				var want []uint64
				for _, id := range ks {
					if sel.Matches(m.m[id]) {
						want = append(want, id)
					}
				}
				got := t.GetByLabel(sel)
				var gs []string
				for _, e := range got {
					gs = append(gs, fmt.Sprint(e.ID()))
				}
				c.Check(len(got) == len(want), "GetByLabel(%q) = [%s], want ids %v", sel, strings.Join(gs, " "), want)
				for x, e := range got {
					m.checkEntry(c, fmt.Sprintf("GetByLabel(%q)", sel), e, want[x])
				}
				own(c, "GetByLabel", got)
				if len(want) > 0 && len(want) < len(ks) {
					subset++
				}
				r.beats.Add(1)
			}
		}
		if subset > 0 && updates > 0 {
			c.Nontrivial()
		}
		r.Count("proper_subset_selections", int64(subset))
	})
	largeC10(r)
	hugeC10(r)
}
