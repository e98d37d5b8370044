package main

import (
	"math/rand/v2"
	"net/netip"
	"strconv"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"k8s.io/apimachinery/pkg/labels"
)

// The concurrent monitors (C05, C06, C07, C11, C19) drive one shared object through this interface. do performs an
// operation and renders what the caller observed; step is the sequential specification of the same operation. Nothing in
// do synchronises with other goroutines (no fmt, no shared state), so a run under the race detector sees only the
// library's own ordering.

type cstate []int32 // value stored per slot, 0 = free; step may change the one it is given

type cop struct {
	kind int
	a, b uint64
	v    int32
}

// gctx is one client's private state.
type gctx struct {
	it    *idxtable.Iterator[int32]
	free  *idxtable.Iterator[int32]
	ents  idxtable.Entries[int32]
	clone gtree.GTree
}

type target interface {
	name() string
	kinds() []string
	lin() int // the first lin() kinds are judged by step; the others are only executed
	gen(rng *rand.Rand, kind int, v int32) cop
	bad(rng *rand.Rand, kind int, v int32) cop // an operation expected to be refused
	do(g *gctx, o cop) string
	step(st cstate, o cop, out string) (bool, cstate)
	fresh() target
	slots() int
	fill(rng *rand.Rand) []cop // operations that give a big object its initial content
	describe(o cop) string
}

func num(v uint64) string { return strconv.FormatUint(v, 10) }

func appendNum(b []byte, v uint64) []byte { return strconv.AppendUint(b, v, 10) }

func boolStr(b bool) string {
	if b {
		return "T"
	}
	return "F"
}

func describeOp(t target, o cop) string {
	return t.kinds()[o.kind] + "(" + num(o.a) + "," + num(o.b) + ",v" + num(uint64(o.v)) + ")"
}

// ---- index table ----

const (
	ixGet = iota
	ixClaim
	ixDyn
	ixRange
	ixSizeN
	ixRelease
	ixUpdate
	ixIterate
	ixIterFree
	ixSize
	ixHas
	ixIsFree
	ixFind
	ixFindRange
	ixFindSize
	ixGetAll
	ixDrainOld // from here on: not judged by step
	ixDrainOldFree
	ixReadOld
)

var ixKinds = []string{"Get", "Claim", "ClaimDynamic", "ClaimRange", "ClaimSize", "Release", "Update", "Iterate", "IterateFree", "Size", "Has",
	"IsFree", "FindFree", "FindFreeRange", "FindFreeSize", "GetAll", "DrainOldIterator", "DrainOldFreeIterator", "ReadOldList"}

type ixTarget struct {
	t   idxtable.Table[int32]
	n   uint64
	big bool // a table of hundreds of ids with operations on many of them at a time
}

func newIx(n uint64) *ixTarget            { return &ixTarget{idxtable.NewTable[int32](n), n, false} }
func newBigIx(n uint64) *ixTarget         { return &ixTarget{idxtable.NewTable[int32](n), n, true} }
func (x *ixTarget) fresh() target         { return &ixTarget{idxtable.NewTable[int32](x.n), x.n, x.big} }
func (x *ixTarget) slots() int            { return int(x.n) }
func (x *ixTarget) name() string          { return "idxtable" }
func (x *ixTarget) kinds() []string       { return ixKinds }
func (x *ixTarget) lin() int              { return ixDrainOld }
func (x *ixTarget) describe(o cop) string { return describeOp(x, o) }
func (x *ixTarget) gen(rng *rand.Rand, kind int, v int32) cop {
	o := cop{kind: kind, a: rng.Uint64N(x.n), v: v}
	switch kind {
	case ixRange, ixFindRange:
		o.b = 1 + rng.Uint64N(3)
	case ixSizeN, ixFindSize:
		o.a = 1 + rng.Uint64N(3)
	}
	if x.big {
		switch kind {
		case ixRange, ixFindRange:
			o.a, o.b = hot(rng, x.n), many(rng, x.n)
		case ixSizeN, ixFindSize:
			o.a = many(rng, x.n)
		case ixFind, ixDyn:
		default:
			o.a = hot(rng, x.n)
		}
	}
	return o
}

// hot is one of few ids, so that big objects are contended as well.
func hot(rng *rand.Rand, n uint64) uint64 {
	return (rng.Uint64N(8)*(n/8) + rng.Uint64N(3)) % n
}

// many is a number of ids that make up a good part of n.
func many(rng *rand.Rand, n uint64) uint64 {
	return []uint64{1 + rng.Uint64N(20), 33, 65 + rng.Uint64N(70), n / 8, n / 3, n / 8 * 7}[rng.IntN(6)]
}

func (x *ixTarget) fill(rng *rand.Rand) []cop {
	var os []cop
	for i, n := 0, rng.IntN(4); i < n; i++ {
		o := cop{kind: ixRange, a: rng.Uint64N(x.n), b: many(rng, x.n), v: int32(1 + i)}
		if rng.IntN(2) == 0 {
			o.a, o.b, o.kind = o.b, 0, ixSizeN
		}
		os = append(os, o)
	}
	for i, n := 0, rng.IntN(60); i < n; i++ {
		os = append(os, cop{kind: []int{ixClaim, ixRelease}[rng.IntN(2)], a: rng.Uint64N(x.n), v: int32(10 + i)})
	}
	return os
}
func (x *ixTarget) bad(rng *rand.Rand, kind int, v int32) cop {
	o := x.gen(rng, kind, v)
	switch kind {
	case ixSizeN, ixFindSize:
		o.a = []uint64{0, x.n + 1, 1 << 40}[rng.IntN(3)]
	case ixRange, ixFindRange:
		o.a, o.b = []uint64{0, x.n - 1, x.n, 1 << 63}[rng.IntN(4)], []uint64{0, x.n + 1, 1 << 63}[rng.IntN(3)]
	case ixIsFree: // what IsFree says of an id outside the table is not specified
	default:
		o.a = []uint64{x.n, x.n + 1, 1 << 63, ^uint64(0)}[rng.IntN(4)]
	}
	return o
}

func renderIter(it *idxtable.Iterator[int32], vals bool) string {
	var b []byte
	for it.Next() {
		b = appendNum(b, it.ID())
		if vals {
			b = append(b, ':')
			e := it.Value()
			if e == nil {
				b = append(b, "nil"...)
			} else {
				if e.ID() != it.ID() {
					b = append(b, '!')
				}
				b = appendNum(b, uint64(e.Data()))
			}
		}
		if it.IsConsecutive() {
			b = append(b, 'c')
		}
		b = append(b, ' ')
	}
	return string(b)
}

func renderEntries(es idxtable.Entries[int32]) string {
	var b []byte
	for _, e := range es {
		if e == nil {
			b = append(b, "nil "...)
			continue
		}
		b = appendNum(b, e.ID())
		b = append(b, ':')
		b = appendNum(b, uint64(e.Data()))
		b = append(b, ' ')
	}
	return string(b)
}

func renderIDs(ids []uint64) string {
	var b []byte
	for _, id := range ids {
		b = appendNum(b, id)
		b = append(b, ' ')
	}
	return string(b)
}

func (x *ixTarget) do(g *gctx, o cop) string {
	switch o.kind {
	case ixGet:
		e, err := x.t.Get(o.a)
		if err != nil {
			return "E"
		}
		return num(e.ID()) + ":" + num(uint64(e.Data()))
	case ixClaim:
		return errStr(x.t.Claim(o.a, o.v))
	case ixDyn:
		e, err := x.t.ClaimDynamic(o.v)
		if err != nil {
			return "E"
		}
		return num(e.ID()) + ":" + num(uint64(e.Data()))
	case ixRange:
		return errStr(x.t.ClaimRange(o.a, o.b, o.v))
	case ixSizeN:
		es, err := x.t.ClaimSize(o.a, o.v)
		if err != nil {
			return "E"
		}
		return renderEntries(es)
	case ixRelease:
		return errStr(x.t.Release(o.a))
	case ixUpdate:
		return errStr(x.t.Update(o.a, o.v))
	case ixIterate:
		return renderIter(x.t.Iterate(), true)
	case ixIterFree:
		return renderIter(x.t.IterateFree(), false)
	case ixSize:
		return num(uint64(x.t.Size()))
	case ixHas:
		return boolStr(x.t.Has(o.a))
	case ixIsFree:
		return boolStr(x.t.IsFree(o.a))
	case ixFind:
		id, err := x.t.FindFree()
		if err != nil {
			return "E"
		}
		return num(id)
	case ixFindRange:
		ids, err := x.t.FindFreeRange(o.a, o.b)
		if err != nil {
			return "E"
		}
		return renderIDs(ids)
	case ixFindSize:
		ids, err := x.t.FindFreeSize(o.a)
		if err != nil {
			return "E"
		}
		return renderIDs(ids)
	case ixGetAll:
		return renderEntries(x.t.GetAll())
	case ixDrainOld:
		if g.it == nil {
			g.it = x.t.Iterate()
			return ""
		}
		s := renderIter(g.it, true)
		g.it = x.t.Iterate()
		return s
	case ixDrainOldFree:
		if g.free == nil {
			g.free = x.t.IterateFree()
			return ""
		}
		s := renderIter(g.free, false)
		g.free = x.t.IterateFree()
		return s
	case ixReadOld:
		s := renderEntries(g.ents)
		g.ents = x.t.GetAll()
		return s
	}
	panic("kind")
}

func errStr(err error) string {
	if err != nil {
		return "E"
	}
	return "ok"
}

// listings of the model
func (s cstate) list(n, base uint64, vals, consec bool, want func(v int32) bool) string {
	var b []byte
	prev, any := uint64(0), false
	for i := uint64(0); i < n; i++ {
		if !want(s[i]) {
			continue
		}
		b = appendNum(b, base+i)
		if vals {
			b = append(b, ':')
			b = appendNum(b, uint64(s[i]))
		}
		if consec && any && prev+1 == i {
			b = append(b, 'c')
		}
		b = append(b, ' ')
		prev, any = i, true
	}
	return string(b)
}

func claimed(v int32) bool { return v != 0 }
func isfree(v int32) bool  { return v == 0 }

func (x *ixTarget) step(st cstate, o cop, out string) (bool, cstate) {
	want, ns := x.spec(st, o)
	return want == out, ns
}

func (x *ixTarget) spec(st cstate, o cop) (string, cstate) {
	in := o.a < x.n
	lowest := func(n uint64) []uint64 {
		var ids []uint64
		for i := uint64(0); i < x.n && uint64(len(ids)) < n; i++ {
			if st[i] == 0 {
				ids = append(ids, i)
			}
		}
		if uint64(len(ids)) < n || n == 0 {
			return nil
		}
		return ids
	}
	rng := func() []uint64 {
		if o.b == 0 || !in || o.b > x.n-o.a {
			return nil
		}
		var ids []uint64
		for i := o.a; i < o.a+o.b; i++ {
			if st[i] != 0 {
				return nil
			}
			ids = append(ids, i)
		}
		return ids
	}
	switch o.kind {
	case ixGet:
		if !in || st[o.a] == 0 {
			return "E", st
		}
		return num(o.a) + ":" + num(uint64(st[o.a])), st
	case ixClaim:
		if !in || st[o.a] != 0 {
			return "E", st
		}
		st[o.a] = o.v
		return "ok", st
	case ixUpdate:
		if !in || st[o.a] == 0 {
			return "E", st
		}
		st[o.a] = o.v
		return "ok", st
	case ixRelease:
		if !in {
			return "E", st
		}
		st[o.a] = 0
		return "ok", st
	case ixDyn:
		ids := lowest(1)
		if ids == nil {
			return "E", st
		}
		st[ids[0]] = o.v
		return num(ids[0]) + ":" + num(uint64(o.v)), st
	case ixRange:
		ids := rng()
		if ids == nil {
			return "E", st
		}
		for _, i := range ids {
			st[i] = o.v
		}
		return "ok", st
	case ixSizeN:
		ids := lowest(o.a)
		if ids == nil {
			return "E", st
		}
		var b []byte
		for _, i := range ids {
			st[i] = o.v
			b = appendNum(b, i)
			b = append(b, ':')
			b = appendNum(b, uint64(o.v))
			b = append(b, ' ')
		}
		return string(b), st
	case ixIterate:
		return st.list(x.n, 0, true, true, claimed), st
	case ixIterFree:
		return st.list(x.n, 0, false, true, isfree), st
	case ixGetAll:
		return st.list(x.n, 0, true, false, claimed), st
	case ixSize:
		return num(uint64(st.count(x.n))), st
	case ixHas:
		return boolStr(in && st[o.a] != 0), st
	case ixIsFree:
		return boolStr(in && st[o.a] == 0), st
	case ixFind:
		ids := lowest(1)
		if ids == nil {
			return "E", st
		}
		return num(ids[0]), st
	case ixFindRange, ixFindSize:
		ids := rng
		if o.kind == ixFindSize {
			ids = func() []uint64 { return lowest(o.a) }
		}
		r := ids()
		if r == nil {
			return "E", st
		}
		return renderIDs(r), st
	}
	panic("kind")
}

func (s cstate) count(n uint64) int {
	c := 0
	for i := uint64(0); i < n; i++ {
		if s[i] != 0 {
			c++
		}
	}
	return c
}

// ---- windowed tables ----

const (
	tbGet = iota
	tbClaim
	tbClaimFree
	tbRelease
	tbUpdate
	tbSize
	tbHas
	tbIsFree
	tbFind
	tbGetAll
	tbByLabel
)

var tbKinds = []string{"Get", "Claim", "ClaimFree", "Release", "Update", "Size", "Has", "IsFree", "FindFree", "GetAll", "GetByLabel"}

type tbTarget struct {
	w   *Width
	t   table.Table
	s   uint64
	n   uint64
	big bool
}

func newTb(w *Width, s, n uint64) *tbTarget    { return &tbTarget{w, w.NewTable(s, s+n-1), s, n, false} }
func newBigTb(w *Width, s, n uint64) *tbTarget { return &tbTarget{w, w.NewTable(s, s+n-1), s, n, true} }

func vlabels(v int32) labels.Set {
	p := "even"
	if v&1 == 1 {
		p = "odd"
	}
	return labels.Set{"v": strconv.Itoa(int(v)), "p": p}
}

func parityOf(a uint64) (labels.Selector, func(v int32) bool) {
	if a&1 == 1 {
		return labels.SelectorFromSet(labels.Set{"p": "odd"}), func(v int32) bool { return v != 0 && v&1 == 1 }
	}
	return labels.SelectorFromSet(labels.Set{"p": "even"}), func(v int32) bool { return v != 0 && v&1 == 0 }
}

func (x *tbTarget) fresh() target {
	return &tbTarget{x.w, x.w.NewTable(x.s, x.s+x.n-1), x.s, x.n, x.big}
}
func (x *tbTarget) slots() int { return int(x.n) }
func (x *tbTarget) fill(rng *rand.Rand) []cop {
	var os []cop
	for i, n := 0, rng.IntN(int(x.n)); i < n; i++ {
		os = append(os, cop{kind: []int{tbClaim, tbClaimFree, tbClaimFree, tbClaimFree}[rng.IntN(4)], a: x.s + rng.Uint64N(x.n), v: int32(1 + i)})
	}
	for i, n := 0, rng.IntN(4); i < n; i++ {
		os = append(os, cop{kind: tbRelease, a: x.s + rng.Uint64N(x.n)})
	}
	return os
}
func (x *tbTarget) name() string          { return "table" + strconv.Itoa(int(x.w.B)) }
func (x *tbTarget) kinds() []string       { return tbKinds }
func (x *tbTarget) lin() int              { return len(tbKinds) }
func (x *tbTarget) describe(o cop) string { return describeOp(x, o) }
func (x *tbTarget) gen(rng *rand.Rand, kind int, v int32) cop {
	if x.big {
		return cop{kind: kind, a: x.s + hot(rng, x.n), b: rng.Uint64N(2), v: v}
	}
	return cop{kind: kind, a: x.s + rng.Uint64N(x.n), b: rng.Uint64N(2), v: v}
}
func (x *tbTarget) bad(rng *rand.Rand, kind int, v int32) cop {
	o := x.gen(rng, kind, v)
	o.a = []uint64{x.s - 1, x.s + x.n, x.w.Max + 1, ^uint64(0)}[rng.IntN(4)]
	if x.w.B == 64 && o.a == 0 {
		o.a = x.s + x.n
	}
	return o
}

func renderTreeEntry(b []byte, e tree.Entry) []byte {
	if e == nil {
		return append(b, "nil "...)
	}
	b = appendNum(b, e.ID().ID())
	b = append(b, ':')
	b = append(b, e.Labels()["v"]...)
	return append(b, ' ')
}

func (x *tbTarget) do(g *gctx, o cop) string {
	switch o.kind {
	case tbGet:
		e, err := x.t.Get(o.a)
		if err != nil {
			return "E"
		}
		return string(renderTreeEntry(nil, e))
	case tbClaim:
		return errStr(x.t.Claim(o.a, vlabels(o.v)))
	case tbClaimFree:
		e, err := x.t.ClaimFree(vlabels(o.v))
		if err != nil {
			return "E"
		}
		return string(renderTreeEntry(nil, e))
	case tbRelease:
		return errStr(x.t.Release(o.a))
	case tbUpdate:
		return errStr(x.t.Update(o.a, vlabels(o.v)))
	case tbSize:
		return num(uint64(x.t.Size()))
	case tbHas:
		return boolStr(x.t.Has(o.a))
	case tbIsFree:
		return boolStr(x.t.IsFree(o.a))
	case tbFind:
		id, err := x.t.FindFree()
		if err != nil {
			return "E"
		}
		return num(id)
	case tbGetAll:
		var b []byte
		for _, e := range x.t.GetAll() {
			b = renderTreeEntry(b, e)
		}
		return string(b)
	case tbByLabel:
		sel, _ := parityOf(o.b)
		var b []byte
		for _, e := range x.t.GetByLabel(sel) {
			b = renderTreeEntry(b, e)
		}
		return string(b)
	}
	panic("kind")
}

func (x *tbTarget) step(st cstate, o cop, out string) (bool, cstate) {
	want, ns := x.spec(st, o)
	return want == out, ns
}

func (x *tbTarget) spec(st cstate, o cop) (string, cstate) {
	i := o.a - x.s
	in := o.a >= x.s && i < x.n
	low := func() (uint64, bool) {
		for i := uint64(0); i < x.n; i++ {
			if st[i] == 0 {
				return i, true
			}
		}
		return 0, false
	}
	ent := func(i uint64) string { return num(x.s+i) + ":" + num(uint64(st[i])) + " " }
	switch o.kind {
	case tbGet:
		if !in || st[i] == 0 {
			return "E", st
		}
		return ent(i), st
	case tbClaim:
		if !in || st[i] != 0 {
			return "E", st
		}
		st[i] = o.v
		return "ok", st
	case tbUpdate:
		if !in || st[i] == 0 {
			return "E", st
		}
		st[i] = o.v
		return "ok", st
	case tbRelease:
		if !in {
			return "E", st
		}
		st[i] = 0
		return "ok", st
	case tbClaimFree:
		f, ok := low()
		if !ok {
			return "E", st
		}
		st[f] = o.v
		return ent(f), st
	case tbFind:
		f, ok := low()
		if !ok {
			return "E", st
		}
		return num(x.s + f), st
	case tbSize:
		return num(uint64(st.count(x.n))), st
	case tbHas:
		return boolStr(in && st[i] != 0), st
	case tbIsFree:
		return boolStr(in && st[i] == 0), st
	case tbGetAll:
		return st.list(x.n, x.s, true, false, claimed), st
	case tbByLabel:
		_, want := parityOf(o.b)
		return st.list(x.n, x.s, true, false, want), st
	}
	panic("kind")
}

// ---- IP table ----

var ipKinds = []string{"Get", "Claim", "Release", "Update", "Size", "Has", "IsFree", "FindFree", "GetAll", "GetByLabel"}
var ipToTb = []int{tbGet, tbClaim, tbRelease, tbUpdate, tbSize, tbHas, tbIsFree, tbFind, tbGetAll, tbByLabel}

type ipTarget struct {
	t    iptable.IPTable
	from netip.Addr
	n    uint64
	adr  []string
	tb   tbTarget // the specification, over offsets
}

func newIP(from string, n uint64) *ipTarget {
	f := netip.MustParseAddr(from)
	x := &ipTarget{from: f, n: n}
	a := f.Prev()
	for i := uint64(0); i < n+2; i++ { // one before, the addresses, one after
		x.adr = append(x.adr, a.String())
		a = a.Next()
	}
	x.t = iptable.New(f, netip.MustParseAddr(x.adr[n]))
	x.adr = append(x.adr, "", "10.0.0", "10.0.0.254%eth0", "fe80::1%a", "x")
	x.tb = tbTarget{s: 1, n: n}
	return x
}

func (x *ipTarget) fresh() target {
	y := newIP(x.from.String(), x.n)
	y.tb.big = x.tb.big
	return y
}
func newBigIP(from string, n uint64) *ipTarget {
	x := newIP(from, n)
	x.tb.big = true
	return x
}
func (x *ipTarget) slots() int { return int(x.n) }
func (x *ipTarget) fill(rng *rand.Rand) []cop {
	var os []cop
	for _, o := range x.tb.fill(rng) {
		if o.kind == tbClaimFree {
			o.kind = tbClaim
		}
		for k, t := range ipToTb {
			if t == o.kind {
				o.kind = k
				break
			}
		}
		os = append(os, o)
	}
	return os
}
func (x *ipTarget) name() string          { return "iptable" }
func (x *ipTarget) kinds() []string       { return ipKinds }
func (x *ipTarget) lin() int              { return len(ipKinds) }
func (x *ipTarget) describe(o cop) string { return describeOp(x, o) + "@" + x.adr[o.a] }
func (x *ipTarget) gen(rng *rand.Rand, kind int, v int32) cop {
	if x.tb.big {
		return cop{kind: kind, a: 1 + hot(rng, x.n), b: rng.Uint64N(2), v: v}
	}
	return cop{kind: kind, a: 1 + rng.Uint64N(x.n), b: rng.Uint64N(2), v: v}
}
func (x *ipTarget) bad(rng *rand.Rand, kind int, v int32) cop {
	return cop{kind: kind, a: []uint64{0, x.n + 1, x.n + 2, x.n + 3, x.n + 4, x.n + 5, x.n + 6}[rng.IntN(7)], b: rng.Uint64N(2), v: v}
}

func (x *ipTarget) route(v int32) rtable.Route {
	return rtable.NewRoute(netip.PrefixFrom(x.from, int(uint32(v)*7%33)), vlabels(v), nil)
}

func renderRoutes(rs rtable.Routes) string {
	var b []byte
	for _, r := range rs {
		b = append(b, r.Labels()["v"]...)
		b = append(b, ' ')
	}
	return string(b)
}

func (x *ipTarget) do(g *gctx, o cop) string {
	a := x.adr[o.a]
	switch ipToTb[o.kind] {
	case tbGet:
		r, err := x.t.Get(a)
		if err != nil {
			return "E"
		}
		return r.Labels()["v"]
	case tbClaim:
		return errStr(x.t.Claim(a, x.route(o.v)))
	case tbRelease:
		return errStr(x.t.Release(a))
	case tbUpdate:
		return errStr(x.t.Update(a, x.route(o.v)))
	case tbSize:
		return num(uint64(x.t.Size()))
	case tbHas:
		return boolStr(x.t.Has(a))
	case tbIsFree:
		return boolStr(x.t.IsFree(a))
	case tbFind:
		f, err := x.t.FindFree()
		if err != nil {
			return "E"
		}
		return f.String()
	case tbGetAll:
		return renderRoutes(x.t.GetAll())
	case tbByLabel:
		sel, _ := parityOf(o.b)
		return renderRoutes(x.t.GetByLabel(sel))
	}
	panic("kind")
}

func (x *ipTarget) step(st cstate, o cop, out string) (bool, cstate) {
	k := ipToTb[o.kind]
	want, ns := x.tb.spec(st, cop{kind: k, a: o.a, b: o.b, v: o.v})
	vals := func(f func(int32) bool) string {
		var b []byte
		for i := uint64(0); i < x.n; i++ {
			if f(st[i]) {
				b = appendNum(b, uint64(st[i]))
				b = append(b, ' ')
			}
		}
		return string(b)
	}
	switch k {
	case tbGet:
		if want != "E" {
			want = num(uint64(st[o.a-1]))
		}
	case tbFind:
		if want != "E" {
			i, _ := strconv.Atoi(want)
			want = x.adr[i]
		}
	case tbGetAll:
		want = vals(claimed)
	case tbByLabel:
		_, f := parityOf(o.b)
		want = vals(f)
	}
	return want == out, ns
}

// ---- prefix trees ----

const (
	trGet = iota
	trClaim
	trUpdate
	trClaimFree
	trRange
	trRelease
	trReleaseLabel
	trChildren
	trParents
	trByLabel
	trGetAll
	trSize
	trClone
	trUseClone // from here on not judged by step
	trPrintNodes
	trPrintValues
	trIterate // only taken: moving it while the tree changes is documented as unsupported
)

var trKinds = []string{"Get", "ClaimID", "Update", "ClaimFree", "ClaimRange", "ReleaseID", "ReleaseByLabel", "Children", "Parents", "GetByLabel",
	"GetAll", "Size", "Clone", "UseClone", "PrintNodes", "PrintValues", "Iterate"}

type trTarget struct {
	w    *Width
	t    gtree.GTree
	bits uint8
	pks  []pk // every prefix of the tree, in tree order
	idx  map[pk]int
	big  bool
}

func newBigTr(w *Width, bits uint8) *trTarget {
	x := newTr(w, bits)
	x.big = true
	return x
}

func newTr(w *Width, bits uint8) *trTarget {
	x := &trTarget{w: w, bits: bits, idx: map[pk]int{}}
	t, err := w.NewTree("t", bits)
	if err != nil {
		panic(err)
	}
	x.t = t
	for l := w.B - bits; ; l++ {
		for i := uint64(0); i < 1<<(l-(w.B-bits)); i++ {
			x.pks = append(x.pks, pk{i << (w.B - l), l})
		}
		if l == w.B {
			break
		}
	}
	sortPks(x.pks)
	for i, p := range x.pks {
		x.idx[p] = i
	}
	return x
}

func (x *trTarget) fresh() target {
	t, err := x.w.NewTree("t", x.bits)
	if err != nil {
		panic(err)
	}
	return &trTarget{x.w, t, x.bits, x.pks, x.idx, x.big}
}
func (x *trTarget) slots() int { return len(x.pks) }
func (x *trTarget) fill(rng *rand.Rand) []cop {
	var os []cop
	for i, n := 0, rng.IntN(4); i < n; i++ {
		o := x.gen(rng, trRange, int32(1+i))
		os = append(os, o)
	}
	for i, n := 0, rng.IntN(1+rng.IntN(len(x.pks))); i < n; i++ {
		o := cop{kind: []int{trClaim, trClaim, trClaim, trRelease}[rng.IntN(4)], a: rng.Uint64N(uint64(len(x.pks))), v: int32(10 + i)}
		if rng.IntN(10) > 0 && x.pks[o.a].l < x.w.B-2 { // few wide ones, or nothing is ever free
			continue
		}
		os = append(os, o)
	}
	return os
}
func (x *trTarget) name() string    { return "tree" + strconv.Itoa(int(x.w.B)) }
func (x *trTarget) kinds() []string { return trKinds }
func (x *trTarget) lin() int        { return trUseClone }
func (x *trTarget) describe(o cop) string {
	s := describeOp(x, o)
	if o.kind != trRange && o.a < uint64(len(x.pks)) {
		s += "@" + x.pks[o.a].String()
	}
	return s
}
func (x *trTarget) gen(rng *rand.Rand, kind int, v int32) cop {
	o := cop{kind: kind, a: rng.Uint64N(uint64(len(x.pks))), b: rng.Uint64N(2), v: v}
	if kind == trRange {
		o.a = rng.Uint64N(1 << x.bits)
		o.b = o.a + rng.Uint64N(1<<x.bits-o.a)
	}
	if x.big && kind != trRange {
		switch o.a = hot(rng, uint64(len(x.pks))); kind {
		case trClaim, trUpdate:
			o.a = x.narrow(o.a)
		}
	}
	return o
}

// narrow is a prefix of at most four ids near the a-th one: wide ones would leave nothing free.
func (x *trTarget) narrow(a uint64) uint64 {
	for x.pks[a].l < x.w.B-2 {
		a++
	}
	return a
}

var badRanges = []string{"", "3", "a-b", "1-", "-1", "1-2-3", "5-99999999999999999999999"}

// bad: a >= badRange selects a malformed range, a >= badID selects an id beyond the tree.
const badID, badRange = 1 << 40, 1 << 41

func (x *trTarget) bad(rng *rand.Rand, kind int, v int32) cop {
	o := x.gen(rng, kind, v)
	switch kind {
	case trRange:
		o.a, o.b = []uint64{3, 1 << x.bits, 0}[rng.IntN(3)], []uint64{1, 1<<x.bits + 3, 1 << x.bits}[rng.IntN(3)]
		if o.a <= o.b && o.b < 1<<x.bits {
			o.b = 1 << x.bits
		}
		if rng.IntN(2) == 0 {
			o.a = badRange + rng.Uint64N(uint64(len(badRanges)))
		}
	case trGet, trClaim, trUpdate, trRelease:
		o.a = badID + rng.Uint64N(3)
	default:
		o.a = badID + rng.Uint64N(2)
	}
	return o
}

func (x *trTarget) id(a uint64) tree.ID {
	switch {
	case a == badID:
		return x.w.NewID(1<<x.bits, x.w.B)
	case a == badID+1:
		return x.w.NewID(x.w.Max, x.w.B)
	case a == badID+2:
		return x.w.NewID(1, x.w.B+1)
	}
	return x.w.NewID(x.pks[a].v, x.pks[a].l)
}

func renderPfx(es tree.Entries) string {
	var b []byte
	for _, e := range es {
		if e == nil {
			b = append(b, "nil "...)
			continue
		}
		b = appendNum(b, e.ID().ID())
		b = append(b, '/')
		b = appendNum(b, uint64(e.ID().Length()))
		b = append(b, ':')
		b = append(b, e.Labels()["v"]...)
		b = append(b, ' ')
	}
	return string(b)
}

func (x *trTarget) do(g *gctx, o cop) string {
	switch o.kind {
	case trGet:
		e, err := x.t.Get(x.id(o.a))
		if err != nil {
			return "E"
		}
		return renderPfx(tree.Entries{e})
	case trClaim:
		return errStr(x.t.ClaimID(x.id(o.a), vlabels(o.v)))
	case trUpdate:
		return errStr(x.t.Update(x.id(o.a), vlabels(o.v)))
	case trClaimFree:
		e, err := x.t.ClaimFree(vlabels(o.v))
		if err != nil {
			return "E"
		}
		return renderPfx(tree.Entries{e})
	case trRange:
		if o.a >= badRange {
			return errStr(x.t.ClaimRange(badRanges[o.a-badRange], vlabels(o.v)))
		}
		return errStr(x.t.ClaimRange(num(o.a)+"-"+num(o.b), vlabels(o.v)))
	case trRelease:
		return errStr(x.t.ReleaseID(x.id(o.a)))
	case trReleaseLabel:
		sel, _ := parityOf(o.b)
		return errStr(x.t.ReleaseByLabel(sel))
	case trChildren:
		return renderPfx(x.t.Children(x.id(o.a)))
	case trParents:
		return renderPfx(x.t.Parents(x.id(o.a)))
	case trByLabel:
		sel, _ := parityOf(o.b)
		return renderPfx(x.t.GetByLabel(sel))
	case trGetAll:
		return renderPfx(x.t.GetAll())
	case trSize:
		return num(uint64(x.t.Size()))
	case trClone:
		return renderPfx(x.t.Clone().GetAll())
	case trUseClone:
		if g.clone == nil || o.b == 1 {
			g.clone = x.t.Clone()
		}
		g.clone.ClaimID(x.id(o.a), vlabels(o.v))
		g.clone.ReleaseID(x.id((o.a + 3) % uint64(len(x.pks))))
		s := renderPfx(g.clone.GetAll())
		it := g.clone.Iterate()
		for it.Next() {
			_ = it.Entry().Labels()["v"]
		}
		if o.v&3 == 0 {
			g.clone.ClaimFree(vlabels(o.v))
			sel, _ := parityOf(o.b)
			g.clone.ReleaseByLabel(sel)
		}
		return s
	case trPrintNodes: // prints to standard output, which leads nowhere in these checks
		x.t.PrintNodes()
		return ""
	case trPrintValues:
		x.t.PrintValues()
		return ""
	case trIterate:
		return boolStr(x.t.Iterate() != nil)
	}
	panic("kind")
}

func (x *trTarget) list(st cstate, want func(i int, v int32) bool) string {
	var b []byte
	for i, p := range x.pks {
		if st[i] != 0 && want(i, st[i]) {
			b = appendNum(b, p.v)
			b = append(b, '/')
			b = appendNum(b, uint64(p.l))
			b = append(b, ':')
			b = appendNum(b, uint64(st[i]))
			b = append(b, ' ')
		}
	}
	return string(b)
}

func (x *trTarget) step(st cstate, o cop, out string) (bool, cstate) {
	all := func(int, int32) bool { return true }
	in := o.a < uint64(len(x.pks))
	var q pk
	if in {
		q = x.pks[o.a]
	}
	switch o.kind {
	case trGet:
		if !in || st[o.a] == 0 {
			return out == "E", st
		}
		return out == x.list(st, func(i int, _ int32) bool { return i == int(o.a) }), st
	case trClaim, trUpdate:
		if !in {
			return out == "E", st
		}
		st[o.a] = o.v
		return out == "ok", st
	case trRelease:
		if !in {
			return out == "E", st
		}
		st[o.a] = 0
		return out == "ok", st
	case trRange:
		if o.a > o.b || o.b >= 1<<x.bits {
			return out == "E", st
		}
		for _, p := range x.w.decompose(o.a, o.b) {
			st[x.idx[p]] = o.v
		}
		return out == "ok", st
	case trReleaseLabel:
		_, f := parityOf(o.b)
		for i := range st {
			if f(st[i]) {
				st[i] = 0
			}
		}
		return out == "ok", st
	case trClaimFree:
		covered := make([]bool, 1<<x.bits)
		for i, p := range x.pks {
			if st[i] != 0 {
				iv := x.w.iv(p)
				for v := iv.lo; v <= iv.hi; v++ {
					covered[v] = true
				}
			}
		}
		used := func(v uint64) bool { return covered[v] }
		if out == "E" {
			for v := uint64(0); v < 1<<x.bits; v++ {
				if !used(v) {
					return false, st
				}
			}
			return true, st
		}
		for v := uint64(0); v < 1<<x.bits; v++ {
			p := pk{v, x.w.B}
			if !used(v) {
				if out == p.String()+":"+num(uint64(o.v))+" " {
					st[x.idx[p]] = o.v
					return true, st
				}
			}
		}
		return false, st
	case trChildren:
		if !in {
			return out == "", st
		}
		return out == x.list(st, func(i int, _ int32) bool { return x.pks[i] != q && x.w.contains(q, x.pks[i]) }), st
	case trParents:
		if !in {
			return true, st // what contains an id beyond the tree is not asked here
		}
		return out == x.list(st, func(i int, _ int32) bool { return x.pks[i] != q && x.w.contains(x.pks[i], q) }), st
	case trByLabel:
		_, f := parityOf(o.b)
		return out == x.list(st, func(_ int, v int32) bool { return f(v) }), st
	case trGetAll, trClone:
		return out == x.list(st, all), st
	case trSize:
		n := 0
		for _, v := range st {
			if v != 0 {
				n++
			}
		}
		return out == num(uint64(n)), st
	}
	panic("kind")
}

// linTargets are small objects for linearizability checking; sizes keep every slot contended.
func linTargets(kind string) []target {
	switch kind {
	case "idxtable":
		return []target{newIx(3), newIx(5), newIx(7), newIx(4)}
	case "tables":
		var ts []target
		for _, w := range widths {
			ts = append(ts, newTb(w, 100, 4), newTb(w, w.Max-5, 6))
		}
		return append(ts, newIP("10.0.0.254", 5), newIP("2001:db8::fffe", 4))
	case "trees":
		var ts []target
		for _, w := range widths {
			ts = append(ts, newTr(w, 3), newTr(w, 2))
		}
		return ts
	}
	panic(kind)
}

// bigTargets hold hundreds of entries and get operations that touch many of them: an operation done in pieces, or split
// once its result is long, is in one piece on the small ones.
func bigTargets(kind string) []target {
	switch kind {
	case "idxtable":
		return []target{newBigIx(300), newBigIx(1200)}
	case "tables":
		var ts []target
		for _, w := range widths {
			ts = append(ts, newBigTb(w, 100, 200), newBigTb(w, w.Max-599, 600))
		}
		return append(ts, newBigIP("10.0.0.254", 300), newBigIP("2001:db8::fffe", 150))
	case "trees":
		var ts []target
		for _, w := range widths {
			ts = append(ts, newBigTr(w, 6), newBigTr(w, 8))
		}
		return ts
	}
	panic(kind)
}
