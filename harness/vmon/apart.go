package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
)

// C27: separate instances. A stream is what one caller does to one instance of its own, beginning with its creation. Many
// streams are interleaved in one process, and each must read as it does when it is alone in a process of its own.

func init() { checks["C27"] = checkC27 }

const apartChild = "apart:"

// stream is one instance's life: start creates it and gives the steps, fits judges all answers by the specification.
type stream struct {
	what  string
	ops   []string
	start func() func(k int) string
	fits  func(outs []string) string // "" or the first answer that does not fit
}

// makeStream: the low four bits of the seed select the kind, the upper twelve the configuration, the four below a variant of it.
func makeStream(seed uint64) *stream {
	conf, rng := rand.New(rand.NewPCG(seed>>52, 27)), rand.New(rand.NewPCG(seed, 27))
	switch k := seed & 15; {
	case k < 12:
		return targetStream(conf, rng, []string{"idxtable", "windows", "iptable", "trees"}[k%4], int(seed>>48&15))
	case k == 12:
		return genericStream(conf, rng)
	case k < 15:
		return builderStream(conf, rng)
	}
	return rangeStream(conf, rng)
}

// variant returns a target whose configuration is related to that of x: a part of the same extent, or the same extent of another width.
func variant(x target, v int) target {
	if v >= 8 {
		return x
	}
	cut := func(n uint64) (off, rest uint64) {
		switch v {
		case 0, 1, 2:
			return n / uint64(v+2), n - n/uint64(v+2)
		case 3, 4, 5:
			return 0, n - n/uint64(v-1)
		}
		return n / 3, n - 2*(n/3)
	}
	switch x := x.(type) {
	case *ixTarget:
		_, n := cut(x.n)
		return newIx(n)
	case *tbTarget:
		if v == 7 {
			w := widths[x.s%3]
			return newTb(w, min(x.s&w.Max, w.Max-x.n+1), x.n)
		}
		off, n := cut(x.n)
		return newTb(x.w, x.s+off, n)
	case *ipTarget:
		if v == 7 {
			return newIP("::ffff:"+map[bool]string{true: x.from.String(), false: "1.2.3.4"}[x.from.Is4()], x.n)
		}
		off, n := cut(x.n)
		return newIP(x.adr[1+off], n)
	case *trTarget:
		if v < 4 {
			return newTr(widths[v%3], x.bits)
		}
		return newTr(x.w, uint8(v-4))
	}
	return x
}

func targetStream(conf, rng *rand.Rand, kind string, v int) *stream {
	x := mixTarget(kind, conf, conf.IntN(3))
	for x.slots() > 150 {
		x = mixTarget(kind, conf, conf.IntN(3))
	}
	large := conf.IntN(16) == 0
	if large {
		bs := bigTargets(map[string]string{"idxtable": "idxtable", "windows": "tables", "iptable": "tables", "trees": "trees"}[kind])
		x = bs[conf.IntN(len(bs))]
	}
	if !large {
		x = variant(x, v)
	}
	var ops []cop
	list, size := kindIdx(x, "GetAll"), kindIdx(x, "Size")
	ops = append(ops, cop{kind: list}, cop{kind: size}) // a new instance has no content
	if large {
		ops = append(ops, x.fill(rng)...)
	}
	for n, v := 5+rng.IntN(60), int32(1); n > 0; n-- {
		k := rng.IntN(x.lin())
		if rng.IntN(3) == 0 {
			k = max(kindIdx(x, "ClaimFree"), kindIdx(x, "ClaimDynamic"), kindIdx(x, "Claim"), kindIdx(x, "ClaimID"))
		}
		o := x.gen(rng, k, v)
		if rng.IntN(20) == 0 {
			o = x.bad(rng, k, v)
		}
		ops = append(ops, o)
		if v++; rng.IntN(10) == 0 {
			ops = append(ops, cop{kind: list})
		}
	}
	ops = append(ops, cop{kind: list}, cop{kind: size})
	s := &stream{what: fmt.Sprintf("%s with %d slots", x.name(), x.slots())}
	for _, o := range ops {
		s.ops = append(s.ops, x.describe(o))
	}
	s.start = func() func(int) string {
		t, g := x.fresh(), &gctx{}
		return func(k int) string { return t.do(g, ops[k]) }
	}
	s.fits = func(outs []string) string {
		st := make(cstate, x.slots())
		for k, o := range ops {
			var ok bool
			if ok, st = x.step(st, o, outs[k]); !ok {
				return fmt.Sprintf("%s = %s", s.ops[k], shortOut(outs[k]))
			}
		}
		return ""
	}
	return s
}

func genericStream(conf, rng *rand.Rand) *stream {
	w := widths[conf.IntN(3)]
	type gop struct {
		kind int // 0 add, 1 delete, 2 list
		p    pk
		v    int
	}
	var pool []pk
	base := conf.Uint64() & w.Max
	for k := 0; k < 12; k++ {
		l := uint8(rng.IntN(int(w.B) + 1))
		if k%2 == 0 {
			l = w.B - uint8(rng.IntN(4))
		}
		pool = append(pool, pk{(base ^ rng.Uint64N(16)) & w.mask(l), l})
	}
	s := &stream{what: fmt.Sprintf("generic tree of width %d", w.B)}
	ops := []gop{{kind: 2}}
	for n := 5 + rng.IntN(60); n > 0; n-- {
		o := gop{rng.IntN(2), pool[rng.IntN(len(pool))], rng.IntN(3)}
		if rng.IntN(6) == 0 {
			o.kind = 2
		}
		ops = append(ops, o)
	}
	ops = append(ops, gop{kind: 2})
	for _, o := range ops {
		s.ops = append(s.ops, fmt.Sprintf("%s(%v,%d)", []string{"Add", "Delete", "Iterate"}[o.kind], o.p, o.v))
	}
	s.start = func() func(int) string {
		t := tree.NewTree[string]("g", w.LeftBit, w.B)
		eq := func(a, b string) bool { return a == b }
		return func(k int) string {
			o := ops[k]
			v := fmt.Sprintf("%v:%d", o.p, o.v)
			switch o.kind {
			case 0:
				added, n := t.Add(w.NewID(o.p.v, o.p.l), v, nil)
				return fmt.Sprint(added, n)
			case 1:
				return fmt.Sprint(t.Delete(w.NewID(o.p.v, o.p.l), eq, v))
			}
			var b []string
			for it := t.Iterate(); it.Next(); {
				vs := slices.Clone(it.Vals())
				slices.Sort(vs)
				b = append(b, strings.Join(vs, ","))
			}
			return strings.Join(b, " ")
		}
	}
	s.fits = func(outs []string) string {
		m := map[pk][]string{}
		for k, o := range ops {
			v, want := fmt.Sprintf("%v:%d", o.p, o.v), ""
			switch o.kind {
			case 0:
				m[o.p] = append(m[o.p], v)
				want = fmt.Sprint(true, len(m[o.p]))
			case 1:
				n := len(m[o.p])
				m[o.p] = slices.DeleteFunc(m[o.p], func(x string) bool { return x == v })
				if want = fmt.Sprint(n - len(m[o.p])); len(m[o.p]) == 0 {
					delete(m, o.p)
				}
			default:
				var ps []pk
				for p := range m {
					ps = append(ps, p)
				}
				sortPks(ps)
				var b []string
				for _, p := range ps {
					vs := slices.Clone(m[p])
					slices.Sort(vs)
					b = append(b, strings.Join(vs, ","))
				}
				want = strings.Join(b, " ")
			}
			if outs[k] != want {
				return fmt.Sprintf("%s = %s, want %s", s.ops[k], outs[k], want)
			}
		}
		return ""
	}
	return s
}

func builderStream(conf, rng *rand.Rand) *stream {
	w := widths[conf.IntN(3)]
	type bop struct {
		kind int // 0 add range, 1 remove range, 2 add id, 3 remove id, 4 build, 5 take a free block out of the last set, 6 add the last set
		x    iv
		p    pk
	}
	s := &stream{what: fmt.Sprintf("set builder of width %d", w.B)}
	base := conf.Uint64() & w.Max &^ 127
	ops := []bop{{kind: 4}}
	for n := 5 + rng.IntN(30); n > 0; n-- {
		a, b := base+rng.Uint64N(128), base+rng.Uint64N(128)
		l := w.B - uint8(rng.IntN(7))
		k := rng.IntN(6)
		if rng.IntN(12) == 0 {
			k = 6
		}
		ops = append(ops, bop{k, iv{min(a, b), max(a, b)}, pk{a & w.mask(l), l}})
	}
	ops = append(ops, bop{kind: 4})
	for _, o := range ops {
		s.ops = append(s.ops, fmt.Sprintf("%s(%d-%d, %v)", []string{"AddRange", "RemoveRange", "AddId", "RemoveId", "IPSet", "RemoveFreePrefix", "AddSet"}[o.kind], o.x.lo, o.x.hi, o.p))
	}
	ranges := func(is *idSet) string {
		var b []string
		for _, r := range is.Ranges() {
			b = append(b, fmt.Sprintf("%d-%d", r.From().ID(), r.To().ID()))
		}
		return "{" + strings.Join(b, " ") + "}"
	}
	s.start = func() func(int) string {
		b := w.Builder()
		var last *idSet
		return func(k int) string {
			o := ops[k]
			switch o.kind {
			case 0:
				b.AddRange(w.RangeFrom(o.x.lo, o.x.hi))
			case 1:
				b.RemoveRange(w.RangeFrom(o.x.lo, o.x.hi))
			case 2:
				b.AddId(w.NewID(o.p.v, o.p.l))
			case 3:
				b.RemoveId(w.NewID(o.p.v, o.p.l))
			case 4:
				is, err := b.build()
				if err != nil {
					return "error"
				}
				last = is
				return ranges(is)
			case 5:
				if last == nil {
					return ""
				}
				id, rest, ok := last.RFP(o.p.l)
				if !ok {
					return "none of " + ranges(last)
				}
				return fmt.Sprintf("%d/%d of %s leaves %s", id.ID(), id.Length(), ranges(last), ranges(rest))
			case 6:
				if last != nil {
					b.addSet(last)
				}
			}
			return ""
		}
	}
	s.fits = func(outs []string) string {
		var cur, last ivset
		for k, o := range ops {
			switch o.kind {
			case 0:
				cur = cur.add(o.x)
			case 1:
				cur = cur.remove(o.x)
			case 2:
				cur = cur.add(w.iv(o.p))
			case 3:
				cur = cur.remove(w.iv(o.p))
			case 4:
				last = append(ivset(nil), cur...)
				if outs[k] != cur.String() {
					return fmt.Sprintf("%s = %s, want %s", s.ops[k], outs[k], cur)
				}
			case 5:
				if outs[k] != "" && !strings.Contains(outs[k], "of "+last.String()) {
					return fmt.Sprintf("%s = %s on %s", s.ops[k], outs[k], last)
				}
			case 6:
				for _, x := range last {
					cur = cur.add(x)
				}
			}
		}
		return ""
	}
	return s
}

func rangeStream(conf, rng *rand.Rand) *stream {
	w := widths[conf.IntN(3)]
	s := &stream{what: fmt.Sprintf("ranges of width %d", w.B)}
	var xs []iv
	base := conf.Uint64() & w.Max &^ 255
	for n := 4 + rng.IntN(20); n > 0; n-- {
		a, b := base+rng.Uint64N(256), base+rng.Uint64N(256)
		xs = append(xs, iv{min(a, b), max(a, b)})
		s.ops = append(s.ops, fmt.Sprintf("ParseRange(%d-%d) and IDs", min(a, b), max(a, b)))
	}
	s.start = func() func(int) string {
		var first tree.Range
		return func(k int) string {
			r, err := w.Parse(fmt.Sprintf("%d-%d", xs[k].lo, xs[k].hi))
			if err != nil {
				return "error"
			}
			if first == nil {
				first = r
			}
			return idsStr(r.IDs()) + " after " + idsStr(first.IDs())
		}
	}
	s.fits = func(outs []string) string {
		dec := func(x iv) string {
			var ids []tree.ID
			for _, p := range w.decompose(x.lo, x.hi) {
				ids = append(ids, w.NewID(p.v, p.l))
			}
			return idsStr(ids)
		}
		for k, x := range xs {
			if want := dec(x) + " after " + dec(xs[0]); outs[k] != want {
				return fmt.Sprintf("%s = %s, want %s", s.ops[k], outs[k], want)
			}
		}
		return ""
	}
	return s
}

// alone performs a stream by itself.
func (s *stream) alone() (outs []string) {
	do := s.start()
	for k := range s.ops {
		outs = append(outs, do(k))
	}
	return
}

func apartMain(name string) {
	seed, err := strconv.ParseUint(strings.TrimPrefix(name, apartChild), 10, 64)
	if err != nil {
		os.Exit(9)
	}
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	b, _ := json.Marshal(makeStream(seed).alone())
	out.Write(append(b, '\n'))
}

// fresh runs a stream in a process of its own.
func fresh(seed uint64) []string {
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	var out bytes.Buffer
	cmd := exec.Command(self, "-child", apartChild+strconv.FormatUint(seed, 10))
	cmd.Stdout = &out
	if cmd.Run() != nil {
		return nil
	}
	var outs []string
	if json.Unmarshal(out.Bytes(), &outs) != nil {
		return nil
	}
	return outs
}

func checkC27(r *Run) {
	r.rule = "apart: 2-12 streams of operations, each on an instance of its own (index tables, windowed tables, IP tables, prefix trees, generic trees, set builders, ranges; often all of one kind and configuration, all trees of one name), interleaved at random in one process while other cases do the same; the answers of each must fit the sequential specification and equal those of the stream performed alone. A stream that reads otherwise is performed alone in processes of its own, several times, and it counts if they agree and differ from it. sizes: trees of every bit size of 0 to 255. Distinct = different streams or orders; non-trivial = at least two streams were in progress at the same moment and both modified their instance."
	r.Each("apart", r.N(6000, 200000), func(c *Case, i int) {
		var ss []*stream
		var seeds []uint64
		n := 2 + c.Rng.IntN(3)
		if c.Rng.IntN(4) == 0 {
			n = 5 + c.Rng.IntN(8)
		}
		alike := c.Rng.IntN(3) > 0
		for like := c.Rng.Uint64(); len(ss) < n; {
			seed := c.Rng.Uint64()
			if alike {
				seed = seed&^15 | like&15
				if c.Rng.IntN(3) > 0 {
					seed = seed<<12>>12 | like>>52<<52
				}
			}
			ss, seeds = append(ss, makeStream(seed)), append(seeds, seed)
		}
		outs := make([][]string, n)
		at := make([]int, n)
		do := make([]func(int) string, n)
		var open []int
		for k := range ss {
			open = append(open, k)
		}
		overlap := 0
		for len(open) > 0 {
			j := c.Rng.IntN(len(open))
			k := open[j]
			for burst := 1 + c.Rng.IntN(4); burst > 0 && at[k] < len(ss[k].ops); burst-- {
				if do[k] == nil {
					do[k] = ss[k].start()
					if len(open) < n {
						overlap++
					}
				}
				outs[k] = append(outs[k], do[k](at[k]))
				c.Op("%d: %s: %s = %s", k, ss[k].what, ss[k].ops[at[k]], shortOut(outs[k][at[k]]))
				at[k]++
			}
			if at[k] == len(ss[k].ops) {
				open = append(open[:j], open[j+1:]...)
			}
		}
		r.Count("streams", int64(n))
		for k, s := range ss {
			by := s.alone()
			odd := s.fits(outs[k])
			if odd == "" && slices.Equal(by, outs[k]) {
				continue
			}
			ref := fresh(seeds[k])
			for again := 0; again < 6; again++ {
				if ref == nil || !slices.Equal(ref, fresh(seeds[k])) {
					r.Count("streams_not_deterministic", 1)
					ref = nil
					break
				}
			}
			if ref == nil || odd != "" && s.fits(ref) != "" { // wrong by itself as well: not this property
				r.Count("streams_odd_by_themselves", 1)
				continue
			}
			for name, got := range map[string][]string{"next to other instances": outs[k], "after other instances": by} {
				for q := range ref {
					if got[q] != ref[q] {
						c.Fail("%s: step %d, %s, answers %s %s, and %s when no other instance exists", s.what, q, s.ops[q], shortOut(got[q]), name, shortOut(ref[q]))
					}
				}
			}
		}
		c.Nontrivial()
	})
	r.Seq("sizes", 3*256, func(c *Case, i int) {
		w, l := widths[i/256], uint8(i)
		t, err := w.NewTree("t", l)
		c.Op("New(%d) of width %d: %v", l, w.B, err)
		c.Nontrivial()
		c.Check((err == nil) == (l <= w.B), "a tree of width %d and bit size %d: error %v", w.B, l, err)
		if err != nil {
			return
		}
		top := lowBits(l)
		c.Check(t.Size() == 0 && len(t.GetAll()) == 0, "a new tree of bit size %d has %d entries", l, t.Size())
		c.Check(t.ClaimID(w.NewID(top, w.B), nil) == nil && t.Size() == 1, "a tree of bit size %d refuses its last id %d", l, top)
		if top < w.Max {
			c.Check(t.ClaimID(w.NewID(top+1, w.B), nil) != nil && t.Size() == 1, "a tree of bit size %d takes the id %d", l, top+1)
		}
		if l == 0 {
			_, err := t.ClaimFree(nil)
			c.Check(err != nil, "a tree of one id that is claimed gives out another")
			return
		}
		e, err := t.ClaimFree(nil)
		c.Check(err == nil && e.ID().ID() < top, "ClaimFree on a tree of bit size %d with one entry: %v", l, err)
	})
}
