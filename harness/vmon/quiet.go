package main

import (
	"slices"
	"strings"
)

// The "quiet" sections: an operation of the property, then an exact number of modifications with nothing asked in between,
// then the same operation again, to be answered from the content as it is by then. What an implementation remembers about
// an answer (a version it was computed at, a count of changes since) has to survive any number of changes: 256 and 65536
// are where the narrow counters come round to where they were.

var quietCounts = []int{256, 65536, 255, 257, 128, 512, 65535, 65537, 1, 2, 32768, 1024, 1000, 10000, 131072, 64}

func quietSection(r *Run, s mixSpec) {
	r.rule += " quiet: operations of this property, exactly N modifications of the object (N of 1 to 131072, mostly 256 and 65536) with nothing asked in between, the same operations again; non-trivial when the content had changed."
	cases := 400 // whatever the scale
	if r.thorough() {
		cases = 6000
	}
	r.Each("quiet", cases, func(c *Case, i int) {
		rng := c.Rng
		n := quietCounts[0]
		if i%2 == 1 {
			n = quietCounts[1]
		}
		if i%4 == 3 {
			n = quietCounts[rng.IntN(len(quietCounts))]
		}
		x := mixTarget(s.kind, rng, i)
		for x.slots() < 2 || x.slots() > 100 {
			x = mixTarget(s.kind, rng, i)
		}
		st := make(cstate, x.slots())
		g := &gctx{}
		kinds := x.kinds()
		pick := func(names ...string) int {
			for _, n := range names {
				if k := kindIdx(x, n); k >= 0 {
					return k
				}
			}
			return -1
		}
		claim, rel, upd := pick("Claim", "ClaimID"), pick("Release", "ReleaseID"), pick("Update")
		c.Op("%s with %d slots, %d modifications", x.name(), x.slots(), n)
		v := int32(0)
		apply := func(o cop, judged bool) (ok bool) {
			if !judged {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
			}
			out := x.do(g, o)
			if judged {
				c.Op("%s = %s", x.describe(o), shortOut(out))
			} else {
				c.Beat()
			}
			ok, st = x.step(st, o, out)
			if !ok && judged {
				c.Fail("%s: %s = %s does not fit the content", x.name(), x.describe(o), shortOut(out))
			}
			return ok
		}
		arg := func(kind, slot int) cop {
			v++
			o := x.gen(rng, kind, v)
			switch t := x.(type) {
			case *tbTarget:
				o.a = t.s + uint64(slot)
			case *ipTarget:
				o.a = uint64(slot) + 1
			default:
				o.a = uint64(slot)
			}
			return o
		}
		style := rng.IntN(6)
		var full []int // slots that leave nothing free when all are claimed
		for sl := 0; sl < x.slots(); sl++ {
			if tr, ok := x.(*trTarget); !ok || tr.pks[sl].l == tr.w.B {
				full = append(full, sl)
			}
		}
		if len(full) < 2 {
			style = rng.IntN(4)
		}
		for _, sl := range full {
			if style > 3 && !apply(arg(claim, sl), false) {
				return
			}
		}
		// some content, leaving something free
		for k := rng.IntN(x.slots()); k > 0 && style < 4; k-- {
			sl := rng.IntN(x.slots())
			if st[sl] == 0 && !apply(arg(claim, sl), false) {
				return
			}
		}
		a, b := rng.IntN(x.slots()), rng.IntN(x.slots())
		for a == b {
			b = rng.IntN(x.slots())
		}
		if style > 3 {
			a = full[rng.IntN(len(full))]
			for b = a; a == b; b = full[rng.IntN(len(full))] {
			}
			if style == 5 && !apply(arg(rel, b), false) { // all but one is taken
				return
			}
		} else if style == 0 || style == 3 { // the slot that is updated has an entry
			if st[a] == 0 && !apply(arg(claim, a), false) {
				return
			}
		} else if st[a] != 0 && !apply(arg(rel, a), false) {
			return
		}
		var asked []cop
		for k := 1 + rng.IntN(4); k > 0; k-- {
			f := s.focus[rng.IntN(len(s.focus))]
			kind := pick(f)
			o := x.gen(rng, kind, v+1)
			if rng.IntN(2) == 0 && (kind == claim || kind == rel || kind == upd || strings.HasPrefix(f, "Get") || f == "Has" || f == "IsFree" || f == "Children" || f == "Parents") {
				o = arg(kind, a)
			}
			v++
			asked = append(asked, o)
		}
		for _, o := range asked {
			if !apply(o, true) {
				return
			}
		}
		asked = append(asked, cop{kind: kindIdx(x, s.list)})
		if !apply(asked[len(asked)-1], slices.Contains(s.focus, s.list)) {
			return
		}
		var copied *member
		if tr, ok := x.(*trTarget); ok && slices.Contains(s.focus, "Clone") {
			copied = &member{tr.withClone(), slices.Clone(st)}
			c.Op("a clone is kept")
			if chain := rng.IntN(4); chain > 0 { // and many more are made: of the tree, of the clone, or each of the last
				for k := n; k > 0; k-- {
					switch chain {
					case 1:
						tr.withClone()
					case 2:
						copied.t.(*trTarget).withClone()
					case 3:
						copied.t = copied.t.(*trTarget).withClone()
					}
					c.Beat()
				}
				c.Op("%d more clones (%d)", n, chain)
			}
		}
		before := slices.Clone(st)
		// exactly n modifications, all of which change something
		m, paired := n, false
		for m > 0 {
			o := arg(upd, a)
			switch {
			case style == 4 && m == 1: // the last change makes something free
				o = arg(rel, b)
			case style == 5 && m == 1: // the last change takes what is free
				o = arg(claim, b)
			case style > 3:
			case style == 0 || style == 3 && m%2 == 0: // one entry changed over and over
				if st[a] == 0 {
					o = arg(claim, a)
				}
			case style == 3: // two entries in turn
				if o = arg(upd, b); st[b] == 0 {
					o = arg(claim, b)
				}
			case m == 1 && st[b] != 0:
				o = arg(upd, b)
			case m == 1:
				o = arg(claim, b)
			case st[a] == 0:
				o = arg(claim, a)
			default:
				o = arg(rel, a)
			}
			if style == 2 && m == n && !paired { // n claims, and all but the last released again
				m, paired = 2*n-1, true
			}
			if !apply(o, false) {
				return
			}
			m--
		}
		if slices.Equal(before, st) {
			return
		}
		c.Op("%d modifications of slots %d and %d", n, a, b)
		rng.Shuffle(len(asked), func(i, j int) { asked[i], asked[j] = asked[j], asked[i] })
		for _, o := range asked {
			judged := slices.Contains(s.focus, kinds[o.kind])
			if o.kind != kindIdx(x, s.list) && o.v != 0 {
				v++
				o.v = v
			}
			if !apply(o, judged) {
				return
			}
		}
		if copied != nil {
			o := cop{kind: pick("GetAll")}
			out := copied.t.do(g, o)
			ok, _ := copied.t.step(copied.st, o, out)
			c.Check(ok, "a clone taken before those modifications now lists %s", shortOut(out))
		}
		c.Nontrivial()
	})
}
