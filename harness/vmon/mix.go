package main

import (
	"math/rand/v2"
	"slices"
)

// The "mix" sections: histories over the complete operation set of an object, not only the operations a property is about,
// in bursts (one operation many times over, with one argument or many; two operations in turn), so that what one operation
// leaves behind for another — a hint, a flag, a count, a cache — is exercised. Only the operations of the property and the
// content after them are judged; a case in which another operation misbehaves ends there, unjudged.

type mixSpec struct {
	kind  string // as in linTargets
	focus []string
	list  string // the operation that lists the content
	n     int    // cases in the quick tier
}

var mixes = map[string]mixSpec{
	"C01": {"idxtable", []string{"Get", "Claim", "Release", "Update", "Has", "IsFree", "Size"}, "GetAll", 1250},
	"C02": {"idxtable", []string{"ClaimRange", "FindFreeRange"}, "GetAll", 1250},
	"C03": {"idxtable", []string{"ClaimDynamic", "ClaimSize", "FindFree", "FindFreeSize"}, "GetAll", 1250},
	"C04": {"idxtable", []string{"Iterate", "IterateFree", "GetAll"}, "GetAll", 1250},
	"C09": {"windows", []string{"Claim", "ClaimFree", "Release", "Update", "Has", "IsFree", "FindFree", "Size"}, "GetAll", 2000},
	"C10": {"windows", []string{"Get", "GetAll", "GetByLabel", "ClaimFree", "Update"}, "GetAll", 2000},
	"C12": {"iptable", []string{"Get", "Claim", "Release", "Update", "Size", "Has", "IsFree", "FindFree", "GetAll", "GetByLabel"}, "GetAll", 1500},
	"C13": {"trees", []string{"Get", "ClaimID", "Update", "ReleaseID", "GetAll", "Size"}, "GetAll", 2000},
	"C14": {"trees", []string{"ClaimFree"}, "GetAll", 2000},
	"C15": {"trees", []string{"ClaimRange"}, "GetAll", 2000},
	"C16": {"trees", []string{"Children", "Parents"}, "GetAll", 2000},
	"C17": {"trees", []string{"GetByLabel", "ReleaseByLabel"}, "GetAll", 2000},
	"C18": {"trees", []string{"Clone"}, "GetAll", 2000},
}

func mixTarget(kind string, rng *rand.Rand, i int) target {
	n := []uint64{1, 1 + rng.Uint64N(8), 1 + rng.Uint64N(40), 60 + rng.Uint64N(80), 130 + rng.Uint64N(200)}[rng.IntN(5)]
	big := n > 100 && rng.IntN(2) == 0
	w := widths[i%3]
	switch kind {
	case "idxtable":
		if big {
			return newBigIx(n)
		}
		return newIx(n)
	case "windows":
		s := rng.Uint64() & w.Max
		switch rng.IntN(4) {
		case 0:
			s = 0
		case 1:
			s = w.Max - n + 1
		}
		s = min(s, w.Max-n+1)
		if big {
			return newBigTb(w, s, n)
		}
		return newTb(w, s, n)
	case "iptable":
		from := []string{"10.0.0.254", "255.255.254.9", "0.0.0.1", "2001:db8::fffe", "2001:db8:0:1:ffff:ffff:ffff:fff0", "::1", "::ffff:10.0.0.3"}[rng.IntN(7)]
		if big {
			return newBigIP(from, n)
		}
		return newIP(from, n)
	}
	bits := uint8(rng.IntN(6))
	if bits == 5 && rng.IntN(3) == 0 {
		return newBigTr(w, 7)
	}
	return newTr(w, bits)
}

// member is one object of a case: trees may have clones next to them.
type member struct {
	t  target
	st cstate
}

func mixSection(r *Run, s mixSpec) {
	r.rule += " mix: random histories of 150-400 operations of all kinds in bursts on one object (and clones of trees), the operations this property is about judged by the sequential specification and the content compared after each; non-trivial when one of them succeeded in modifying or reading an object with content."
	r.Each("mix", r.N(s.n, s.n*30), func(c *Case, i int) {
		rng := c.Rng
		ms := []*member{{t: mixTarget(s.kind, rng, i)}}
		ms[0].st = make(cstate, ms[0].t.slots())
		list := kindIdx(ms[0].t, s.list)
		lin := ms[0].t.lin()
		var focus []int
		for _, n := range s.focus {
			focus = append(focus, kindIdx(ms[0].t, n))
		}
		listJudged := slices.Contains(focus, list)
		clones := s.kind == "trees"
		c.Op("%s with %d slots", ms[0].t.name(), ms[0].t.slots())
		g := &gctx{}
		v := int32(0)
		// apply runs an operation on a member and says whether the outcome is the specified one
		apply := func(m *member, o cop, judged bool) (ok bool) {
			if !judged {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
			}
			out := m.t.do(g, o)
			c.Op("%s = %s", m.t.describe(o), shortOut(out))
			ok, m.st = m.t.step(m.st, o, out)
			if !ok && judged {
				c.Fail("%s: %s = %s does not fit the content", m.t.name(), m.t.describe(o), shortOut(out))
			}
			return ok
		}
		isClone := slices.Contains(s.focus, "Clone")
		// content compares the listings of all members with the model; blame says whose deviations are this property's
		content := func(blame func(m *member) bool, after string) bool {
			for k, m := range ms {
				judged := blame(m)
				ok := false
				out := ""
				cmp := func() bool {
					out = m.t.do(g, cop{kind: list})
					ok, _ = m.t.step(m.st, cop{kind: list}, out)
					return ok
				}
				if !judged {
					if !quietly(cmp) {
						return false
					}
				} else if !cmp() {
					c.Fail("%s: after %s the content of object %d of %d is %s", m.t.name(), after, k+1, len(ms), shortOut(out))
				}
			}
			return true
		}
		nt := false
		total := 150 + rng.IntN(250)
		for done := 0; done < total; {
			m := ms[rng.IntN(len(ms))]
			if clones && rng.IntN(12) == 0 {
				n := &member{st: slices.Clone(m.st)}
				if !quietly(func() bool { n.t = m.t.(*trTarget).withClone(); return true }) {
					if isClone {
						c.Fail("Clone panicked")
					}
					return
				}
				c.Op("clone of object")
				if len(ms) < 3 {
					ms = append(ms, n)
				} else {
					ms[rng.IntN(3)] = n
				}
				if !content(func(*member) bool { return isClone || listJudged }, "Clone") {
					return
				}
				done++
				continue
			}
			pick := func() int {
				if rng.IntN(10) < 3 {
					return focus[rng.IntN(len(focus))]
				}
				return rng.IntN(lin)
			}
			ks := []int{pick()}
			if rng.IntN(3) == 0 {
				ks = append(ks, pick())
			}
			burst := 1 + rng.IntN(6)
			if rng.IntN(6) == 0 {
				burst = 10 + rng.IntN(90)
			}
			same := rng.IntN(3) == 0
			old := int32(0) // data or labels used before, and by others
			if rng.IntN(3) == 0 {
				old = 1 + rng.Int32N(5)
			}
			one := m.t.gen(rng, ks[0], v)
			for b := 0; b < burst; b++ {
				k := ks[b%len(ks)]
				v++
				o := m.t.gen(rng, k, v)
				if old > 0 {
					o.v = old
				}
				if same { // one argument throughout, as far as the operations take the same kind of argument
					p := o
					p.a = one.a
					if len(ks) == 1 {
						p.b = one.b
					}
					if fits(m.t, p) {
						o = p
					}
				} else if rng.IntN(30) == 0 {
					o = m.t.bad(rng, k, v)
				}
				judged := slices.Contains(focus, k)
				before := slices.Clone(m.st)
				if !apply(m, o, judged) {
					return
				}
				if b&7 == 7 || b == burst-1 || judged || len(m.st) < 20 {
					blame := func(x *member) bool { return listJudged || judged && x == m }
					if isClone { // what happens to one copy must not show in another
						blame = func(x *member) bool { return x != m }
					}
					if !content(blame, m.t.describe(o)) {
						return
					}
				}
				if (judged || isClone && len(ms) > 1) && (!slices.Equal(before, m.st) || slices.ContainsFunc(before, func(v int32) bool { return v != 0 })) {
					nt = true
				}
				done++
			}
		}
		if nt {
			c.Nontrivial()
		}
	})
}

func quietly(f func() bool) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return f()
}

// fits: whether the argument a of o is one that operation takes on that object.
func fits(t target, o cop) bool {
	switch x := t.(type) {
	case *ixTarget:
		switch o.kind {
		case ixRange, ixFindRange, ixSizeN, ixFindSize:
			return o.a < 1<<20 && o.b < 1<<20
		}
		return o.a < x.n
	case *tbTarget:
		return o.a >= x.s && o.a-x.s < x.n
	case *ipTarget:
		return o.a >= 1 && o.a <= x.n
	case *trTarget:
		if o.kind == trRange {
			return o.a <= o.b && o.b < 1<<x.bits
		}
		return o.a < uint64(len(x.pks))
	}
	return false
}

func (x *trTarget) withClone() *trTarget {
	y := *x
	y.t = x.t.Clone()
	return &y
}
