package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"

	"github.com/henderiw/idxtable/pkg/idxtable"
)

// Index tables of data types other than any: not comparable ones, ones with several representations of equal values, ones
// without values. What is read back is the very value that was stored, bit for bit and pointer for pointer.

type pairOf struct {
	s []int
	n int
}

// very reports whether two values are the same in every bit that can be observed.
func very(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Cap() == b.Cap() && a.Pointer() == b.Pointer()
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Pointer:
		return a.Pointer() == b.Pointer()
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Interface:
		return very(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !very(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	if a.CanUint() {
		return a.Uint() == b.Uint()
	}
	return a.Equal(b)
}

func same[T any](a, b T) bool {
	return very(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

// typeCase is a history on a table of T using the operations the property is about, next to single-id ones.
func typeCase[T any](c *Case, prop string, gen func(rng *rand.Rand) T) {
	size := []uint64{9, 40, 1 << 63}[c.Rng.IntN(3)]
	t := idxtable.NewTable[T](size)
	m := map[uint64]T{}
	c.Op("NewTable[%T](%d)", *new(T), size)
	c.key = prop + ":types"
	n, upd := min(size, 40), 0
	type kept struct {
		es  idxtable.Entries[T]
		it  *idxtable.Iterator[T]
		ids []uint64
		ds  []T
	}
	var held []kept
	for k := 0; k < 120; k++ {
		id := c.Rng.Uint64N(n)
		d := gen(c.Rng)
		_, cl := m[id]
		switch op := c.Rng.IntN(10); {
		case op < 3 && !cl:
			c.Check(t.Claim(id, d) == nil, "Claim(%d) of a free id failed", id)
			m[id] = d
		case op < 3:
			c.Check(t.Claim(id, d) != nil, "Claim(%d) of a claimed id succeeded", id)
		case op < 6:
			if c.Rng.IntN(3) == 0 && cl {
				d = m[id] // the same value once more
			}
			err := t.Update(id, d)
			c.Check((err == nil) == cl, "Update(%d) = %v, claimed %v", id, err, cl)
			if cl {
				m[id] = d
				upd++
			}
		case op < 8:
			c.Check(t.Release(id) == nil, "Release(%d) failed", id)
			delete(m, id)
		case prop == "C02":
			w := c.Rng.Uint64N(4) + 1
			ok := id+w <= size
			for x := id; x < id+w; x++ {
				if _, cl := m[x]; cl {
					ok = false
				}
			}
			c.Check((t.ClaimRange(id, w, d) == nil) == ok, "ClaimRange(%d,%d): free %v, the result disagrees", id, w, ok)
			if ok {
				for x := id; x < id+w; x++ {
					m[x] = d
				}
			}
		case prop == "C03":
			w := c.Rng.IntN(4)
			var want []uint64
			for x := uint64(0); x < size && len(want) < max(w, 1); x++ {
				if _, cl := m[x]; !cl {
					want = append(want, x)
				}
			}
			var es idxtable.Entries[T]
			var err error
			if w == 0 {
				var e idxtable.Entry[T]
				if e, err = t.ClaimDynamic(d); err == nil {
					es = append(es, e)
				}
			} else {
				es, err = t.ClaimSize(uint64(w), d)
			}
			if len(want) < max(w, 1) {
				c.Check(err != nil, "claiming %d free ids succeeded with %d left", w, len(want))
				break
			}
			c.Check(err == nil && len(es) == len(want), "claiming %d free ids failed or gave %d: %v", w, len(es), err)
			for x, e := range es {
				c.Check(e.ID() == want[x] && same(e.Data(), d), "dynamic claim %d of %d gave entry %d with %v, want %d with %v", x, w, e.ID(), e.Data(), want[x], d)
				m[e.ID()] = d
			}
		}
		c.Mix(uint64(k)<<32 | id)
		for x := uint64(0); x < n; x++ {
			want, cl := m[x]
			e, err := t.Get(x)
			if (err == nil) != cl || t.Has(x) != cl || t.IsFree(x) == cl {
				c.Fail("id %d: claimed %v, Get says %v, Has %v, IsFree %v", x, cl, err, t.Has(x), t.IsFree(x))
			}
			if cl && (e.ID() != x || !same(e.Data(), want)) {
				c.Fail("Get(%d) has id %d and data %v, want the %v last stored", x, e.ID(), e.Data(), want)
			}
		}
		c.Check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
		if prop == "C04" && k%6 == 5 {
			h := kept{es: t.GetAll(), it: t.Iterate()}
			for x := uint64(0); x < n; x++ {
				if d, ok := m[x]; ok {
					h.ids, h.ds = append(h.ids, x), append(h.ds, d)
				}
			}
			held = append(held, h)
		}
	}
	for _, h := range held {
		c.Check(len(h.es) == len(h.ids), "a list of %d ids has %d entries", len(h.ids), len(h.es))
		for x, id := range h.ids {
			c.Check(h.es[x].ID() == id && same(h.es[x].Data(), h.ds[x]), "list position %d: entry %d with %v, want %d with %v", x, h.es[x].ID(), h.es[x].Data(), id, h.ds[x])
			c.Check(h.it.Next() && h.it.ID() == id && same(h.it.Value().Data(), h.ds[x]), "iterator position %d is not %d with %v", x, id, h.ds[x])
		}
		c.Check(!h.it.Next(), "the iterator yields more than %d entries", len(h.ids))
	}
	if upd > 0 {
		c.Nontrivial()
	}
}

var (
	one, two = 1, 2
	ints     = []*int{nil, &one, &two}
	strs     = [][]string{nil, {}, {"a"}, {"a"}, make([]string, 1, 4)}
	maps     = []map[string]int{nil, {}, {"a": 1}, {"a": 1}}
	funcs    = []func() int{nil, func() int { return one }, func() int { return two }}
	floats   = []float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(math.Float64bits(math.NaN()) + 1), 1, math.Inf(1)}
	errs     = []error{nil, errors.New("x"), errors.New("x"), fmt.Errorf("x")}
	chans    = []chan int{nil, make(chan int), make(chan int)}
)

// anyValue is one of few values of many types.
func anyValue(rng *rand.Rand) any {
	switch rng.IntN(9) {
	case 0:
		return ints[rng.IntN(3)]
	case 1:
		return strs[rng.IntN(5)]
	case 2:
		return maps[rng.IntN(4)]
	case 3:
		return funcs[rng.IntN(3)]
	case 4:
		return floats[rng.IntN(6)]
	case 5:
		return errs[rng.IntN(4)]
	case 6:
		return pairOf{[]int{1}, rng.IntN(2)}
	case 7:
		return rng.IntN(3)
	}
	return nil
}

// sameValues: the same values in any order.
func sameValues(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for k, y := range b {
			if !used[k] && same(x, y) {
				used[k] = true
				continue next
			}
		}
		return false
	}
	return true
}

func types(r *Run) {
	kinds := []func(c *Case){
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) *int { return ints[g.IntN(3)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) []string { return strs[g.IntN(5)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) map[string]int { return maps[g.IntN(4)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) func() int { return funcs[g.IntN(3)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) float64 { return floats[g.IntN(6)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) error { return errs[g.IntN(4)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) chan int { return chans[g.IntN(3)] }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) struct{} { return struct{}{} }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) bool { return g.IntN(2) == 0 }) },
		func(c *Case) { typeCase(c, r.Prop, func(g *rand.Rand) [3]byte { return [3]byte{byte(g.IntN(2))} }) },
		func(c *Case) {
			typeCase(c, r.Prop, func(g *rand.Rand) pairOf { return pairOf{make([]int, g.IntN(2)), g.IntN(2)} })
		},
		func(c *Case) { typeCase(c, r.Prop, anyValue) },
		func(c *Case) {
			typeCase(c, r.Prop, func(g *rand.Rand) string { return []string{"", "a", "b"}[g.IntN(3)] })
		},
	}
	r.Each("types", r.N(20, 1000)*len(kinds), func(c *Case, i int) { kinds[i%len(kinds)](c) })
}
