package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net/netip"
	"sort"
	"strings"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
	"k8s.io/apimachinery/pkg/labels"
)

func init() { checks["C12"] = checkC12 }

type ipModel struct {
	from, to netip.Addr
	m        map[netip.Addr]rtable.Route
}

func (m *ipModel) valid() bool {
	return m.from.BitLen() == m.to.BitLen() && !m.to.Less(m.from)
}
func (m *ipModel) in(a netip.Addr) bool {
	return m.valid() && a.Zone() == "" && a.BitLen() == m.from.BitLen() && !a.Less(m.from) && !m.to.Less(a)
}
func (m *ipModel) sorted() []netip.Addr {
	var ks []netip.Addr
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Less(ks[j]) })
	return ks
}
func (m *ipModel) lowestFree() (netip.Addr, bool) {
	if !m.valid() {
		return netip.Addr{}, false
	}
	for a := m.from; a.IsValid() && !m.to.Less(a); a = a.Next() {
		if _, ok := m.m[a]; !ok {
			return a, true
		}
	}
	return netip.Addr{}, false
}

func addrAdd(a netip.Addr, n *big.Int) netip.Addr {
	b := a.As16()
	x := new(big.Int).SetBytes(b[:])
	x.Add(x, n)
	x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))
	var o [16]byte
	x.FillBytes(o[:])
	if a.Is4() {
		return netip.AddrFrom16(o).Unmap()
	}
	return netip.AddrFrom16(o)
}

// spell writes an address in one of its textual forms.
func spell(c *Case, a netip.Addr) string {
	if a.Is4() {
		return a.String()
	}
	if a.Is4In6() {
		if c.Rng.IntN(2) == 0 {
			return a.String()
		}
		return a.StringExpanded()
	}
	b := a.As16()
	switch c.Rng.IntN(5) {
	case 0:
		return a.StringExpanded()
	case 1:
		return strings.ToUpper(a.StringExpanded())
	case 2:
		var p []string
		for i := 0; i < 16; i += 2 {
			p = append(p, fmt.Sprintf("%x", int(b[i])<<8|int(b[i+1])))
		}
		return strings.Join(p, ":")
	case 3:
		var p []string
		for i := 0; i < 12; i += 2 {
			p = append(p, fmt.Sprintf("%04x", int(b[i])<<8|int(b[i+1])))
		}
		return strings.Join(p, ":") + fmt.Sprintf(":%d.%d.%d.%d", b[12], b[13], b[14], b[15])
	}
	return a.String()
}

// routePrefix is the prefix of a route to store for a: the stored route is the claimer's, whatever its prefix.
func routePrefix(rng *rand.Rand, a netip.Addr) netip.Prefix {
	n := a.WithZone("").BitLen()
	switch rng.IntN(6) {
	case 0, 1:
		return netip.PrefixFrom(a.WithZone(""), n)
	case 2:
		return netip.PrefixFrom(a.WithZone(""), rng.IntN(n+1))
	case 3:
		return netip.Prefix{}
	case 4:
		v := rng.Uint32()
		return netip.PrefixFrom(netip.AddrFrom4([4]byte{byte(v), byte(v >> 8), byte(v >> 16), 1}), 24)
	}
	return netip.PrefixFrom(netip.AddrFrom16([16]byte{0x20, 1, 0xd, 0xb8, byte(rng.Uint32())}), 64)
}

func rkey(rt rtable.Route) string {
	d, _ := json.Marshal(rt.GetData())
	return rt.Prefix().String() + "|" + lkey(rt.Labels()) + "|" + string(d)
}

var ipRanges = [][2]string{
	{"10.0.0.10", "10.0.0.20"}, {"10.0.0.250", "10.0.1.5"}, {"0.0.0.0", "0.0.0.7"}, {"255.255.255.248", "255.255.255.255"},
	{"127.255.255.250", "128.0.0.5"}, {"0.0.0.0", "255.255.255.255"}, {"10.0.0.0", "10.255.255.255"}, {"192.0.2.1", "192.0.2.1"},
	{"2001:db8::", "2001:db8::f"}, {"2001:db8::fff8", "2001:db8::1:7"}, {"2001:db8::ffff:ffff:ffff:fff8", "2001:db8:0:1::7"}, {"::", "::9"},
	{"::ff00", "::1:00ff"}, {"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fff0", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"},
	{"2001:db8::", "2001:db8::ffff:ffff:ffff:ffff"}, {"2001:db8::1", "2001:db8::ffff:ffff:ffff:ffff"}, {"2001:db8::8000:0:0:0", "2001:db8:0:1:8000::"},
	{"2001:db8::", "2001:db8::7fff:ffff:ffff:ffff"}, {"2001:db8::", "2001:db8::8000:0:0:0"}, {"::ffff:10.0.0.1", "::ffff:10.0.0.9"}, {"::fffe:ffff:fffc", "::ffff:0.0.0.8"},
	{"2001:db8::", "2001:db8:0:ffff:ffff:ffff:ffff:ffff"}, {"2001:db8::", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff"}, {"::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"},
	{"2001:db8::", "2001:db8:0:1::7"}, {"2001:db8::5", "2001:db8:0:1::4"}, {"2001:db8::5", "2001:db8:0:1::5"},
	{"10.0.0.20", "10.0.0.10"}, {"2001:db8::9", "2001:db8::1"}, {"10.0.0.1", "2001:db8::1"}, {"2001:db8::1", "10.0.0.1"}, {"10.0.0.1", "::ffff:10.0.0.9"}, {"::ffff:10.0.0.1", "10.0.0.9"},
}

// hugeOffset: the address lies 2^64 or more above from (see the known finding on pools wider than 2^64).
func hugeOffset(from, a netip.Addr) bool {
	f, b := from.As16(), a.As16()
	d := new(big.Int).Sub(new(big.Int).SetBytes(b[:]), new(big.Int).SetBytes(f[:]))
	return d.BitLen() > 64
}

func (m *ipModel) pool(c *Case) []netip.Addr {
	p := []netip.Addr{m.from, m.to, m.from.Next(), m.to.Prev(), m.from.Prev(), m.to.Next(), addrAdd(m.from, big.NewInt(2)), addrAdd(m.from, big.NewInt(3))}
	add := func(a netip.Addr) {
		if a.IsValid() {
			p = append(p, a)
		}
	}
	for _, e := range []uint{8, 16, 24, 32, 48, 63, 64} {
		add(addrAdd(m.from, new(big.Int).Lsh(big.NewInt(1), e)))
		add(addrAdd(m.from, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(1))))
		add(addrAdd(m.to, new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), e))))
	}
	for i := 0; i < 6; i++ {
		add(addrAdd(m.from, big.NewInt(int64(c.Rng.IntN(14)))))
		add(addrAdd(m.to, big.NewInt(-int64(c.Rng.IntN(10)))))
	}
	add(netip.MustParseAddr("10.0.0.12"))
	add(netip.MustParseAddr("::ffff:10.0.0.5"))
	add(netip.MustParseAddr("10.0.0.5"))
	add(netip.MustParseAddr("2001:db8::3"))
	var out []netip.Addr
	for _, a := range p {
		if a.IsValid() && (!m.in(a) || !hugeOffset(m.from, a)) {
			out = append(out, a)
		}
	}
	return out
}

func (m *ipModel) checkState(c *Case, t iptable.IPTable, pool []netip.Addr) {
	c.Check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	probe := func(a netip.Addr) {
		want, cl := m.m[a]
		s := spell(c, a)
		c.Check(t.Has(s) == cl, "Has(%s) = %v, want %v", s, t.Has(s), cl)
		c.Check(t.IsFree(s) == (m.in(a) && !cl), "IsFree(%s) = %v, want %v", s, t.IsFree(s), m.in(a) && !cl)
		rt, err := t.Get(s)
		c.Check((err == nil) == cl, "Get(%s) error %v, claimed %v", s, err, cl)
		if cl {
			c.Check(rkey(rt) == rkey(want), "Get(%s) = %s, want %s", s, rkey(rt), rkey(want))
		}
	}
	ks := m.sorted()
	for _, a := range ks {
		probe(a)
	}
	for _, a := range pool {
		probe(a)
	}
	for _, s := range badAddrs {
		c.Check(!t.Has(s) && !t.IsFree(s), "Has/IsFree accept %q", s)
		_, err := t.Get(s)
		c.Check(err != nil, "Get(%q) succeeded", s)
	}
	all := t.GetAll()
	c.Check(len(all) == len(ks), "GetAll lists %d routes, want %v", len(all), ks)
	for i, rt := range all {
		c.Check(rkey(rt) == rkey(m.m[ks[i]]), "GetAll[%d] = %s, want %s (%s)", i, rkey(rt), rkey(m.m[ks[i]]), ks[i])
	}
	ownRoutes(c, "GetAll", all)
	f, err := t.FindFree()
	want, ok := m.lowestFree()
	c.Check((err == nil) == ok && (!ok || f == want), "FindFree() = %s, %v; want %s, %v (range %s-%s)", f, err, want, ok, m.from, m.to)
}

// ownRoutes is own for routes.
func ownRoutes(c *Case, what string, got rtable.Routes) {
	switch v := c.Rng.IntN(max(24, len(got)/4)); {
	case len(got) == 0 || v > 2:
	case v < 2:
		c.Hold(what, func() string {
			var b strings.Builder
			for _, rt := range got {
				b.WriteString(rkey(rt) + ", ")
			}
			return b.String()
		})
	default:
		for i := range got {
			got[i] = rtable.Route{}
		}
	}
}

var badAddrs = []string{"", "x", "10.0.0", "10.0.0.256", "010.0.0.11", "10.0.0.11/32", " 10.0.0.11", "2001:db8::3%eth0", "fe80::1%1", "::1::", "10.0.0.12%x", "2001:db8::3/128", "0x0a.0.0.11", "167772171"}

func checkC12(r *Run) {
	r.rule = "a case is one IP table on one of 33 hand-picked ranges (IPv4/IPv6, straddling 2^8/2^16/2^63/2^64 boundaries, /64 and wider, 4-in-6, single, reversed, mixed family) or a random one, with 40 random operations using random spellings of in-range, adjacent, boundary and foreign addresses; after every operation Size/Has/IsFree/Get/GetAll/FindFree are compared with a map keyed by netip.Addr. alias: in pools wider than 2^64 addresses 2^64 apart must be independent. Non-trivial: history has an accepted claim and a rejection, and a release or an update."
	r.Each("history", r.N(900, 30000), func(c *Case, i int) {
		m := &ipModel{m: map[netip.Addr]rtable.Route{}}
		if i < 2*len(ipRanges) || c.Rng.IntN(2) == 0 {
			x := ipRanges[i%len(ipRanges)]
			m.from, m.to = netip.MustParseAddr(x[0]), netip.MustParseAddr(x[1])
		} else if c.Rng.IntN(2) == 0 {
			v := c.Rng.Uint32()
			m.from = netip.AddrFrom4([4]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
			m.to = addrAdd(m.from, big.NewInt(int64(min(c.Rng.Uint32N(400), ^v))))
		} else {
			var b [16]byte
			for k := range b {
				b[k] = byte(c.Rng.Uint32())
			}
			b[0] &= 0x7f
			m.from = netip.AddrFrom16(b)
			m.to = addrAdd(m.from, new(big.Int).SetUint64(c.Rng.Uint64()>>c.Rng.IntN(64)))
		}
		t := iptable.New(m.from, m.to)
		c.Op("New(%s,%s)", m.from, m.to)
		pool := m.pool(c)
		m.checkState(c, t, pool)
		var acc, rej, chg int
		for k := 0; k < 40; k++ {
			a := pool[c.Rng.IntN(len(pool))]
			if c.Rng.IntN(3) == 0 && len(m.m) > 0 {
				ks := m.sorted()
				a = ks[c.Rng.IntN(len(ks))]
			}
			s := spell(c, a)
			inr := m.in(a)
			_, cl := m.m[a]
			if c.Rng.IntN(10) == 0 {
				s, inr, cl = badAddrs[c.Rng.IntN(len(badAddrs))], false, false
			}
			rt := rtable.NewRoute(routePrefix(c.Rng, a), randLabels(c, k), map[string]any{"n": k})
			switch op := c.Rng.IntN(8); {
			case op < 3:
				err := t.Claim(s, rt)
				c.Op("Claim(%q) = %v", s, err)
				c.Check((err == nil) == (inr && !cl), "Claim(%q) error %v; in range %v, claimed %v (range %s-%s)", s, err, inr, cl, m.from, m.to)
				if err == nil {
					m.m[a] = rt
					acc++
				} else {
					rej++
				}
			case op < 4: // claim what FindFree offers
				f, err := t.FindFree()
				if err == nil {
					s = spell(c, f)
					err = t.Claim(s, rt)
					c.Op("FindFree+Claim(%q) = %v", s, err)
					c.Check(err == nil, "Claim of FindFree's %s failed: %v", f, err)
					m.m[f] = rt
					acc++
				}
			case op < 6:
				err := t.Update(s, rt)
				c.Op("Update(%q) = %v", s, err)
				c.Check((err == nil) == cl, "Update(%q) error %v, claimed %v", s, err, cl)
				if err == nil {
					m.m[a] = rt
					chg++
				} else {
					rej++
				}
			default:
				err := t.Release(s)
				c.Op("Release(%q) = %v", s, err)
				c.Check((err == nil) == inr, "Release(%q) error %v, in range %v", s, err, inr)
				if err == nil {
					if cl {
						chg++
					}
					delete(m.m, a)
				} else {
					rej++
				}
			}
			m.checkState(c, t, pool)
			sel := randSelector(c)
			var want []string
			for _, a := range m.sorted() {
				if sel.Matches(m.m[a].Labels()) {
					want = append(want, rkey(m.m[a]))
				}
			}
			var got []string
			routes := t.GetByLabel(sel)
			for _, rt := range routes {
				got = append(got, rkey(rt))
			}
			ownRoutes(c, "GetByLabel", routes)
			c.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "GetByLabel(%q) = %v, want %v", sel, got, want)
		}
		if acc > 0 && rej > 0 && chg > 0 || !m.valid() && rej > 10 {
			c.Nontrivial()
		}
		r.Count("claims_accepted", int64(acc))
		r.Count("calls_rejected", int64(rej))
	})
	r.Seq("fill", len(ipRanges), func(c *Case, i int) {
		x := ipRanges[i%len(ipRanges)]
		m := &ipModel{from: netip.MustParseAddr(x[0]), to: netip.MustParseAddr(x[1]), m: map[netip.Addr]rtable.Route{}}
		t := iptable.New(m.from, m.to)
		c.Op("New(%s,%s): claim the first 300 free addresses", m.from, m.to)
		for k := 0; k < 300; k++ {
			want, ok := m.lowestFree()
			f, err := t.FindFree()
			c.Check((err == nil) == ok && (!ok || f == want), "FindFree = %s, %v; want %s, %v", f, err, want, ok)
			if !ok {
				break
			}
			c.Check(t.Claim(f.String(), rtable.Route{}) == nil, "Claim(%s) of a free address failed", f)
			m.m[f] = rtable.Route{}
			c.Beat()
		}
		c.Nontrivial()
	})
	// Pools wider than 2^64: slots are numbered with 64 bits.
	wide := [][2]string{{"2001:db8::", "2001:db8:0:ffff:ffff:ffff:ffff:ffff"}, {"2001:db8::", "2001:db8:0:1::7"}, {"::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"}}
	r.Seq("wide-alias", len(wide), func(c *Case, i int) {
		from, to := netip.MustParseAddr(wide[i][0]), netip.MustParseAddr(wide[i][1])
		t := iptable.New(from, to)
		a := addrAdd(from, big.NewInt(3))
		b := addrAdd(a, new(big.Int).Lsh(big.NewInt(1), 64))
		c.Op("New(%s,%s) Claim(%s) then Claim(%s)", from, to, a, b)
		c.Check(t.Claim(a.String(), rtable.Route{}) == nil, "Claim(%s) failed", a)
		c.Nontrivial()
		c.key = fmt.Sprintf("wide-alias:%s-%s", from, to)
		c.Check(!t.Has(b.String()) && t.Claim(b.String(), rtable.Route{}) == nil, "pool %s-%s: after Claim(%s) the different address %s counts as claimed", from, to, a, b)
	})
	_ = labels.Everything
	largeC12(r)
	hugeC12(r)
}
