package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"net/netip"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"

	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"k8s.io/apimachinery/pkg/labels"
)

func init() { checks["C08"] = checkC08 }

// Resource limits of a child: a scenario allocates well under a megabyte and uses milliseconds of CPU.
const (
	childAS   = 3 << 30
	childCPU  = 30
	perOpBase = 256 << 10
	perID     = 2 << 10
)

// probe runs operations and accounts what each allocates.
type probe struct {
	Ops       int64    `json:"ops"`
	MaxBytes  uint64   `json:"max_bytes"`
	MaxBytesO string   `json:"max_bytes_op"`
	Steps     []string `json:"steps"`
	Viol      []string `json:"viol"`
	claimed   uint64
}

// step runs f, which may hold up to requested new ids, and checks its outcome and its allocations.
func (p *probe) step(name string, requested uint64, f func() string, want string) {
	var a, b runtime.MemStats
	fmt.Fprintln(os.Stderr, "step:", name)
	runtime.ReadMemStats(&a)
	got := f()
	runtime.ReadMemStats(&b)
	d := b.TotalAlloc - a.TotalAlloc
	p.Ops++
	if len(p.Steps) < 40 {
		p.Steps = append(p.Steps, fmt.Sprintf("%s = %s (%d bytes)", name, got, d))
	}
	if d > p.MaxBytes {
		p.MaxBytes, p.MaxBytesO = d, name
	}
	if bound := uint64(perOpBase + perID*(p.claimed+requested)); d > bound {
		p.Viol = append(p.Viol, fmt.Sprintf("%s allocated %d bytes with %d ids claimed and %d requested (bound %d)", name, d, p.claimed, requested, bound))
	}
	if want != "" && got != want {
		p.Viol = append(p.Viol, fmt.Sprintf("%s = %s, want %s", name, got, want))
	}
}

func okErr(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func idOr(id uint64, err error) string {
	if err != nil {
		return "error"
	}
	return num(id)
}

// idx: n is 0 for the table of all 2^64 ids.
func (p *probe) idx(n uint64, rng *rand.Rand) {
	var t idxtable.Table[any]
	p.step(fmt.Sprintf("NewTable(%d)", n), 0, func() string {
		if n == 0 {
			t = newTableMax(n - 1)
		} else {
			t = idxtable.NewTable[any](n)
		}
		return "ok"
	}, "ok")
	find := func() string { return idOr(t.FindFree()) }
	dyn := func() string {
		e, err := t.ClaimDynamic(7)
		if err != nil {
			return "error"
		}
		return num(e.ID())
	}
	cr := func(s, k uint64) func() string { return func() string { return okErr(t.ClaimRange(s, k, 1)) } }
	p.step("FindFree", 1, find, "0")
	p.step("ClaimDynamic", 1, dyn, "0")
	p.step("ClaimDynamic", 1, dyn, "1")
	p.claimed += 2
	p.step("FindFreeSize(5)", 5, func() string { ids, err := t.FindFreeSize(5); return fmt.Sprint(ids, err) }, "[2 3 4 5 6] <nil>")
	p.step("ClaimSize(5)", 5, func() string { es, err := t.ClaimSize(5, 1); return fmt.Sprint(len(es), err) }, "5 <nil>")
	p.claimed += 5
	p.step("FindFree", 1, find, "7")
	mid := (n-1)/2 + rng.Uint64N(1000)
	p.step(fmt.Sprintf("ClaimRange(%d,64)", mid), 64, cr(mid, 64), "ok")
	p.claimed += 64
	p.step(fmt.Sprintf("ClaimRange(%d,64) overlapping", mid+32), 64, cr(mid+32, 64), "error")
	p.step("FindFreeRange far up", 64, func() string { ids, err := t.FindFreeRange(n-100, 64); return fmt.Sprint(len(ids), err) }, "64 <nil>")
	p.step("ClaimRange last 3", 3, cr(n-3, 3), "ok")
	p.claimed += 3
	p.step("ClaimRange beyond the end", 3, cr(n-1, 2), "error")
	p.single(n-1, t.Has, func(id uint64) error { return t.Claim(id, 3) }, t.Release, func(id uint64) error { return t.Update(id, 4) }, t.IsFree,
		func(id uint64) error { _, err := t.Get(id); return err })
	p.step("FindFree", 1, find, "7")
	p.step("ClaimSize(1000)", 1000, func() string { es, err := t.ClaimSize(1000, 1); return fmt.Sprint(len(es), err) }, "1000 <nil>")
	p.claimed += 1000
	p.step("Release(3)", 0, func() string { return okErr(t.Release(3)) }, "ok")
	p.step("FindFree", 1, find, "3")
	p.step("ClaimDynamic", 1, dyn, "3")
	p.step("ClaimDynamic", 1, dyn, "1007")
	p.claimed++
	p.step("Size", 0, func() string { return fmt.Sprint(t.Size()) }, num(p.claimed))
	// fill from the bottom
	for i := 0; i < 300; i++ {
		if _, err := t.ClaimDynamic(1); err != nil {
			p.Viol = append(p.Viol, "ClaimDynamic failed: "+err.Error())
			break
		}
	}
	p.claimed += 300
	p.step("FindFree", 1, find, num(7+1000+1+300))
	p.step("FindFree x200", 200, func() string {
		for i := 0; i < 200; i++ {
			t.FindFree()
			t.FindFreeSize(2)
		}
		return "ok"
	}, "ok")
	p.step("GetAll", 0, func() string { return num(uint64(len(t.GetAll()))) }, num(p.claimed))
	iter := func() string {
		k := uint64(0)
		for it := t.Iterate(); it.Next(); {
			if !t.Has(it.ID()) {
				return "lists a free id " + num(it.ID())
			}
			k++
		}
		return num(k)
	}
	p.step("Iterate", 0, iter, num(p.claimed))
	// many ids at once: the work grows with their number, not with its square
	const many = 60000
	far := (n-1)/4*3 + rng.Uint64N(1000)
	p.step(fmt.Sprintf("ClaimRange(%d,%d)", far, many), many, cr(far, many), "ok")
	p.claimed += many
	p.step(fmt.Sprintf("ClaimRange(%d,%d) overlapping", far-many+1, many), many, cr(far-many+1, many), "error")
	p.step(fmt.Sprintf("ClaimSize(%d)", many), many, func() string { es, err := t.ClaimSize(many, 1); return fmt.Sprint(len(es), err) }, num(many)+" <nil>")
	p.claimed += many
	low := uint64(7 + 1000 + 1 + 300 + many)
	p.step("FindFree", 1, find, num(low))
	p.step(fmt.Sprintf("FindFreeSize(%d)", many), many, func() string {
		ids, err := t.FindFreeSize(many)
		if err != nil || len(ids) != many || ids[0] != low {
			return fmt.Sprint(len(ids), err)
		}
		return "ok"
	}, "ok")
	p.step("ClaimDynamic", 1, dyn, num(low))
	p.claimed++
	p.step("Size", 0, func() string { return fmt.Sprint(t.Size()) }, num(p.claimed))
	p.step("Iterate", 0, iter, num(p.claimed))
	p.step("GetAll", 0, func() string { return num(uint64(len(t.GetAll()))) }, num(p.claimed))
	p.step("Release, Update, Claim x1500", 2000*p.claimed/8, func() string { // each of them may take work proportional to the claimed ids
		for i := uint64(0); i < 1500; i++ {
			id := far + i
			if i%3 == 0 {
				if err := t.Release(id); err != nil {
					return err.Error()
				}
				if err := t.Claim(id, 9); err != nil {
					return err.Error()
				}
			} else if err := t.Update(id, 8); err != nil {
				return err.Error()
			}
		}
		return num(uint64(t.Size()))
	}, num(p.claimed))
}

// single exercises a claimed id far from the start.
func (p *probe) single(id uint64, has func(uint64) bool, claim, release, update func(uint64) error, isFree func(uint64) bool, get func(uint64) error) {
	s := num(id)
	p.step("Has("+s+")", 0, func() string { return fmt.Sprint(has(id)) }, "true")
	p.step("Claim("+s+") again", 1, func() string { return okErr(claim(id)) }, "error")
	p.step("Get("+s+")", 0, func() string { return okErr(get(id)) }, "ok")
	p.step("Update("+s+")", 0, func() string { return okErr(update(id)) }, "ok")
	p.step("Release("+s+")", 0, func() string { return okErr(release(id)) }, "ok")
	p.step("IsFree("+s+")", 0, func() string { return fmt.Sprint(isFree(id)) }, "true")
	p.step("Get("+s+") free", 0, func() string { return okErr(get(id)) }, "error")
	p.step("Claim("+s+")", 1, func() string { return okErr(claim(id)) }, "ok")
}

func (p *probe) window(w *Width, s, e uint64) {
	var t table.Table
	l := labels.Set{"a": "b"}
	p.step(fmt.Sprintf("table%d.New(%d,%d)", w.B, s, e), 0, func() string { t = w.NewTable(s, e); return "ok" }, "ok")
	find := func() string { return idOr(t.FindFree()) }
	cf := func() string {
		e, err := t.ClaimFree(l)
		if err != nil {
			return "error"
		}
		return num(e.ID().ID())
	}
	p.step("FindFree", 1, find, num(s))
	p.step("ClaimFree", 1, cf, num(s))
	p.step("ClaimFree", 1, cf, num(s+1))
	p.step("Claim(start+3)", 1, func() string { return okErr(t.Claim(s+3, l)) }, "ok")
	p.step("Claim(end)", 1, func() string { return okErr(t.Claim(e, l)) }, "ok")
	p.claimed += 4
	p.single(e, t.Has, func(id uint64) error { return t.Claim(id, l) }, t.Release, func(id uint64) error { return t.Update(id, l) }, t.IsFree,
		func(id uint64) error { _, err := t.Get(id); return err })
	p.step("ClaimFree", 1, cf, num(s+2))
	p.step("ClaimFree", 1, cf, num(s+4))
	p.claimed += 2
	for i := 0; i < 300; i++ {
		if _, err := t.ClaimFree(l); err != nil {
			p.Viol = append(p.Viol, "ClaimFree failed: "+err.Error())
			break
		}
	}
	p.claimed += 300
	p.step("FindFree", 1, find, num(s+305))
	p.step("Release(start+1)", 0, func() string { return okErr(t.Release(s + 1)) }, "ok")
	p.step("FindFree", 1, find, num(s+1))
	n := 3000
	if w.B == 16 {
		n = 60000
	}
	p.claimed-- // start+1 stays free: each search ends after one step
	list := func() {
		p.step("GetAll", 0, func() string { return num(uint64(len(t.GetAll()))) }, num(p.claimed))
		p.step("GetByLabel", 0, func() string { return num(uint64(len(t.GetByLabel(labels.Everything())))) }, num(p.claimed))
		p.step("GetByLabel nothing", 0, func() string { return num(uint64(len(t.GetByLabel(labels.Nothing())))) }, "0")
		p.step("Size", 0, func() string { return fmt.Sprint(t.Size()) }, num(p.claimed))
	}
	list()
	p.step(fmt.Sprintf("FindFree, ClaimFree, Release x%d", n), uint64(2*n)+uint64(n/2)*p.claimed/8, func() string {
		for i := 0; i < n; i++ {
			if id, err := t.FindFree(); err != nil || id != s+1 {
				return fmt.Sprint("FindFree = ", id, err)
			}
			if i%4 == 0 {
				if _, err := t.ClaimFree(l); err != nil {
					return err.Error()
				}
				if err := t.Release(s + 1); err != nil {
					return err.Error()
				}
			}
		}
		return "ok"
	}, "ok")
	many := 40000
	if e-s < 100000 {
		many = 20000
	}
	far := e - uint64(many) - 40
	p.step(fmt.Sprintf("Claim x%d far up", many), uint64(many), func() string {
		for i := 0; i < many; i++ {
			if err := t.Claim(far+uint64(i), l); err != nil {
				return err.Error()
			}
		}
		return "ok"
	}, "ok")
	p.claimed += uint64(many)
	list()
	p.step("ClaimFree", 1, cf, num(s+1))
	p.claimed++
	p.step("Release, Update, Claim x600", 700*p.claimed/8, func() string {
		for i := uint64(0); i < 600; i++ {
			id := far + 7*i
			if err := t.Release(id); err != nil {
				return err.Error()
			}
			if err := t.Claim(id, l); err != nil {
				return err.Error()
			}
			if err := t.Update(id, l); err != nil {
				return err.Error()
			}
		}
		return "ok"
	}, "ok")
	p.step("FindFree", 1, find, num(s+305))
}

func (p *probe) pool(from, to string) {
	var t iptable.IPTable
	f, e := netip.MustParseAddr(from), netip.MustParseAddr(to)
	p.step(fmt.Sprintf("iptable.New(%s,%s)", from, to), 0, func() string { t = iptable.New(f, e); return "ok" }, "ok")
	rt := rtable.NewRoute(netip.PrefixFrom(f, f.BitLen()), labels.Set{"a": "b"}, nil)
	find := func() string {
		a, err := t.FindFree()
		if err != nil {
			return "error"
		}
		return a.String()
	}
	p.step("FindFree", 1, find, f.String())
	claim := func(s string) {
		p.step("Claim("+s+")", 1, func() string { return okErr(t.Claim(s, rt)) }, "ok")
		p.claimed++
	}
	claim(f.String())
	claim(f.Next().String())
	claim(e.String())
	p.step("FindFree", 1, find, f.Next().Next().String())
	p.step("Has(end)", 0, func() string { return fmt.Sprint(t.Has(to)) }, "true")
	p.step("IsFree(end-1)", 0, func() string { return fmt.Sprint(t.IsFree(e.Prev().String())) }, "true")
	p.step("Get(end)", 0, func() string { _, err := t.Get(to); return okErr(err) }, "ok")
	p.step("Update(end)", 0, func() string { return okErr(t.Update(to, rt)) }, "ok")
	p.step("Claim(end) again", 1, func() string { return okErr(t.Claim(to, rt)) }, "error")
	p.step("Release(end)", 0, func() string { return okErr(t.Release(to)) }, "ok")
	p.claimed--
	for i := 0; i < 300; i++ {
		a, err := t.FindFree()
		if err == nil {
			err = t.Claim(a.String(), rt)
		}
		if err != nil {
			p.Viol = append(p.Viol, "claiming the free address failed: "+err.Error())
			break
		}
	}
	p.claimed += 300
	claim(e.String())
	claim(e.Prev().Prev().String())
	claim(addrAdd(f, new(big.Int).Rsh(new(big.Int).Sub(ipInt(e), ipInt(f)), 1)).String())
	list := func() {
		p.step("GetAll", 0, func() string { return num(uint64(len(t.GetAll()))) }, num(p.claimed))
		p.step("GetByLabel", 0, func() string { return num(uint64(len(t.GetByLabel(labels.Everything())))) }, num(p.claimed))
		p.step("GetByLabel nothing", 0, func() string { return num(uint64(len(t.GetByLabel(labels.Nothing())))) }, "0")
		p.step("Size", 0, func() string { return fmt.Sprint(t.Size()) }, num(p.claimed))
	}
	list()
	const many = 40000
	p.step(fmt.Sprintf("Claim x%d far up", many), many, func() string {
		a := addrAdd(e, big.NewInt(-3-2*many))
		for i := 0; i < many; i++ {
			if err := t.Claim(a.String(), rt); err != nil {
				return err.Error()
			}
			a = a.Next()
		}
		return "ok"
	}, "ok")
	p.claimed += many
	list()
	p.step("Release(start)", 0, func() string { return okErr(t.Release(f.String())) }, "ok")
	p.step("FindFree", 1, find, f.String())
	p.step("FindFree x3000", 3000, func() string {
		for i := 0; i < 3000; i++ {
			t.FindFree()
		}
		return "ok"
	}, "ok")
}

func ipInt(a netip.Addr) *big.Int {
	b := a.As16()
	return new(big.Int).SetBytes(b[:])
}

type scenario struct {
	name string
	f    func(p *probe, rng *rand.Rand)
}

func scenarios() []scenario {
	var out []scenario
	for _, n := range []uint64{1 << 24, 1 << 28, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64} {
		out = append(out, scenario{fmt.Sprintf("idxtable-%d", n), func(p *probe, rng *rand.Rand) { p.idx(n, rng) }})
	}
	if hasMax {
		out = append(out, scenario{"idxtable-2^64", func(p *probe, rng *rand.Rand) { p.idx(0, rng) }})
	}
	win := func(w *Width, s, e uint64) {
		out = append(out, scenario{fmt.Sprintf("table%d-%d-%d", w.B, s, e), func(p *probe, _ *rand.Rand) { p.window(w, s, e) }})
	}
	win(widths[0], 0, 65535)
	win(widths[0], 1, 65535)
	win(widths[0], 1000, 65000)
	win(widths[1], 0, 1<<32-1)
	win(widths[1], 1, 1<<32-1)
	win(widths[1], 5, 1<<31)
	win(widths[1], 1<<31-3, 1<<32-9)
	win(widths[1], 1000, 1<<28)
	win(widths[2], 0, math.MaxUint64)
	win(widths[2], 1, math.MaxUint64)
	win(widths[2], 1<<63-5, math.MaxUint64-1)
	win(widths[2], 17, 1<<63)
	win(widths[2], 1<<32, 1<<34)
	win(widths[2], 0, 1<<32)
	for _, a := range [][2]string{
		{"0.0.0.0", "255.255.255.255"}, {"10.0.0.0", "10.255.255.255"}, {"1.0.0.1", "223.255.255.255"},
		{"2001:db8::", "2001:db8::ffff:ffff:ffff:ffff"}, {"2001:db8:0:1::", "2001:db8:0:1:ffff:ffff:ffff:ffff"},
		{"2001:db8::1", "2001:db8::ffff:ffff:ffff:fffe"}, {"2001:db8::", "2001:db8::7fff:ffff:ffff:ffff"}, {"2001:db8::", "2001:db8::8000:0:0:0"},
		{"2001:db8::ffff:0:0", "2001:db8::1:0:0:0"}, {"fe80::", "fe80::ff:ffff:ffff"}, {"2001:db8::ffff:ffff:ffff:fff0", "2001:db8:0:1:7000::"},
	} {
		out = append(out, scenario{"iptable-" + a[0] + "-" + a[1], func(p *probe, _ *rand.Rand) { p.pool(a[0], a[1]) }})
	}
	return out
}

// childMain runs one scenario under its own limits and prints what it measured.
func childMain(r *Run, name string) {
	setLimit(syscall.RLIMIT_AS, childAS)
	xcpu := make(chan os.Signal, 1)
	signal.Notify(xcpu, syscall.SIGXCPU) // the Go runtime ignores it otherwise
	go func() {
		<-xcpu
		fmt.Fprintln(os.Stderr, "SIGXCPU")
		os.Exit(7)
	}()
	setLimit(syscall.RLIMIT_CPU, childCPU)
	for _, s := range scenarios() {
		if s.name == name {
			p := &probe{}
			s.f(p, rand.New(rand.NewPCG(r.Seed, hashStr(name))))
			b, _ := json.Marshal(p)
			fmt.Println(string(b))
			return
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	os.Exit(9)
}

func setLimit(what int, n uint64) {
	var l syscall.Rlimit
	if syscall.Getrlimit(what, &l) == nil {
		if n < l.Cur {
			l.Cur = n
		}
		if what == syscall.RLIMIT_CPU && n+5 < l.Max {
			l.Max = n + 5 // SIGKILL, should the handler of the soft limit not get to run
		}
		syscall.Setrlimit(what, &l)
	}
}

func checkC08(r *Run) {
	r.rule = fmt.Sprintf("a case is one large object (index tables of 2^24..2^64-1 ids, full and partial 16/32/64-bit windows, IPv4 and IPv6 pools up to /64) driven through a fixed series of construction, search and allocation calls in a child process limited to %d MB of address space and %d s of CPU; every call may allocate at most %d KB plus %d KB per id claimed or requested and must have the expected result. Non-trivial: all calls completed.", childAS>>20, childCPU, perOpBase>>10, perID>>10)
	r.assume = append(r.assume, "the bounds are constants with two orders of magnitude of slack over what the calls need; work is judged by the CPU limit of the child (30 s for calls that need well under one)")
	r.first = true // a violation costs the whole CPU allowance of a child
	sc := scenarios()
	self, err := os.Executable()
	if err != nil {
		r.Inconclusive("cannot find own executable: %v", err)
		return
	}
	r.each("huge", len(sc)*r.N(1, 8), 6, func(c *Case, i int) {
		s := sc[i%len(sc)]
		c.key = "huge:" + s.name
		c.Op("%s", s.name)
		c.Mix(uint64(i))
		cmd := exec.Command(self, "-child", s.name, "-seed", fmt.Sprint(r.Seed+uint64(i)))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		done := make(chan struct{})
		go func() { // waiting for a child is progress: its own limits end it
			for {
				select {
				case <-done:
					return
				default:
					r.beats.Add(1)
					sleepMs(500)
				}
			}
		}()
		err := cmd.Run()
		close(done)
		txt := errb.String()
		last := ""
		for _, l := range strings.Split(txt, "\n") {
			if strings.HasPrefix(l, "step:") {
				last = strings.TrimSpace(l[5:])
			}
		}
		if err != nil {
			switch {
			case strings.Contains(txt, "out of memory") || strings.Contains(txt, "cannot allocate memory"):
				c.Fail("%s: %s ran out of the %d MB the process may use", s.name, last, childAS>>20)
			case strings.Contains(txt, "SIGXCPU") || cmd.ProcessState != nil && cmd.ProcessState.UserTime()+cmd.ProcessState.SystemTime() >= childCPU*time.Second:
				c.Fail("%s: %s used more than %d s of CPU", s.name, last, childCPU)
			case strings.Contains(txt, libFrame):
				c.Fail("%s: %s crashed: %s", s.name, last, trunc(txt[strings.LastIndex(txt, "step:"):], 6000))
			default:
				r.Inconclusive("child %s: %v %s", s.name, err, trunc(txt, 1500))
				return
			}
		}
		var p probe
		if e := json.Unmarshal(out.Bytes(), &p); e != nil {
			r.Inconclusive("child %s: no result: %v %s", s.name, e, trunc(txt, 1500))
			return
		}
		c.ops += p.Ops
		c.trace = p.Steps
		c.Check(len(p.Viol) == 0, "%s: %s", s.name, strings.Join(p.Viol, "; "))
		r.Max("largest_allocation_of_one_call_bytes", int64(p.MaxBytes))
		c.Nontrivial()
	})
}
