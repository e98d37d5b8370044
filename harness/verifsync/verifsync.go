// Package verifsync stands in for "sync" in instrumented builds of the library (see harness/instrument). It behaves
// exactly like sync, and
//   - chaos: yields or sleeps around lock operations so that windows between critical sections are hit often. It uses no
//     shared memory or atomics of its own, so it adds no happens-before edges that could hide a race from the detector;
//   - track: records which goroutine holds which lock; when a goroutine asks for a read lock it already holds, it is
//     delayed until a writer queues up (bounded), so a latent nested-read-lock deadlock becomes a real one;
//   - count: plain event counters (not used in race builds).
package verifsync

import (
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type (
	Locker    = sync.Locker
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond                                   { return sync.NewCond(l) }
func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

var (
	chaos = os.Getenv("VERIF_SHIM_CHAOS") != ""
	track = os.Getenv("VERIF_SHIM_TRACK") != ""
)

// Counters, only maintained in track mode.
var (
	LockOps       atomic.Int64
	NestedRLocks  atomic.Int64
	NestedDelayed atomic.Int64
	WriterWaited  atomic.Int64
	SecondLocks   atomic.Int64
)

func disturb() {
	if !chaos {
		return
	}
	switch v := rand.Uint32() & 63; {
	case v < 20:
		runtime.Gosched()
	case v < 24:
		for i := 0; i < 4; i++ {
			runtime.Gosched()
		}
	case v == 24:
		time.Sleep(time.Duration(1+rand.Uint32()&31) * time.Microsecond)
	}
}

// Point stands before every statement of the instrumented library and, with chaos, sometimes lets others run. It keeps no
// state and takes no lock, so it orders nothing.
func Point() {
	if !chaos {
		return
	}
	switch v := rand.Uint32(); {
	case v&15 == 0:
		runtime.Gosched()
	case v&1023 == 1:
		time.Sleep(time.Duration(1+v>>10&15) * time.Microsecond)
	}
}

func getg() uintptr

func gid() uintptr { return getg() }

// depth counts, in track mode, how many locks a goroutine holds (an upper bound is enough: a lock released by another
// goroutine only makes later acquisitions a little slower).
var (
	depthMu sync.Mutex
	depth   = map[uintptr]int{}
)

// dawdle pauses a goroutine that is about to take a second lock, so that two goroutines taking the same two locks in
// opposite orders meet.
func dawdle() {
	g := gid()
	depthMu.Lock()
	d := depth[g]
	depthMu.Unlock()
	if d > 0 {
		SecondLocks.Add(1)
		time.Sleep(time.Duration(rand.Uint32()&63) * time.Microsecond)
	}
}

func held(n int) {
	g := gid()
	depthMu.Lock()
	if depth[g] += n; depth[g] <= 0 {
		delete(depth, g)
	}
	depthMu.Unlock()
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	disturb()
	if track {
		LockOps.Add(1)
		dawdle()
		m.mu.Lock()
		held(1)
		return
	}
	m.mu.Lock()
	disturb()
}
func (m *Mutex) TryLock() bool {
	ok := m.mu.TryLock()
	if track && ok {
		held(1)
	}
	return ok
}
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if track {
		held(-1)
	}
	disturb()
}

type RWMutex struct {
	mu      sync.RWMutex
	waiting atomic.Int32
	hm      sync.Mutex
	holders map[uintptr]int
}

func (m *RWMutex) Lock() {
	disturb()
	if track {
		LockOps.Add(1)
		dawdle()
		if !m.mu.TryLock() {
			WriterWaited.Add(1)
			m.waiting.Add(1)
			m.mu.Lock()
			m.waiting.Add(-1)
		}
		held(1)
		return
	}
	m.mu.Lock()
	disturb()
}
func (m *RWMutex) TryLock() bool {
	ok := m.mu.TryLock()
	if track && ok {
		held(1)
	}
	return ok
}
func (m *RWMutex) TryRLock() bool {
	ok := m.mu.TryRLock()
	if track && ok {
		m.hold(gid(), 1)
		held(1)
	}
	return ok
}
func (m *RWMutex) hold(g uintptr, n int) {
	m.hm.Lock()
	if m.holders == nil {
		m.holders = map[uintptr]int{}
	}
	if m.holders[g] += n; m.holders[g] <= 0 {
		delete(m.holders, g)
	}
	m.hm.Unlock()
}
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if track {
		held(-1)
	}
	disturb()
}
func (m *RWMutex) RLock() {
	disturb()
	if track {
		LockOps.Add(1)
		g := gid()
		m.hm.Lock()
		nested := m.holders[g]
		m.hm.Unlock()
		if nested > 0 {
			// A nested read lock by the same goroutine: wait (bounded) for a writer to queue up, then go on and let the
			// real lock decide.
			NestedRLocks.Add(1)
			for i := 0; i < 400; i++ {
				if m.waiting.Load() > 0 {
					NestedDelayed.Add(1)
					time.Sleep(time.Millisecond) // let the queued writer get past TryLock into the real Lock
					break
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
		if nested == 0 {
			dawdle()
		}
		m.mu.RLock()
		m.hold(g, 1)
		held(1)
		disturb()
		return
	}
	m.mu.RLock()
	disturb()
}
func (m *RWMutex) RUnlock() {
	if track {
		m.hold(gid(), -1)
		held(-1)
	}
	m.mu.RUnlock()
	disturb()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
