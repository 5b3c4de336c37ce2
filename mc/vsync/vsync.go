// Package vsync replaces package sync in instrumented code: the same API, with every operation a
// scheduling point of package vsched. Without an active scheduler (set-up, tests over real sockets) the
// operations are real ones, made of one lock and one condition variable.
package vsync

import (
	"sync"
	"time"
	"unsafe"

	"kverif/vsched"
)

type Locker = sync.Locker

var (
	offMu   sync.Mutex
	offCond = sync.NewCond(&offMu)
)

func offDo(f func()) {
	offMu.Lock()
	defer offMu.Unlock()
	defer offCond.Broadcast()
	f()
}

// offWait waits for ready. Harnesses that run code without a scheduler do not block for long.
func offWait(what string, ready func() bool, then func()) {
	offMu.Lock()
	defer offMu.Unlock()
	if !ready() {
		late := false
		t := time.AfterFunc(30*time.Second, func() { offDo(func() { late = true }) })
		defer t.Stop()
		for !ready() {
			if late {
				panic("vsync: " + what + " blocked for 30 s outside of a scheduled execution")
			}
			offCond.Wait()
		}
	}
	then()
	offCond.Broadcast()
}

type Pool = sync.Pool

type Mutex struct {
	locked bool
}

//go:norace
func (m *Mutex) Lock() {
	if vsched.Offline() {
		offWait("lock", func() bool { return !m.locked }, func() { m.locked = true })
		return
	}
	vsched.Block("lock", func() bool { return !m.locked })
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() (ok bool) {
	if vsched.Offline() {
		offDo(func() {
			ok = !m.locked
			m.locked = true
		})
		return
	}
	vsched.Op("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if vsched.Offline() {
		offDo(func() {
			if !m.locked {
				panic("sync: unlock of unlocked mutex")
			}
			m.locked = false
		})
		return
	}
	vsched.Op("unlock")
	if !m.locked {
		if vsched.TornDown() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	vsched.RaceRelease(unsafe.Pointer(m))
	m.locked = false
}

// RWMutex prefers writers like sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
	r, w    byte
}

//go:norace
func (m *RWMutex) Lock() {
	if vsched.Offline() {
		offDo(func() { m.waiting++ })
		offWait("wlock", func() bool { return !m.writer && m.readers == 0 }, func() {
			m.waiting--
			m.writer = true
		})
		return
	}
	m.waiting++
	vsched.Block("wlock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	vsched.RaceAcquire(unsafe.Pointer(&m.r))
	vsched.RaceAcquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) TryLock() (ok bool) {
	if vsched.Offline() {
		offDo(func() {
			if ok = !m.writer && m.readers == 0; ok {
				m.writer = true
			}
		})
		return
	}
	vsched.Op("trywlock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.RaceAcquire(unsafe.Pointer(&m.r))
	vsched.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if vsched.Offline() {
		offDo(func() {
			if !m.writer {
				panic("sync: Unlock of unlocked RWMutex")
			}
			m.writer = false
		})
		return
	}
	vsched.Op("wunlock")
	if !m.writer {
		if vsched.TornDown() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.w))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if vsched.Offline() {
		offWait("rlock", func() bool { return !m.writer && m.waiting == 0 }, func() { m.readers++ })
		return
	}
	vsched.Op("rlock?")
	vsched.Block("rlock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) TryRLock() (ok bool) {
	if vsched.Offline() {
		offDo(func() {
			if ok = !m.writer && m.waiting == 0; ok {
				m.readers++
			}
		})
		return
	}
	vsched.Op("tryrlock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vsched.Offline() {
		offDo(func() {
			if m.readers <= 0 {
				panic("sync: RUnlock of unlocked RWMutex")
			}
			m.readers--
		})
		return
	}
	vsched.Op("runlock")
	if m.readers <= 0 {
		if vsched.TornDown() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.r))
	m.readers--
}

type rlocker RWMutex

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	b byte
}

//go:norace
func (wg *WaitGroup) Add(d int) {
	if vsched.Offline() {
		offDo(func() {
			if wg.n += d; wg.n < 0 {
				panic("sync: negative WaitGroup counter")
			}
		})
		return
	}
	vsched.Op("wg.add")
	if d < 0 {
		vsched.RaceReleaseMerge(unsafe.Pointer(&wg.b))
	}
	wg.n += d
	if wg.n < 0 && !vsched.TornDown() {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (wg *WaitGroup) Done() { wg.Add(-1) }

//go:norace
func (wg *WaitGroup) Wait() {
	if vsched.Offline() {
		offWait("wg.wait", func() bool { return wg.n <= 0 }, func() {})
		return
	}
	vsched.Block("wg.wait", func() bool { return wg.n <= 0 })
	vsched.RaceAcquire(unsafe.Pointer(&wg.b))
}

//go:norace
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vsched.Go(func() {
		defer wg.Done()
		f()
	})
}

// Cond: Wait queues the caller, releases L and blocks until signalled.
type Cond struct {
	L     Locker
	queue [48]*condWaiter
	n     int
	b     byte
}

type condWaiter struct{ woken bool }

//go:norace
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWaiter{}
	if vsched.Offline() {
		offDo(func() {
			if c.n == len(c.queue) {
				panic("vsync: too many waiters")
			}
			c.queue[c.n] = w
			c.n++
		})
		c.L.Unlock()
		offWait("cond.wait", func() bool { return w.woken }, func() {})
		c.L.Lock()
		return
	}
	if c.n < len(c.queue) {
		c.queue[c.n] = w
		c.n++
	} else {
		panic("vsync: too many waiters")
	}
	c.L.Unlock()
	vsched.Block("cond.wait", func() bool { return w.woken })
	vsched.RaceAcquire(unsafe.Pointer(&c.b))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if vsched.Offline() {
		offDo(func() {
			if c.n > 0 {
				c.queue[0].woken = true
				copy(c.queue[:], c.queue[1:c.n])
				c.n--
			}
		})
		return
	}
	vsched.Op("cond.signal")
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.b))
	if c.n > 0 {
		c.queue[0].woken = true
		for i := 1; i < c.n; i++ {
			c.queue[i-1] = c.queue[i]
		}
		c.n--
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if vsched.Offline() {
		offDo(func() {
			for i := 0; i < c.n; i++ {
				c.queue[i].woken = true
			}
			c.n = 0
		})
		return
	}
	vsched.Op("cond.broadcast")
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.b))
	for i := 0; i < c.n; i++ {
		c.queue[i].woken = true
	}
	c.n = 0
}

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	if vsched.Offline() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	vsched.Op("once")
	if o.done {
		vsched.RaceAcquire(unsafe.Pointer(&o.m))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

//go:norace
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

//go:norace
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Map is sync.Map with a scheduling point before each operation.
type Map struct{ m sync.Map }

//go:norace
func (m *Map) Load(k any) (any, bool) { vsched.Op("map.load"); return m.m.Load(k) }

//go:norace
func (m *Map) Store(k, v any) { vsched.Op("map.store"); m.m.Store(k, v) }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Op("map.los"); return m.m.LoadOrStore(k, v) }

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) { vsched.Op("map.lad"); return m.m.LoadAndDelete(k) }

//go:norace
func (m *Map) Delete(k any) { vsched.Op("map.del"); m.m.Delete(k) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) { vsched.Op("map.swap"); return m.m.Swap(k, v) }

//go:norace
func (m *Map) CompareAndSwap(k, a, b any) bool {
	vsched.Op("map.cas")
	return m.m.CompareAndSwap(k, a, b)
}

//go:norace
func (m *Map) CompareAndDelete(k, a any) bool {
	vsched.Op("map.cad")
	return m.m.CompareAndDelete(k, a)
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) { vsched.Op("map.range"); m.m.Range(f) }

//go:norace
func (m *Map) Clear() {
	vsched.Op("map.clear")
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
