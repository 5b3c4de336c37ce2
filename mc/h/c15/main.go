// C15: the asynchronous job queue under every interleaving of dispatchers, workers and stop.
package main

import (
	"fmt"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/vsched"
)

// mon observes the jobs. Only one thread runs at a time; the monitor is compiled into harness code,
// whose accesses are not instrumented.
type mon struct {
	x                 *vsched.X
	size, conc        int
	began             [32]bool // dispatch called
	ok, refused       [32]bool // dispatch returned
	started, finished [32]int
	running           int
	maxRun            int
	stopped           bool
	gate              bool
	n                 int
	q                 *provider.VQueue
}

func (m *mon) startedTotal() (n int) {
	for i := range m.started {
		n += m.started[i]
	}
	return
}

// job i; points: scheduling points inside; wait: needs the gate.
func (m *mon) job(i, points int, wait bool, inner func()) func() {
	return func() {
		m.started[i]++
		if m.started[i] > 1 {
			m.x.Fail("job %d executed more than once", i)
		}
		if !m.began[i] {
			m.x.Fail("job %d executed before it was dispatched", i)
		}
		if m.refused[i] {
			m.x.Fail("job %d executed although it was refused", i)
		}
		if m.stopped {
			m.x.Fail("job %d started after stop returned", i)
		}
		m.running++
		if m.running > m.maxRun {
			m.maxRun = m.running
		}
		if m.running > m.conc {
			m.x.Fail("%d jobs run at a time, configured are %d", m.running, m.conc)
		}
		for k := 0; k < points; k++ {
			vsched.Op("job")
		}
		if inner != nil {
			inner()
		}
		if wait {
			vsched.Block("job gate", func() bool { return m.gate })
		}
		if m.stopped {
			m.x.Fail("job %d still running after stop returned", i)
		}
		m.running--
		m.finished[i]++
	}
}

func (m *mon) dispatch(i, points int, wait bool, inner func()) {
	begunBefore, started0 := 0, m.startedTotal()
	_ = begunBefore
	m.began[i] = true
	err := m.q.Dispatch(m.job(i, points, wait, inner))
	switch {
	case err == nil:
		m.ok[i] = true
	case provider.VIsQueueFull(err):
		m.refused[i] = true
		if m.started[i] > 0 {
			m.x.Fail("job %d refused but executed", i)
		}
		// The buffer can have held at most the dispatches begun and not refused, less the jobs
		// already started when this dispatch began.
		n := 0
		for j := range m.began {
			if m.began[j] && !m.refused[j] && j != i {
				n++
			}
		}
		if n-started0 < m.size {
			m.x.Fail("job %d refused although at most %d of %d buffer slots were taken", i, n-started0, m.size)
		}
	default:
		m.x.Fail("dispatch failed with %v", err)
	}
}

func (m *mon) outcome() {
	s := ""
	for i := 0; i < m.n; i++ {
		c := "-"
		switch {
		case m.ok[i] && m.finished[i] == 1:
			c = "R"
		case m.ok[i]:
			c = "a"
		case m.refused[i]:
			c = "x"
		}
		s += c
	}
	m.x.Outcome("%s max=%d", s, m.maxRun)
}

func scenario(size, conc int, producers []int, points int, bound int, plain, race bool) lib.Scenario {
	name := fmt.Sprintf("run size=%d workers=%d producers=%v points=%d bound=%d plain=%v", size, conc, producers, points, bound, plain)
	return lib.Scenario{Name: name, Plain: plain, Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		m := &mon{x: x, size: size, conc: conc}
		m.q = provider.VNewQueue(size, conc)
		id := 0
		for p, n := range producers {
			first := id
			id += n
			n := n
			x.Go(fmt.Sprint("producer", p), func() {
				for k := 0; k < n; k++ {
					m.dispatch(first+k, points, false, nil)
				}
			})
		}
		m.n = id
		x.Wait()
		x.Settle()
		for i := 0; i < id; i++ {
			if m.ok[i] && m.finished[i] != 1 {
				x.Fail("accepted job %d executed %d times", i, m.finished[i])
			}
			if !m.ok[i] && !m.refused[i] {
				x.Fail("dispatch of job %d neither accepted nor refused", i)
			}
		}
		m.outcome()
	}}
}

// all workers blocked: dispatching must not block; afterwards everything accepted runs.
func blocked(size, conc, n, bound int) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("blocked workers size=%d workers=%d jobs=%d bound=%d", size, conc, n, bound), Race: true,
		Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
			m := &mon{x: x, size: size, conc: conc, n: n}
			m.q = provider.VNewQueue(size, conc)
			done := false
			x.Go("producer", func() {
				for i := 0; i < n; i++ {
					m.dispatch(i, 0, true, nil)
				}
				done = true
			})
			x.Wait() // a dispatch that blocks shows up as a deadlock
			x.Settle()
			if !done {
				x.Fail("dispatch blocked")
			}
			m.gate = true
			x.Settle()
			for i := 0; i < n; i++ {
				if m.ok[i] && m.finished[i] != 1 {
					x.Fail("accepted job %d executed %d times", i, m.finished[i])
				}
			}
			m.outcome()
		}}
}

// stop concurrent with producers; jobs may dispatch further jobs.
func stop(size, conc, before, during int, nested bool, bound int, plain bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("stop size=%d workers=%d before=%d during=%d nested=%v bound=%d plain=%v", size, conc, before, during, nested, bound, plain),
		Race: true, Plain: plain, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
			m := &mon{x: x, size: size, conc: conc, n: before + during}
			m.q = provider.VNewQueue(size, conc)
			for i := 0; i < before; i++ {
				m.dispatch(i, 1, false, nil)
			}
			if during > 0 {
				x.Go("producer", func() {
					for i := before; i < before+during; i++ {
						m.dispatch(i, 1, false, nil)
					}
				})
			}
			if nested {
				m.n++
				k := before + during
				x.Go("nested", func() {
					m.dispatch(k, 0, false, func() {
						m.n = k + 2
						m.dispatch(k+1, 0, false, nil)
					})
				})
			}
			x.Go("stopper", func() {
				m.q.Stop()
				if m.running != 0 {
					x.Fail("stop returned while %d jobs were running", m.running)
				}
				m.stopped = true
			})
			x.Wait()
			x.Settle()
			// dispatching after stop must not block or crash
			m.n++
			m.dispatch(m.n-1, 0, false, nil)
			x.Settle()
			if x.Live() != 0 {
				x.Fail("%d worker(s) still alive after stop", x.Live())
			}
			m.outcome()
		}}
}

// item is a value to be stored.
type item struct {
	n   int
	ttl time.Duration
}

// store drives the Redis client's asynchronous stores, directly and through the cache, plain and
// layered. The backend stalls; no store may wait for it.
func store(size, conc, maxItem int, producers [][]item, via string, stopAt bool, bound int) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("stores size=%d workers=%d max_item=%d producers=%v via=%s stop=%v bound=%d", size, conc, maxItem, producers, via, stopAt, bound),
		Race: false, Cfg: vsched.Config{Bound: bound, Delay: stopAt}, Body: func(x *vsched.X) {
			srv := fakeredis.New()
			cl := srv.Client(provider.RedisClientConfig{MaxItemSize: maxItem, MaxQueueBufferSize: size, MaxQueueConcurrency: conc})
			gate, stopped, running, began := false, false, 0, map[string]int{}
			srv.Before = func(name string, args []any) {
				running++
				if running > conc {
					x.Fail("%d commands run at a time, configured are %d workers", running, conc)
				}
				if stopped {
					x.Fail("%s sent after stop returned", name)
				}
				if len(args) > 1 {
					began[fmt.Sprint(name, " ", args[1])]++
				}
				vsched.Block("stalled backend", func() bool { return gate })
				if stopped {
					x.Fail("%s still running after stop returned", name)
				}
				running--
			}
			var p provider.Provider = provider.NewRedisCache("r", cl)
			if via == "layered" {
				var err error
				if p, err = provider.NewCached(p, "l", time.Minute, provider.InMemoryCacheConfig{MaxSize: 1 << 24, MaxItemSize: 1 << 23}); err != nil {
					panic(err)
				}
			}
			res := map[string]string{}
			items := map[string]item{}
			for i, l := range producers {
				x.Go(fmt.Sprint("producer", i), func() {
					for j, it := range l {
						k := fmt.Sprintf("k%d.%d", i, j)
						items[k] = it
						res[k] = "?"
						if via != "client" {
							p.Set(k, make([]byte, it.n), it.ttl)
							continue
						}
						if err := cl.StoreAsync(k, make([]byte, it.n), it.ttl); err != nil {
							res[k] = "refused"
						} else {
							res[k] = "accepted"
						}
					}
				})
			}
			if stopAt {
				x.Go("stopper", func() {
					cl.Stop()
					stopped = true
				})
				x.Go("backend", func() { vsched.Op("backend goes on"); gate = true })
			}
			x.Wait() // a store that waits for the backend shows up as a deadlock
			x.Settle()
			gate = true
			x.Settle()
			o := ""
			for i, l := range producers {
				for j := range l {
					k := fmt.Sprintf("k%d.%d", i, j)
					it, r, n, d := items[k], res[k], began["set "+k], began["del "+k]
					whole := it.ttl > 0 && (maxItem == 0 || it.n <= maxItem)
					switch {
					case n+d > 1:
						x.Fail("store of %s (%+v) executed %d times", k, it, n+d)
					case r == "refused" && n+d > 0:
						x.Fail("store of %s (%+v) refused but executed", k, it)
					case !whole && n > 0:
						x.Fail("store of %s (%+v) sent although it must not be kept", k, it)
					case r == "accepted" && whole && n != 1 && !stopAt:
						x.Fail("store of %s (%+v) accepted but not executed", k, it)
					case r == "?" && len(items) <= size && whole && n != 1 && !stopAt:
						x.Fail("store of %s (%+v) not executed although the buffer has room for all", k, it)
					}
					o += fmt.Sprint(n, d, " ")
				}
			}
			x.Outcome("%s", o)
			if !stopAt {
				cl.Stop()
			}
		}}
}

func main() {
	lib.Alphabet = "dispatch from 1-3 producers (1-3 jobs each), jobs that yield, block or dispatch, stop at any point, dispatch after stop; buffer 0-3, workers 1-3; asynchronous stores of values of 0 bytes to 1.5 MiB (also too large ones and expired ones) by the Redis client, plain and layered, while the backend stalls"
	lib.Assumptions = []string{"Go's select picks any ready case (both are explored)", "at most the stated number of deviations from the default schedule (preemptions) per execution"}
	lib.Main("C15", 60*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		b := 3
		bp := 2
		if c.Thorough {
			b, bp = 5, 3
		}
		lib.Bounds["preemptions"] = b
		lib.Bounds["preemptions_statement_level"] = bp
		scs := []lib.Scenario{
			scenario(2, 1, []int{2, 2}, 1, b, false, true),
			scenario(1, 2, []int{2, 2}, 1, b, false, true),
			scenario(0, 1, []int{2, 1}, 1, b, false, false),
			scenario(1, 1, []int{1, 1, 1}, 0, b, false, false),
			scenario(3, 2, []int{3}, 1, b, false, false),
			scenario(2, 2, []int{2, 1}, 0, bp, true, false),
			blocked(1, 1, 4, b),
			blocked(2, 2, 5, b),
			blocked(0, 2, 3, b),
			stop(2, 1, 1, 1, false, b, false),
			stop(2, 2, 2, 1, false, b, false),
			stop(1, 1, 1, 0, true, b, false),
			stop(1, 2, 0, 2, true, b-1, false),
			stop(2, 1, 1, 1, false, bp, true),
		}
		const big = 3 << 19
		h := time.Hour
		scs = append(scs,
			store(3, 1, 0, [][]item{{{10, h}, {70000, h}}, {{big, h}}}, "client", false, b),
			store(3, 2, 1<<20, [][]item{{{0, h}, {big, h}}, {{70000, h}}}, "client", false, b),
			store(1, 1, 0, [][]item{{{10, h}, {70000, h}}, {{10, 0}, {big, h}}}, "client", false, b),
			store(4, 1, 0, [][]item{{{10, h}, {70000, h}}, {{big, h}, {1, time.Millisecond}}}, "cache", false, b-1),
			store(1, 1, 0, [][]item{{{10, h}, {70000, h}}, {{big, h}, {1 << 10, h}}}, "layered", false, b-1),
			store(4, 2, 0, [][]item{{{10, 0}, {70000, 0}}, {{big, -h}, {1, h}}}, "layered", false, b-1),
			store(2, 1, 0, [][]item{{{10, h}, {70000, h}}}, "client", true, b-1),
			store(1, 2, 0, [][]item{{{10, h}}, {{70000, h}, {10, 0}}}, "layered", true, b),
		)
		if c.Thorough {
			scs = append(scs, scenario(3, 3, []int{3, 3}, 1, 4, false, false), stop(3, 3, 3, 2, true, 4, false), blocked(3, 3, 8, 4))
		}
		c.RunScenarios(p, scs)
	})
}
