// C27: nothing is left behind by a request.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"kverif/cosim"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

const s = time.Second

// request kinds.
type req struct {
	name, method, path string
	h                  http.Header
	body               string
	cancel             bool
}

var reqs = []req{
	{name: "GET", path: "/x"},
	{name: "no-cache", path: "/x", h: world.H("Cache-Control", "no-cache")},
	{name: "HEAD", method: "HEAD", path: "/x"},
	{name: "no-store", path: "/x", h: world.H("Cache-Control", "no-store")},
	{name: "authorization", path: "/x", h: world.H("Authorization", "Basic x")},
	{name: "POST", method: "POST", path: "/x", body: "payload"},
	{name: "range", path: "/x", h: world.H("Range", "bytes=0-3")},
	{name: "conditional", path: "/x", h: world.H("If-None-Match", `"a"`)},
	{name: "excluded path", path: "/ex/x"},
	{name: "cookie", path: "/x", h: world.H("Cookie", "a=b")},
	{name: "gone", path: "/x", cancel: true},
	{name: "GET with body", path: "/x", body: "payload"},
}

// ans is an answer of the origin.
type ans struct {
	name string
	st   int
	h    []string
	body string
	end  string // "", error, panic, broken
}

const text = "the body of the answer, which is not very long but long enough"

var answers = []ans{
	{name: "fresh", st: 200, h: []string{"Cache-Control: max-age=10", `Etag: "a"`}, body: text},
	{name: "no-store", st: 200, h: []string{"Cache-Control: no-store"}, body: text},
	{name: "304", st: 304, h: []string{"Cache-Control: max-age=10", `Etag: "a"`}},
	{name: "304 mismatch", st: 304, h: []string{`Etag: "b"`}},
	{name: "500", st: 500, body: text},
	{name: "error", end: "error"},
	{name: "broken", st: 200, h: []string{"Cache-Control: max-age=10"}, body: text, end: "broken"},
	{name: "panic", end: "panic"},
	{name: "excluded type", st: 200, h: []string{"Cache-Control: max-age=10", "Content-Type: video/mp4"}, body: text},
	{name: "too large", st: 200, h: []string{"Cache-Control: max-age=10"}, body: strings.Repeat(text, 40)},
	{name: "varies", st: 200, h: []string{"Cache-Control: max-age=10", "Vary: *"}, body: text},
	{name: "204", st: 204, h: []string{"Cache-Control: max-age=10"}},
	{name: "stale", st: 404, h: []string{"Cache-Control: max-age=0", `Etag: "a"`}, body: text},
	{name: "503", st: 503, h: []string{"Retry-After: 0"}, body: text},
	{name: "not found", st: 404, body: text},
	{name: "redirect", st: 302, h: []string{"Location: /y", "Cache-Control: max-age=10"}, body: text},
	{name: "private", st: 200, h: []string{"Cache-Control: private", "Set-Cookie: a=b"}, body: text},
}

// clients: how the answer is consumed.
var clients = []string{"reads", "closes", "reads a part"}

type step struct {
	Adv    int `json:"adv"`
	Req    int `json:"req"`
	Ans    int `json:"ans"`
	Client int `json:"client"`
}

func (t step) String() string {
	return fmt.Sprintf("after %ds %s, origin: %s, client %s", t.Adv, reqs[t.Req].name, answers[t.Ans].name, clients[t.Client])
}

type rep struct {
	Strict bool   `json:"strict"`
	Store  string `json:"store"`
	Steps  []step `json:"steps,omitempty"`
	Growth int    `json:"growth,omitempty"`
	Net    *nrep  `json:"net,omitempty"`
}

type body struct {
	r      io.Reader
	ended  bool
	closed bool
	broken bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.broken {
		err = io.ErrUnexpectedEOF
	}
	b.ended = b.ended || err != nil
	return n, err
}
func (b *body) Close() error { b.closed = true; return nil }

// reqBody is a request body that knows whether it was closed.
type reqBody struct {
	io.Reader
	closed bool
}

func (b *reqBody) Close() error { b.closed = true; return nil }

var errOrigin = errors.New("origin failed")

func store(kind string) provider.Provider {
	switch kind {
	case "layered":
		p, _ := fakeredis.New().Provider(true, 3*s, provider.InMemoryCacheConfig{MaxSize: 4000, MaxItemSize: 2000}, provider.RedisClientConfig{MaxItemSize: 2000})
		return p
	}
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 4000, MaxItemSize: 2000, DefaultTTL: "120s"})
	if err != nil {
		panic(err)
	}
	return p
}

var stores = map[string]provider.Provider{}

func open(kind string) provider.Provider {
	if stores[kind] == nil {
		stores[kind] = store(kind)
	}
	_ = stores[kind].Flush(context.Background())
	return stores[kind]
}

func config(strict bool) *cache.HttpCacheConfig {
	return &cache.HttpCacheConfig{Strict: strict, DefaultTTL: "60s", XCache: true, Exclude: &cache.Exclude{Path: []string{"^/ex"}, Content: []cache.Content{{Type: "video/.*"}}}}
}

// rig is a stack over an origin whose answers are tracked.
type rig struct {
	rt     http.RoundTripper
	cur    ans
	bodies []*body
	calls  int
}

func (g *rig) RoundTrip(r *http.Request) (*http.Response, error) {
	g.calls++
	if r.Body != nil {
		_, _ = io.Copy(io.Discard, r.Body)
		r.Body.Close()
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	switch g.cur.end {
	case "error":
		return nil, errOrigin
	case "panic":
		panic(errOrigin)
	}
	hs := append([]string{"Date: " + world.Date(world.Now())}, g.cur.h...)
	res, err := world.Parse(world.Raw(g.cur.st, g.cur.body, hs...), r)
	if err != nil {
		panic(err)
	}
	if res.Body != http.NoBody {
		b := &body{r: res.Body, broken: g.cur.end == "broken"}
		if b.broken {
			b.r = strings.NewReader(g.cur.body[:20])
		}
		g.bodies = append(g.bodies, b)
		res.Body = b
	}
	return res, nil
}

func newRig(strict bool, kind string) *rig {
	g := &rig{}
	g.rt = world.NewChainRT(config(strict), open(kind), g)
	return g
}

// do performs one request the way the reverse proxy does.
func (g *rig) do(t step, host string) (note, what string) {
	if t.Adv > 0 {
		vsched.Advance(time.Duration(t.Adv) * s)
	}
	q := reqs[t.Req]
	m := q.method
	if m == "" {
		m = "GET"
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if q.cancel {
		cancel()
	}
	h, path := q.h.Clone(), q.path
	if strings.HasPrefix(host, "host") { // different in every respect
		path += "/" + host + "?q=" + host
		if h == nil {
			h = http.Header{}
		}
		h.Set("User-Agent", host)
		h.Set("X-Forwarded-For", host)
		for _, k := range []string{"Cookie", "Authorization", "If-None-Match"} {
			if v := h.Get(k); v != "" {
				h.Set(k, v+host)
			}
		}
	}
	r := world.NewRequest(ctx, m, "http://"+host+path, h, q.body)
	g.cur = answers[t.Ans]
	g.bodies = g.bodies[:0]
	n := g.calls
	func() {
		defer func() {
			if e := recover(); e != nil {
				note = "panic"
				if e != any(errOrigin) {
					what = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}
		}()
		res, err := g.rt.RoundTrip(r)
		if err != nil {
			note = "error"
			if res != nil && res.Body != nil {
				res.Body.Close()
			}
			return
		}
		note = fmt.Sprint(res.StatusCode)
		switch t.Client {
		case 0:
			_, _ = io.Copy(io.Discard, res.Body)
		case 2:
			_, _ = io.ReadFull(res.Body, make([]byte, 7))
		}
		res.Body.Close()
	}()
	note += fmt.Sprint("/", g.calls-n)
	for i, b := range g.bodies {
		if what == "" && !b.ended && !b.closed {
			what = fmt.Sprintf("the answer of exchange %d is neither read to its end nor closed after the client has gone", i+1)
		}
	}
	return
}

// run executes a history; afterwards the stack serves as before.
func run(p *lib.Part, r rep) (what string, trace []string) {
	vsched.SetOffline(0)
	g := newRig(r.Strict, r.Store)
	base := runtime.NumGoroutine()
	pat := ""
	for i, t := range r.Steps {
		p.Ops++
		note, w := g.do(t, "o")
		pat += " " + note
		trace = append(trace, t.String()+" -> "+note)
		if w != "" {
			return fmt.Sprintf("step %d (%v): %s", i+1, t, w), trace
		}
	}
	p.Outcome(strings.TrimSpace(pat))
	// the same resource and another are served
	for i, h := range []string{"o", "other"} {
		t := step{Adv: 100, Req: 1} // no-cache: asks the origin
		note, w := g.do(t, h)
		trace = append(trace, "afterwards "+h+": "+t.String()+" -> "+note)
		if w == "" && note != "200/1" {
			w = "answered " + note
		}
		if w != "" {
			return fmt.Sprintf("request %d after the history: %s", i+1, w), trace
		}
	}
	for i := 0; runtime.NumGoroutine() > base; i++ {
		if i > 2000 {
			return fmt.Sprintf("%d goroutines are left behind", runtime.NumGoroutine()-base), trace
		}
		if i < 10 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return "", trace
}

// symbols of histories; few: a representative set.
func symbols(few bool) (out []step) {
	for q := range reqs {
		for a := range answers {
			for c := range clients {
				for _, adv := range []int{0, 20} {
					if few && (c == 1 || adv > 0 && q != 0 && q != 2 || q == 4 || q == 6 || q == 7 || q == 11 || a == 4 || a == 9 || a == 11 || a == 13 || a > 14) {
						continue
					}
					if few && q > 2 && a > 1 && a < 5 || few && q > 2 && c > 0 {
						continue
					}
					if reqs[q].cancel && (a > 0 || c > 0) || (answers[a].end == "error" || answers[a].end == "panic" || answers[a].body == "") && c > 0 {
						continue
					}
					out = append(out, step{Adv: adv, Req: q, Ans: a, Client: c})
				}
			}
		}
	}
	return
}

var hosts int // never the same resource twice

// grow: many requests of one kind, each for a resource of its own, do not hold on to memory.
func grow(strict bool, kind string, t step) string {
	vsched.SetOffline(0)
	g := newRig(strict, kind)
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	batch := func(k int) {
		for i := 0; i < k; i++ {
			hosts++
			g.do(t, fmt.Sprintf("host%d", hosts))
		}
	}
	batch(600)
	const k = 1500
	last := int64(1 << 62)
	for try := 0; try < 3; try++ { // what grows, grows every time
		h := heap()
		batch(k)
		d := heap() - h
		if d < last {
			last = d
		}
		if last < 60*k {
			return ""
		}
	}
	return fmt.Sprintf("%d requests (%v) for different resources hold on to at least %d bytes each", k, t, last/k)
}

// sched: callers of one resource, all schedules; everything is released at the end.
func sched(name string, n int, outs []string, hdr http.Header, st int, cached bool, cancel int, leave int, hs func(i int) http.Header, bound int, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s callers=%d outcomes=%v hdr=%s cached=%v canceled=%d leave=%d bound=%d", name, n, outs, world.HeaderString(hdr), cached, cancel, leave, bound), Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if cached {
			cfg = &cache.HttpCacheConfig{Strict: true, DefaultTTL: "1000h"}
		}
		m := cosim.New(x, cfg)
		m.Points = 1
		m.Script = func(f *cosim.Fetch, _ *http.Request) (string, http.Header, int) {
			return outs[min(f.ID, len(outs)-1)], hdr, st
		}
		for i := 0; i < n; i++ {
			h := http.Header{}
			if hs != nil {
				h = hs(i)
			}
			c := m.Caller("GET", "http://o/x", h)
			c.MutateHeader = false
			if i < leave {
				c.Leave = 1 + i%2
			}
			m.Start(c)
		}
		if cancel >= 0 {
			m.CancelLater(m.Callers[cancel])
		}
		x.Wait()
		for _, c := range m.Callers {
			if !c.Done {
				x.Fail("caller %d never returned", c.ID)
			}
			c.Cancel() // as the server does when the handler returns
		}
		x.Settle()
		if f := m.Released(); f != nil {
			x.Fail("the answer of exchange %d (for caller %d) is neither read to its end nor closed", f.ID, f.Caller)
		}
		if k := x.Live(); k > 0 {
			x.Fail("%d threads are left behind", k)
		}
		// the resource is not taken any more
		k := len(m.Fetches)
		m.Script = func(f *cosim.Fetch, _ *http.Request) (string, http.Header, int) { return "ok", nil, 200 }
		c := m.Caller("GET", "http://o/x", world.H("Cache-Control", "no-cache"))
		c.MutateHeader = false
		m.Run(c)
		if len(m.Fetches) != k+1 || c.Err != nil || c.Panicked != nil {
			x.Fail("afterwards a request caused %d exchanges and got %v %v", len(m.Fetches)-k, c.Err, c.Panicked)
		}
		x.Outcome("%s", m.Describe())
	}}
}

func main() {
	sy, few := symbols(false), symbols(true)
	lib.Alphabet = fmt.Sprintf("histories over %d steps (%d request kinds x %d answers x %d ways of consuming x fresh or stale), reduced to %d for greater depth; every step repeated for thousands of resources; 2-3 concurrent callers with every outcome, cancellation and early leaving, all schedules to the preemption bound; the complete proxy between sockets", len(sy), len(reqs), len(answers), len(clients), len(few))
	lib.Assumptions = []string{"an exchange is released when its answer was read to the end, failed or was closed", "a client closes the answer it was given", "memory: less than 60 bytes per request is noise"}
	lib.Main("C27", 75*time.Second, 700*time.Second, func(c *lib.Check, p *lib.Part) {
		ma := world.H("Cache-Control", "max-age=100")
		d := 0
		if c.Thorough {
			d = 1
		}
		scs := []lib.Scenario{}
		for _, cached := range []bool{false, true} {
			for _, o := range [][]string{{"ok"}, {"error", "ok"}, {"panic", "ok"}, {"broken", "ok"}} {
				scs = append(scs, sched("same", 2, o, ma, 200, cached, -1, 0, nil, 2+d, o[0] == "ok"),
					sched("left early", 2, o, ma, 200, cached, -1, 2, nil, 2+d, false),
					sched("canceled first", 2, o, ma, 200, cached, 0, 0, nil, 1+d, o[0] == "ok"),
					sched("canceled second", 2, o, ma, 200, cached, 1, 0, nil, 1+d, false))
			}
			for _, h := range []http.Header{world.H("Cache-Control", "private"), world.H("Set-Cookie", "a=b"), world.H("Vary", "X-V", "Cache-Control", "max-age=5"), world.H("Vary", "*")} {
				scs = append(scs, sched("not shared", 2, []string{"ok"}, h, 200, cached, -1, 0, func(i int) http.Header { return world.H("X-V", fmt.Sprint(i)) }, 1+d, false),
					sched("not shared, left", 2, []string{"ok"}, h, 200, cached, -1, 2, func(i int) http.Header { return world.H("X-V", fmt.Sprint(i)) }, 1+d, false),
					sched("not shared, canceled", 2, []string{"ok"}, h, 200, cached, 1, 0, func(i int) http.Header { return world.H("X-V", fmt.Sprint(i)) }, 1+d, false))
			}
			scs = append(scs, sched("same", 3, []string{"ok"}, ma, 200, cached, -1, 1, nil, d, false), sched("same, canceled", 3, []string{"error", "ok"}, ma, 200, cached, 1, 1, nil, d, false))
		}
		if vsched.RaceMode {
			c.RunScenarios(p, scs)
			return
		}
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil && r.Store != "" {
				var w string
				var tr []string
				switch {
				case r.Net != nil:
					w = network(p, *r.Net)
				case r.Growth > 0:
					w = grow(r.Strict, r.Store, sy[r.Growth-1])
				default:
					w, tr = run(p, r)
				}
				if w != "" {
					p.Fail("replay", w, r, tr...)
				}
				return
			}
			c.RunScenarios(p, scs)
			return
		}
		try := func(group string, r rep) bool {
			lib.Case(func() string { return fmt.Sprintf("%+v", r) })
			w, tr := run(p, r)
			lib.Idle()
			p.Traces++
			p.Scenarios[group+", "+r.Store]++
			if w == "" || !p.Sure(3, w, func() string { w, _ := run(p, r); return w }) {
				return true
			}
			p.Fail(fmt.Sprint(r), w, r, tr...)
			return len(p.Viols) < 3
		}
		cnt := 0
		saved := c.Deadline
		c.Deadline = time.Now().Add(time.Until(saved) / 2)
		for i, t := range sy {
			for _, strict := range []bool{true, false} {
				if t.Adv > 0 {
					continue
				}
				if cnt++; cnt%c.Of != c.Shard {
					continue
				}
				if c.Expired(p, "growth") {
					break
				}
				w := grow(strict, "memory", t)
				p.Traces++
				p.Ops += 2100
				p.Scenarios["growth"]++
				if w != "" && p.Sure(2, w, func() string { return grow(strict, "memory", t) }) {
					p.Fail(fmt.Sprint("growth ", strict, t), w, rep{Strict: strict, Store: "memory", Growth: i + 1})
					if len(p.Viols) > 2 {
						return
					}
				}
			}
		}
		c.Deadline = saved
		for _, strict := range []bool{true, false} {
			for _, st := range []string{"memory", "layered"} {
				for _, a := range sy {
					for _, b := range sy {
						if cnt++; cnt%c.Of != c.Shard || st == "layered" && (a.Client > 0 || b.Client > 0) && !c.Thorough {
							continue
						}
						p.State(strict, st, a, b)
						if c.Expired(p, "pairs of steps") || !try("pairs", rep{Strict: strict, Store: st, Steps: []step{a, b}}) {
							return
						}
					}
				}
			}
		}
		networks(c, p)
		saved = c.Deadline
		c.Deadline = time.Now().Add(time.Until(saved) / 2)
		c.RunScenarios(p, scs)
		c.Deadline = saved
		for _, strict := range []bool{true, false} {
			for _, a := range few {
				for _, b := range few {
					for _, e := range few {
						if cnt++; cnt%c.Of != c.Shard {
							continue
						}
						if c.Expired(p, "triples of steps") || !try("triples", rep{Strict: strict, Store: "memory", Steps: []step{a, b, e}}) {
							return
						}
					}
				}
			}
		}
	})
}
