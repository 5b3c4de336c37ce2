// Command c29 decides that a successful write makes what is stored for its resource unusable, and
// nothing else: histories of writes and reads, concurrent ones, and ones through the whole proxy.
package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"kverif/fakeredis"
	"kverif/hgrid"
	"kverif/hseq"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

const s = time.Second

var ctx = context.Background()

const u = "http://o/x?q=1"

// inOrder is a remote client whose stores are applied when they are issued.
type inOrder struct{ provider.RemoteCacheClient }

func (c inOrder) StoreAsync(k string, v []byte, ttl time.Duration) error { return c.Store(k, v, ttl) }

var (
	srv *fakeredis.Server
	cl  provider.RemoteCacheClient
)

const l1TTL = time.Minute

// store makes an empty store; the redis server is kept (connecting is slow).
func store(layered bool) provider.Provider { return storeOf(layered, 1<<26) }

// storeOf: the local layer keeps so many bytes.
func storeOf(layered bool, local uint64) provider.Provider {
	if !layered {
		return world.NewProvider()
	}
	if srv == nil {
		srv = fakeredis.New()
		cl = srv.Client(provider.RedisClientConfig{})
		time.Sleep(50 * time.Millisecond) // let its worker block
	}
	srv.Sched = false
	for k := range srv.Dump() {
		srv.Drop(k)
	}
	p, err := provider.NewCached(provider.NewRedisCache("r", inOrder{cl}), "l", l1TTL, provider.InMemoryCacheConfig{MaxSize: local, MaxItemSize: min(local, 1<<24), DefaultTTL: "120s"})
	if err != nil {
		panic(err)
	}
	return p
}

var must = []string{"POST", "PUT", "DELETE", "PATCH"}
var free = []string{"OPTIONS", "TRACE", "GET", "HEAD"} // bypassing by a header

// fetch is an exchange with the origin.
type fetch struct {
	method  string
	version int
	by      *get
}

// sim is a resource with a version behind the proxy.
type sim struct {
	x       *vsched.X
	rt      http.RoundTripper
	clock   int
	version int
	refuse  bool
	fetches []*fetch
	gets    []*get
	writes  []*write
	points  bool
}

type byKey struct{}

type get struct {
	start, end int
	version    int
	err        string
}

type write struct {
	method     string
	start, end int
	version    int // made by it, 0: refused
}

func (m *sim) point(what string) {
	m.clock++
	if m.points {
		vsched.Op(what)
	}
}

func (m *sim) RoundTrip(req *http.Request) (*http.Response, error) {
	f := &fetch{method: req.Method}
	f.by, _ = req.Context().Value(byKey{}).(*get)
	m.fetches = append(m.fetches, f)
	m.point("the origin is asked")
	status := 200
	if req.Method != "GET" {
		if m.refuse {
			status = 409
		} else {
			m.version++
		}
	}
	f.version = m.version
	m.point("the origin answers")
	h := http.Header{"Cache-Control": {"max-age=1000"}, "Date": {world.Date(world.Now())}}
	return &http.Response{StatusCode: status, ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req,
		Body: io.NopCloser(strings.NewReader(fmt.Sprint(f.version))), ContentLength: int64(len(fmt.Sprint(f.version)))}, nil
}

func (m *sim) get() *get {
	g := &get{start: m.clock}
	m.clock++
	r := world.ReadResult(m.rt.RoundTrip(world.NewRequest(context.WithValue(ctx, byKey{}, g), "GET", u, nil, "")))
	m.clock++
	g.end = m.clock
	if r.Err != nil || r.Status != 200 {
		g.err = r.String()
	} else {
		fmt.Sscan(string(r.Body), &g.version)
	}
	m.gets = append(m.gets, g)
	return g
}

func (m *sim) write(method string) {
	w := &write{method: method, start: m.clock}
	m.clock++
	r := world.ReadResult(m.rt.RoundTrip(world.NewRequest(ctx, method, u, nil, "new")))
	m.clock++
	w.end = m.clock
	if r.Err == nil && r.Status == 200 {
		fmt.Sscan(string(r.Body), &w.version)
	}
	m.writes = append(m.writes, w)
}

// judge: a read that begins after a write was answered shows it, unless what it shows comes from an
// exchange that was still going on when the write was sent.
func (m *sim) judge() {
	for _, g := range m.gets {
		if g.err != "" {
			m.x.Fail("a read is answered with %s", g.err)
			continue
		}
		for _, w := range m.writes {
			if w.version == 0 || g.start < w.end || g.version >= w.version {
				continue
			}
			late := false // fetched meanwhile
			for _, f := range m.fetches {
				if f.method == "GET" && f.version == g.version {
					late = late || f.by == nil || f.by.end > w.start // its caller may store it until it has its answer
				}
			}
			for _, h := range m.gets { // shares the answer of one that began before
				late = late || h != g && h.start < w.end && h.end > g.start && h.version == g.version
			}
			if !late {
				m.x.Fail("a read that begins after the %s of version %d was answered gets version %d, which was stored before", w.method, w.version, g.version)
			}
		}
	}
}

type prog []string // get, or a method

func concurrent(layered bool, prior string, refuse bool, progs []prog, bound int, race bool) lib.Scenario {
	st := "memory"
	if layered {
		st = "layered"
	}
	return lib.Scenario{Name: fmt.Sprintf("concurrent store=%s prior=%s refused=%v %v bound=%d", st, prior, refuse, progs, bound), Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		m := &sim{x: x, version: 1, refuse: refuse}
		m.rt = world.NewChainRT(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "1000h"}, store(layered), m)
		switch prior {
		case "stored":
			m.get()
		case "lower tier":
			m.get()
			x.Advance(l1TTL + s)
		}
		m.gets = nil
		m.points = true
		if layered {
			srv.Sched = true
		}
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() {
				for _, o := range p {
					if o == "get" {
						m.get()
					} else {
						m.write(o)
					}
				}
			})
		}
		x.Wait()
		m.points = false
		if layered {
			srv.Sched = false
		}
		m.get()
		m.judge()
		n := len(m.fetches)
		a, b := m.get(), m.get()
		if len(m.fetches) > n+1 || a.version != b.version {
			x.Fail("afterwards reads are not answered from the store")
		}
		var out []string
		for _, g := range m.gets {
			out = append(out, fmt.Sprint(g.version))
		}
		x.Outcome("%s of %d, %d exchanges", strings.Join(out, ","), m.version, len(m.fetches))
	}}
}

func policy(name string, strict, layered bool, excl *cache.Exclude) *hseq.Policy {
	p := hseq.Strict(name)
	if !strict {
		p = hseq.All(name, 100*time.Hour)
	}
	cfg := p.Cfg
	p.Cfg = func() *cache.HttpCacheConfig {
		c := cfg()
		c.Exclude = excl
		return c
	}
	if excl != nil {
		p.Model.ExcludedHeader = func(h http.Header) bool { return h.Get("X-No-Cache") != "" }
	}
	p.Store = func() provider.Provider { return store(layered) }
	return p
}

// small: the local layer keeps one response.
func small() *hseq.Policy {
	p := policy("small", true, true, nil)
	p.Store = func() provider.Provider { return storeOf(true, 400) }
	return p
}

func main() {
	lib.Alphabet = fmt.Sprintf("%d unsafe methods with 29 statuses, failures, bodies, bypassing headers; reads of the same and of neighbouring resources, fresh, stale, validated; safe bypassing requests; memory and layered stores; 2-3 concurrent readers and writers; the complete proxy", len(must))
	lib.Assumptions = []string{"writes to the remote store are applied when they are issued", "what an exchange that began before the write brings may still be stored after it, and a read may share the answer of one going on that began before the write was answered", "methods other than POST, PUT, PATCH and DELETE whose safety is unknown may or may not invalidate", "in the mode that ignores Cache-Control, what is stored lasts until its TTL ends"}
	lib.Main("C29", 75*time.Second, 700*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C29"), Blame: hseq.Props("C01", "C02", "C03", "C06", "C07", "C08", "C25"),
			Policies: map[string]*hseq.Policy{"small": small(), "strict": policy("strict", true, false, &cache.Exclude{Header: map[string]string{"X-No-Cache": "true"}}), "layered": policy("layered", true, true, nil), "all": policy("all", false, false, nil)}}
		r.Reference = func(cs *hseq.Case) *hseq.Case { // the history without its writes
			d := *cs
			d.Steps = nil
			var adv time.Duration
			for _, st := range cs.Steps {
				if st.Method != "" && st.Method != "GET" && st.Method != "HEAD" {
					adv += st.Adv
					continue
				}
				st.Adv += adv
				adv = 0
				d.Steps = append(d.Steps, st)
			}
			if len(d.Steps) == len(cs.Steps) || len(d.Steps) == 0 {
				return nil
			}
			return &d
		}
		store(true) // its worker must not start within an execution
		r.ReplayIf()
		var scs []lib.Scenario
		d := 0
		if c.Thorough {
			d = 1
		}
		for _, layered := range []bool{false, true} {
			for _, prior := range []string{"stored", "lower tier", "nothing"} {
				if prior == "lower tier" && !layered {
					continue
				}
				for i, ps := range [][]prog{{{"PUT", "get"}, {"get"}}, {{"PUT", "get"}, {"get", "get"}}, {{"PUT", "get"}, {"POST", "get"}}, {{"PUT", "get"}, {"get"}, {"get"}}, {{"PUT"}, {"DELETE"}, {"get"}}, {{"PUT", "get", "PATCH", "get"}, {"get"}}} {
					b := 2 + d
					if i > 1 {
						b = 1 + d
					}
					scs = append(scs, concurrent(layered, prior, false, ps, b, i == 0))
					if i == 0 {
						scs = append(scs, concurrent(layered, prior, true, ps, b, false))
					}
				}
			}
		}
		sort.SliceStable(scs, func(i, j int) bool { // the largest last: they get the time that is left
			return strings.Count(scs[i].Name, "] [get]") < strings.Count(scs[j].Name, "] [get]")
		})
		if !vsched.RaceMode && c.Replay == nil {
			seqs(c, r)
		}
		if !vsched.RaceMode {
			networks(c, p)
		}
		c.RunScenarios(p, scs)
	})
}

func seqs(c *lib.Check, r *hseq.Runner) {
	fresh := hgrid.Resp(200, []string{"max-age=100"}, "Date: $D", `Etag: "e"`)
	fills := [][]hseq.Step{
		{{URL: u, Raw: fresh}},
		{{URL: u, Raw: hgrid.Resp(200, []string{"max-age=1000"}, "Date: $D", "Vary: Accept", `Etag: "v"`), Header: world.H("Accept", "a/b")}},
		{{URL: u, Raw: hgrid.Resp(200, []string{"no-cache"}, "Date: $D", `Etag: "e"`)}},
		{{URL: u, Raw: hgrid.Resp(404, []string{"max-age=100"}, "Date: $D")}},
		{{URL: u, Raw: fresh}, {URL: u, Adv: 101 * s, Raw: world.Raw(304, "", "Date: $D", `Etag: "e"`)}},
		{},
	}
	stale := map[int]time.Duration{0: s, 1: 61 * s, 2: 150 * s} // residence: fresh, in the lower tier only, stale
	probe := hgrid.Resp(200, []string{"max-age=50"}, "Date: $D", `Etag: "p"`)
	var statuses []int
	for _, st := range []int{200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 405, 409, 410, 412, 422, 429, 500, 502, 503} {
		statuses = append(statuses, st)
	}
	body := func(st int) string {
		if st == 204 || st == 205 || st == 304 {
			return world.Raw(st, "", "Content-Length: 0")
		}
		return hgrid.Resp(st, nil, "Date: $D")
	}
	headers := []http.Header{nil, world.H("Authorization", "x"), world.H("If-Match", `"e"`), world.H("Cache-Control", "no-store"), world.H("Cache-Control", "only-if-cached"), world.H("Content-Type", "a/b", "Cookie", "c=d"), world.H("X-No-Cache", "true"), world.H("Range", "bytes=0-1")}
	probes := []http.Header{nil, world.H("Accept", "a/b"), world.H("Cache-Control", "max-stale"), world.H("Cache-Control", "only-if-cached, max-stale=9999")}
	for _, pol := range []string{"strict", "layered", "small", "all"} {
		for _, m := range append(append([]string{}, must...), free...) {
			for hi, h := range headers {
				for fi, fill := range fills {
					for ai := 0; ai < 3; ai++ {
						for pi, pq := range probes {
							for si, st := range statuses {
								if !c.Thorough && (pi > 0 && si > 2 && si%4 != 0 || hi > 1 && si%3 != 0 || (pol == "layered" || pol == "small") && (hi > 1 || si%3 != 0)) {
									continue
								}
								if !r.Mine() {
									continue
								}
								cs := &hseq.Case{Policy: pol, Steps: append([]hseq.Step(nil), fill...)}
								w := hseq.Step{URL: u, Method: m, Header: h, Adv: stale[ai], Raw: body(st)}
								if (m == "GET" || m == "HEAD") && (h == nil || hi > 2 && hi < 6) {
									continue
								}
								if m == "HEAD" {
									w.Raw = w.Raw[:strings.Index(w.Raw, "\r\n\r\n")+4]
								}
								if m == "POST" || m == "PUT" {
									w.Body = "new"
								}
								cs.Steps = append(cs.Steps, w, hseq.Step{URL: u, Adv: time.Duration(fi%2) * s, Header: pq, Raw: probe}, hseq.Step{URL: u, Adv: s, Raw: probe})
								if !r.Do("write and read", cs) {
									return
								}
							}
						}
					}
				}
			}
		}
		// other resources, failed and aborted writes
		others := []string{"http://o/x", "http://o/x?q=2", "http://o/x/z?q=1", "http://p/x?q=1", "http://o:81/x?q=1", "http://o/X?q=1", "http://o/x?q=1&r=2", "http://o/y"}
		for _, m := range must {
			for _, o := range others {
				for _, w := range []hseq.Step{{Raw: body(200)}, {Raw: body(409)}, {Raw: body(204)}, {Fail: true}, {Raw: body(200), Abort: true}, {Raw: hgrid.Resp(201, []string{"max-age=100"}, "Date: $D", "Location: /x?q=2", "Content-Location: /x?q=2")}} {
					for k := 0; k < 3; k++ {
						if !r.Mine() {
							continue
						}
						w.Method, w.URL, w.Body, w.Adv = m, u, "new", s
						if k == 1 {
							w.URL = o
						}
						cs := &hseq.Case{Policy: pol, Steps: []hseq.Step{{URL: u, Raw: fresh}, {URL: o, Raw: fresh}, w, {URL: o, Adv: s, Raw: probe}, {URL: u, Raw: probe}}}
						if k == 2 {
							cs.Steps = append(cs.Steps, w, hseq.Step{URL: u, Raw: probe}, hseq.Step{URL: o, Raw: probe})
						}
						if !r.Do("neighbours", cs) {
							return
						}
					}
				}
			}
		}
		depth := 5
		if c.Thorough {
			depth = 6
		}
		if pol != "strict" {
			depth--
		}
		lib.Bounds["sequence_depth"] = depth
		ops := []hseq.Step{{URL: u, Adv: 2 * s, Raw: fresh}, {URL: u, Adv: 65 * s, Raw: fresh}, {URL: u, Header: world.H("Cache-Control", "no-cache"), Raw: world.Raw(304, "", "Date: $D", `Etag: "e"`)}, {URL: "http://o/y", Raw: fresh},
			{URL: u, Method: "POST", Body: "b", Raw: body(201)}, {URL: u, Method: "DELETE", Raw: body(204)}, {URL: u, Method: "PUT", Raw: body(500)}, {URL: u, Method: "PATCH", Fail: true}, {URL: u, Method: "OPTIONS", Raw: body(200)}, {URL: u, Header: world.H("Authorization", "x"), Raw: fresh}}
		if !hgrid.Sequences(r, "sequences", pol, ops, depth) {
			return
		}
	}
}
