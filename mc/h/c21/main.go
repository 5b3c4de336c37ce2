// C21: configuration updates are atomic and take effect.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"path"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/pkg/server/middleware"
	"gopkg.in/yaml.v3"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

// confs are the configurations, as a client of the API sends them.
var confs = []struct{ name, text string }{
	{"plain", "strict: true\n"},
	{"all", "strict: false\nx_header: true\n"},
	{"mark", "x_header: true\nx_header_name: X-Other\n"},
	{"ttl", "default_ttl: 7s\ntimeouts:\n- path: ^/u\n  ttl: 3s\n- path: 1$\n  ttl: 4s\n"},
	{"ttl2", "default_ttl: 9s\ntimeouts:\n- path: 1$\n  ttl: 5s\n- path: ^/u\n  ttl: 6s\n"},
	{"force", "default_cache_control: no-cache, x-a\nforce_cache_control: true\nx_header: true\n"},
	{"force2", "default_cache_control: max-age=50, x-b\nforce_cache_control: true\nstrict: false\n"},
	{"defcc", "default_cache_control: no-store\n"},
	{"expath", "exclude:\n  path: [\"^/u\", \"^/zzz\"]\n"},
	{"exheader", "exclude:\n  header: {x-req: v}\nx_header: true\n"},
	{"extype", "exclude:\n  content:\n  - type: text/.*\n    size: 3\n  - type: image/.*\nx_header: true\nx_header_name: X-T\n"},
	{"exboth", "exclude:\n  path: [\"^/zzz\"]\n  header: {x-req: w}\n  content:\n  - type: text/plain\nstrict: false\n"},
}

var bad = []string{"", "strict: [1]\n", "- a\n", "a: b: c\n", "x_header: true\nstrict: maybe\n", "default_cache_control: max-age=1\nforce_cache_control: true\nexclude:\n  path: {a: b}\n", "\tstrict: true", "strict: false\nx_header: true\nx_header_name: X-Bad\ntimeouts: 5\n"}

// kind of request, with what is stored before and what the origin answers.
type kind struct {
	method string
	hdr    http.Header
	store  string
	reply  string
}

func (k kind) String() string {
	return fmt.Sprintf("%s %s stored=%s reply=%s", k.method, world.HeaderString(k.hdr), k.store, k.reply)
}

var kinds []kind

func init() {
	for _, m := range []struct {
		method string
		hdr    http.Header
	}{{"GET", nil}, {"GET", world.H("X-Req", "v")}, {"HEAD", nil}} {
		for _, st := range []string{"empty", "fresh", "stale"} {
			for _, r := range []string{"maxage", "nocc", "nostore", "304"} {
				if r == "304" && st != "stale" || st == "fresh" && r != "maxage" || m.method == "HEAD" && r != "nocc" && st != "fresh" {
					continue
				}
				kinds = append(kinds, kind{m.method, m.hdr, st, r})
			}
		}
	}
	kinds = append(kinds, kind{"GET", world.H("Cache-Control", "no-store"), "empty", "maxage"}, kind{"POST", nil, "fresh", "maxage"})
}

// store is the provider: a list and a record of what was written (no maps: the race detector
// would attribute them to the caller).
type store struct {
	m   [8]item
	log []string
}

type item struct {
	k string
	v []byte
}

func (s *store) at(k string) *item {
	for i := range s.m {
		if s.m[i].k == k || s.m[i].k == "" {
			s.m[i].k = k
			return &s.m[i]
		}
	}
	panic("store full")
}

func (s *store) Get(_ context.Context, k string) []byte {
	vsched.Op("store.get")
	i := s.at(k)
	vsched.RaceAcquire(unsafe.Pointer(i))
	return i.v
}
func (s *store) Set(k string, v []byte, ttl time.Duration) {
	vsched.Op("store.set")
	i := s.at(k)
	vsched.RaceReleaseMerge(unsafe.Pointer(i))
	i.v = v
	s.log = append(s.log, fmt.Sprintf("%s set %s %v %q", keyOf(k), k, ttl, v))
}
func (s *store) Delete(_ context.Context, k string) bool {
	vsched.Op("store.delete")
	s.at(k).v = nil
	s.log = append(s.log, fmt.Sprintf("%s delete %s", keyOf(k), k))
	return true
}
func (s *store) Keys(context.Context, string) []string { return nil }
func (s *store) Purge(context.Context, string) error   { return nil }
func (s *store) Flush(context.Context) error           { return nil }
func (s *store) Size() int                             { return len(s.m) }

func keyOf(k string) string { return path.Base(k) }

var _ provider.Provider = (*store)(nil)

// sys is the system below the reverse proxy together with the management handlers.
type sys struct {
	st    *store
	hc    *cache.HttpCache
	srv   *server.Server
	rt    http.RoundTripper
	reply func(*http.Request) string
	log   []string // "<url> what the origin saw"
}

var servers = map[string]*server.Server{}

func replyRaw(r string, cond bool) string {
	date := "Date: " + world.Date(world.Now())
	h := []string{date, "Content-Type: text/plain", `Etag: "e"`}
	switch {
	case r == "304" && cond:
		return world.Raw(304, "", date, `Etag: "e"`, "X-New: 1")
	case r == "nocc":
	case r == "nostore":
		h = append(h, "Cache-Control: no-store")
	default:
		h = append(h, "Cache-Control: max-age=100")
	}
	return world.Raw(200, "12345", h...)
}

func newSys() *sys {
	s := &sys{st: &store{log: make([]string, 0, 64)}, log: make([]string, 0, 64)}
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true}, s.st)
	if err != nil {
		panic(err)
	}
	s.hc = hc
	tr := middleware.NewCachedTransport(hc, nil)
	tr.Transport = s
	s.rt = middleware.NewCoalesced(tr)
	s.srv, err = server.NewServer(&config.Configuration{API: &config.API{}}, s.st, hc, nil)
	if err != nil {
		panic(err)
	}
	return s
}

func (s *sys) RoundTrip(req *http.Request) (*http.Response, error) {
	vsched.Op("origin")
	u := keyOf(req.URL.Path)
	s.log = append(s.log, fmt.Sprintf("%s origin %s %s", u, req.Method, world.HeaderString(req.Header)))
	raw := s.reply(req)
	vsched.Op("origin")
	return world.Parse(raw, req)
}

// stored holds what a request leaves in the store, by URL and age.
var stored = map[string][]byte{}

func (s *sys) prime(u string, k kind) {
	if v := stored[u+" "+k.store]; v != nil {
		s.st.at("kache-http://o/" + u).v = v
	} else if k.store != "empty" {
		panic("nothing was stored for " + k.store)
	}
}

func prepareStored() {
	for _, u := range []string{"u1", "u2", "u3"} {
		for st, age := range map[string]int{"fresh": 0, "stale": 200} {
			vsched.SetOffline(-time.Duration(age) * time.Second)
			s := newSys()
			s.reply = func(*http.Request) string {
				return world.Raw(200, "stored", "Cache-Control: max-age=100", "Content-Type: text/plain", `Etag: "e"`, "Date: "+world.Date(world.Now()))
			}
			s.do(u, kind{method: "GET"})
			stored[u+" "+st] = s.st.at("kache-http://o/" + u).v
		}
	}
	vsched.SetOffline(0)
}

// do sends a request and tells everything that can be observed of it.
func (s *sys) do(u string, k kind) string {
	h := http.Header{}
	for a, b := range k.hdr {
		h[a] = b
	}
	res := world.ReadResult(s.rt.RoundTrip(world.NewRequest(context.Background(), k.method, "http://o/"+u, h, "")))
	got := fmt.Sprint(res)
	for _, l := range append(append([]string{}, s.log...), s.st.log...) {
		if strings.HasPrefix(l, u+" ") {
			got += "\n" + l
		}
	}
	return got
}

func (s *sys) put(body io.Reader) int {
	w := httptest.NewRecorder()
	s.srv.CacheConfigUpdateHandler(w, httptest.NewRequest("PUT", "http://k/api/cache/config/update", body))
	return w.Code
}

func (s *sys) get() string {
	w := httptest.NewRecorder()
	s.srv.CacheConfigHandler(w, httptest.NewRequest("GET", "http://k/api/cache/config", nil))
	if w.Code != 200 {
		return fmt.Sprint("status ", w.Code, w.Body)
	}
	var m map[string]any
	if err := json.Unmarshal(w.Body.Bytes(), &m); err != nil {
		return fmt.Sprint("no JSON: ", w.Body)
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func parse(text string) *cache.HttpCacheConfig {
	c := &cache.HttpCacheConfig{Strict: true}
	if err := yaml.Unmarshal([]byte(text), c); err != nil {
		panic(err)
	}
	return c
}

// alone is what a request is answered when one configuration was in force from the start.
var (
	alone    = map[string]string{}
	aloneCfg = map[int]string{}
)

func want(c int, u string, k kind) string {
	id := fmt.Sprint(c, " ", u, " ", k)
	v, ok := alone[id]
	if !ok {
		panic("not computed: " + id)
	}
	return v
}

// prepare computes the reference answers (outside the scheduler).
func prepare() {
	prepareStored()
	for c := range confs {
		for _, u := range []string{"u1", "u2", "u3"} {
			for _, k := range kinds {
				s := newSys()
				hc, _ := cache.NewHttpCache(parse(confs[c].text), s.st)
				tr := middleware.NewCachedTransport(hc, nil)
				tr.Transport = s
				s.rt = middleware.NewCoalesced(tr)
				s.hc = hc
				k := k
				s.reply = func(r *http.Request) string { return replyRaw(k.reply, r.Header.Get("If-None-Match") != "") }
				s.prime(u, k)
				alone[fmt.Sprint(c, " ", u, " ", k)] = s.do(u, k)
			}
		}
		s := newSys()
		s.hc.UpdateConfig(parse(confs[c].text))
		aloneCfg[c] = s.get()
	}
}

// upd is an update or the initial configuration in a run.
type upd struct{ c, start, end int }

// permitted lists the configurations a request during [from,to] may follow.
func permitted(us []upd, from, to int) (cs []int) {
	for i, u := range us {
		if u.start > to {
			continue
		}
		ok := true
		for j, v := range us {
			// v replaced u before the request began
			if j != i && v.start > u.end && u.end != 0 && v.end != 0 && v.end < from {
				ok = false
			}
		}
		if ok {
			cs = append(cs, u.c)
		}
	}
	return
}

type job struct {
	what string // "request", "put", "update", "bad", "get", "same"
	u    string
	c    int
}

func scenario(name string, initial int, ks []kind, threads [][]job, bound int, plain, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s bound=%d plain=%v", name, bound, plain), Plain: plain, Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		s := newSys()
		k := ks[vsched.Choose(len(ks))]
		s.reply = func(r *http.Request) string { return replyRaw(k.reply, r.Header.Get("If-None-Match") != "") }
		clock := 0
		tick := func() int { clock++; return clock }
		us := []upd{{c: initial, start: tick()}}
		s.hc.UpdateConfig(parse(confs[initial].text))
		us[0].end = tick()
		same := parse(confs[initial].text)
		for _, t := range threads {
			for _, j := range t {
				if j.what == "request" {
					s.prime(j.u, k)
				}
			}
		}
		type result struct {
			j        job
			from, to int
			got      string
		}
		var rs []*result
		for i, t := range threads {
			x.Go(fmt.Sprint("t", i), func() {
				for _, j := range t {
					switch j.what {
					case "put", "update", "same":
						n := len(us)
						us = append(us, upd{c: j.c, start: tick(), end: 1 << 30})
						switch j.what {
						case "put":
							if code := s.put(strings.NewReader(confs[j.c].text)); code != 200 {
								x.Fail("update to %s answered %d", confs[j.c].name, code)
							}
						case "same":
							s.hc.UpdateConfig(same)
						default:
							s.hc.UpdateConfig(parse(confs[j.c].text))
						}
						us[n].end = tick()
					case "bad":
						if code := s.put(strings.NewReader(bad[j.c])); code != 400 {
							x.Fail("malformed update %q answered %d", bad[j.c], code)
						}
					default:
						r := &result{j: j, from: tick()}
						rs = append(rs, r)
						if j.what == "get" {
							r.got = s.get()
						} else {
							r.got = s.do(j.u, k)
						}
						r.to = tick()
					}
				}
			})
		}
		x.Wait()
		var out []string
		for _, r := range rs {
			ok := false
			var names, exp []string
			for _, c := range permitted(us, r.from, r.to) {
				w := aloneCfg[c]
				if r.j.what != "get" {
					w = want(c, r.j.u, k)
				}
				names = append(names, confs[c].name)
				exp = append(exp, w)
				if r.got == w {
					if !ok {
						out = append(out, confs[c].name)
					}
					ok = true
				}
			}
			if !ok {
				x.Fail("%s %s (%v) is explained by none of the configurations in force %v\ngot:\n%s\nexpected:\n%s", r.j.what, r.j.u, k, names, r.got, strings.Join(exp, "\n or\n"))
			}
		}
		sort.Strings(out)
		x.Outcome("%v %s", k, strings.Join(out, ","))
	}}
}

// shared: coalesced requests for one URL during updates.
func shared(name string, texts []string, k kind, excluded bool, threads [][]job, bound int, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("coalescing %s bound=%d", name, bound), Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		s := newSys()
		n := 0
		s.reply = func(r *http.Request) string {
			n++
			return world.Raw(200, fmt.Sprint("exchange", n), "Date: "+world.Date(world.Now()), "Cache-Control: max-age=100")
		}
		clock := 0
		tick := func() int { clock++; return clock }
		us := []upd{{c: 0, start: tick()}}
		s.hc.UpdateConfig(parse(texts[0]))
		us[0].end = tick()
		type result struct {
			from, to int
			res      *world.Result
		}
		var rs []*result
		for i, t := range threads {
			x.Go(fmt.Sprint("t", i), func() {
				for _, j := range t {
					if j.what == "request" {
						r := &result{from: tick()}
						rs = append(rs, r)
						r.res = world.ReadResult(s.rt.RoundTrip(world.NewRequest(context.Background(), k.method, "http://o/u1", k.hdr, "")))
						r.to = tick()
						continue
					}
					m := len(us)
					us = append(us, upd{c: j.c, start: tick(), end: 1 << 30})
					if code := s.put(strings.NewReader(texts[j.c])); code != 200 {
						x.Fail("update answered %d", code)
					}
					us[m].end = tick()
				}
			})
		}
		x.Wait()
		bodies := map[string]bool{}
		var out []string
		for i, r := range rs {
			if r.res.Err != nil || r.res.Status != 200 || r.res.BodyErr != nil {
				x.Fail("request %d: %v", i, r.res)
			}
			b := string(r.res.Body)
			if excluded {
				if bodies[b] {
					x.Fail("request %d, excluded from caching by every configuration, got the answer of another: %v", i, r.res)
				}
				bodies[b] = true
				continue
			}
			ok := false
			cs := permitted(us, r.from, r.to)
			for _, c := range cs {
				if r.res.Header.Get("Cache-Control") == parse(texts[c]).DefaultCacheControl {
					ok = true
				}
			}
			if !ok {
				x.Fail("request %d has Cache-Control %q, which comes from none of the configurations in force (numbers %v of %q)", i, r.res.Header["Cache-Control"], cs, texts)
			}
			out = append(out, b+" "+r.res.Header.Get("Cache-Control"))
		}
		if excluded && (len(s.st.log) > 0 || len(s.log) != len(rs)) {
			x.Fail("requests excluded by every configuration: %d exchanges for %d requests, store %q", len(s.log), len(rs), s.st.log)
		}
		x.Outcome("%s", strings.Join(out, ";"))
	}}
}

// errReader fails after some bytes: an update whose body does not arrive completely.
type errReader struct{ s string }

func (e *errReader) Read(p []byte) (int, error) {
	if e.s == "" {
		return 0, errors.New("unexpected end")
	}
	n := copy(p, e.s)
	e.s = e.s[n:]
	return n, nil
}

type rep struct {
	Ops []int `json:"ops"`
}

// history: a sequence of updates, valid and not; after each the system behaves as if started with
// the configuration in force.
func history(p *lib.Part, ops []int, full bool) (what string) {
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprint("panic: ", e)
		}
	}()
	vsched.SetOffline(0)
	cur := 0
	s := newSys()
	for i, o := range ops {
		p.Ops++
		name := ""
		code, exp := 0, 200
		switch {
		case o < len(confs):
			name = "PUT " + confs[o].name
			code = s.put(strings.NewReader(confs[o].text))
			cur = o
		case o < len(confs)+len(bad):
			b := bad[o-len(confs)]
			name = fmt.Sprintf("PUT %q", b)
			code, exp = s.put(strings.NewReader(b)), 400
		default:
			name = "PUT interrupted"
			code, exp = s.put(&errReader{confs[1].text + confs[5].text}), 400
		}
		if code != exp {
			return fmt.Sprintf("step %d, %s: answered %d, not %d", i+1, name, code, exp)
		}
		if g := s.get(); g != aloneCfg[cur] {
			return fmt.Sprintf("step %d, %s: the configuration in force is shown as\n%s\nnot\n%s", i+1, name, g, aloneCfg[cur])
		}
		if !full && i+1 < len(ops) {
			continue
		}
		for _, k := range kinds {
			s.log, s.st.log, s.st.m = nil, nil, [8]item{}
			k := k
			s.reply = func(r *http.Request) string { return replyRaw(k.reply, r.Header.Get("If-None-Match") != "") }
			s.prime("u1", k)
			if g, w := s.do("u1", k), want(cur, "u1", k); g != w {
				return fmt.Sprintf("step %d, %s: with configuration %s in force, request %v gives\n%s\nnot\n%s", i+1, name, confs[cur].name, k, g, w)
			}
			p.Ops++
			p.State(cur, k.String())
		}
		p.Outcome(fmt.Sprint(code))
	}
	p.Traces++
	return ""
}

func main() {
	lib.Alphabet = "12 configurations (strict or not, marker names, TTLs, forced and default Cache-Control, exclusion by path, header and content), malformed and interrupted updates; 15 kinds of requests and stored state; all schedules up to the preemption bound; all update sequences up to a length"
	lib.Assumptions = []string{"the reference for a configuration is the same code started with it and used sequentially", "sequentially consistent memory between instrumented points; unsynchronised accesses are looked for in the race-detector pass"}
	lib.Main("C21", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		prepare()
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r); r.Ops != nil {
				if w := history(p, r.Ops, true); w != "" {
					p.Fail("history", w, r)
				}
				return
			}
		}
		d := 0
		if c.Thorough {
			d = 1
		}
		if c.Replay == nil && !vsched.RaceMode {
			n := len(confs) + len(bad) + 1
			for depth := 1; depth <= 2+d; depth++ {
				c.Seqs(n, depth, func(seq []int) bool {
					if w := history(p, seq, true); w != "" && p.Sure(5, w, func() string { return history(p, seq, true) }) {
						p.Fail("history", w, rep{append([]int{}, seq...)})
						return false
					}
					return !c.Expired(p, "update sequences")
				})
			}
			p.Scenarios["update sequences"] += p.Traces
		}
		var scs []lib.Scenario
		diff := func(a, b int) bool {
			for _, k := range kinds {
				if want(a, "u1", k) != want(b, "u1", k) {
					return true
				}
			}
			return false
		}
		R := func(u string) job { return job{what: "request", u: u} }
		for a := range confs {
			for b := range confs {
				if a == b || !diff(a, b) {
					continue
				}
				nm := confs[a].name + " -> " + confs[b].name
				scs = append(scs, scenario(nm, a, kinds, [][]job{{R("u1")}, {{what: "put", c: b}, R("u2")}}, 1+d, false, a < 4 && b > 3))
			}
		}
		few := []kind{kinds[0], kinds[4], kinds[5]}
		idx := map[string]int{}
		for i, c := range confs {
			idx[c.name] = i
		}
		for _, pr := range [][3]string{{"plain", "all", "mark"}, {"ttl", "ttl2", "exheader"}, {"force", "force2", "expath"}, {"exheader", "expath", "extype"}, {"extype", "exboth", "defcc"}, {"force2", "ttl", "all"}} {
			a, b, e := idx[pr[0]], idx[pr[1]], idx[pr[2]]
			nm := strings.Join(pr[:], ", ")
			scs = append(scs,
				scenario("deeper "+nm, a, few, [][]job{{R("u1")}, {{what: "put", c: b}, R("u2")}}, 2+d, false, false),
				scenario("deeper back "+nm, b, few, [][]job{{R("u1")}, {{what: "put", c: a}, R("u2")}}, 2+d, false, false),
				scenario("two updates "+nm, a, few, [][]job{{R("u1")}, {{what: "put", c: b}, R("u2")}, {{what: "put", c: e}, R("u3")}}, 1+d, false, true),
				scenario("update again "+nm, a, few, [][]job{{R("u1"), R("u2")}, {{what: "update", c: b}, {what: "put", c: e}, R("u3")}}, 1+d, false, false),
				scenario("malformed "+nm, a, few, [][]job{{R("u1")}, {{what: "bad", c: 4}, R("u2")}, {{what: "put", c: b}, {what: "bad", c: 7}, R("u3")}}, 1+d, false, true),
				scenario("shown "+nm, a, few[:1], [][]job{{{what: "get"}, R("u1")}, {{what: "put", c: b}, {what: "get"}}, {{what: "update", c: e}}}, 2+d, false, true),
				scenario("same again "+nm, a, few, [][]job{{R("u1"), {what: "get"}}, {{what: "same", c: a}, R("u2")}, {{what: "same", c: a}}}, 1+d, false, true),
				scenario("by statement "+nm, a, few, [][]job{{R("u1")}, {{what: "update", c: b}, R("u2")}}, 1+d, true, false),
				scenario("by statement back "+nm, b, few, [][]job{{R("u1")}, {{what: "update", c: a}, R("u2")}}, 1+d, true, false),
			)
		}
		g := kind{method: "GET"}
		xg := kind{method: "GET", hdr: world.H("X-Req", "v")}
		fc := []string{"default_cache_control: no-cache, x-a\nforce_cache_control: true\n", "default_cache_control: no-cache, x-b\nforce_cache_control: true\n", "default_cache_control: no-cache, x-c\nforce_cache_control: true\n"}
		ex := []string{"exclude:\n  header: {x-req: v}\n", "exclude:\n  path: [\"^/u\"]\n", "exclude:\n  header: {x-req: v}\n  path: [\"u1$\"]\n"}
		P := func(c int) job { return job{what: "put", c: c} }
		q := R("u1")
		scs = append(scs,
			shared("2", fc, g, false, [][]job{{q}, {P(1), q}}, 3+d, true),
			shared("3", fc, g, false, [][]job{{q}, {q}, {P(1), q}}, 1+d, true),
			shared("2 updates", fc, g, false, [][]job{{q}, {P(1), q}, {P(2), q}}, 1+d, false),
			shared("back", fc, g, false, [][]job{{q}, {P(1), q, P(0), q}}, 2+d, false),
			shared("excluded 2", ex, xg, true, [][]job{{q}, {P(1), q}}, 3+d, true),
			shared("excluded 3", ex, xg, true, [][]job{{q}, {q}, {P(1), q}}, 1+d, false),
			shared("excluded 2 updates", ex, xg, true, [][]job{{q}, {P(1), P(2), q}, {q}}, 1+d, false),
		)
		c.RunScenarios(p, scs)
	})
}
