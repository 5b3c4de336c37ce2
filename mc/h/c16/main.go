// C16: cache backend faults never break or corrupt proxying.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strings"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/redis/go-redis/v9"
	"kverif/e2e"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

const s = time.Second

// Fault happens to the remote commands From..To (counted from 1 over the whole history).
type Fault struct {
	From int    `json:"from"`
	To   int    `json:"to"`
	Kind string `json:"kind"`
}

type rep struct {
	Store  string  `json:"store"`
	Strict bool    `json:"strict"`
	Steps  string  `json:"steps"`
	Faults []Fault `json:"faults"`
	Outage string  `json:"outage,omitempty"`
}

// kinds of faults by the command they apply to ("": all).
var kinds = []struct {
	name, cmd string
	act       func(stored string) fakeredis.Action
}{
	{"error", "", func(string) fakeredis.Action { return fakeredis.Action{Err: errors.New("READONLY")} }},
	{"timeout", "", func(string) fakeredis.Action { return fakeredis.Action{Err: context.DeadlineExceeded} }},
	{"eof", "", func(string) fakeredis.Action { return fakeredis.Action{Err: io.EOF} }},
	{"closed", "", func(string) fakeredis.Action { return fakeredis.Action{Err: redis.ErrClosed} }},
	{"executed, answer lost", "", func(string) fakeredis.Action {
		return fakeredis.Action{Err: errors.New("connection reset"), After: true}
	}},
	{"nil reply", "get", func(string) fakeredis.Action { return fakeredis.Action{Err: redis.Nil} }},
	{"acknowledged, not executed", "set", func(string) fakeredis.Action { return fakeredis.Action{Drop: true} }},
	{"empty", "get", repl(func(v string) string { return "" })},
	{"first byte", "get", repl(func(v string) string { return v[:min(1, len(v))] })},
	{"first quarter", "get", repl(func(v string) string { return v[:len(v)/4] })},
	{"first half", "get", repl(func(v string) string { return v[:len(v)/2] })},
	{"last byte missing", "get", repl(func(v string) string { return v[:max(0, len(v)-1)] })},
	{"first byte missing", "get", repl(func(v string) string { return v[min(1, len(v)):] })},
	{"json", "get", repl(func(string) string { return `{"status":200}` })},
	{"zeros", "get", repl(func(v string) string { return strings.Repeat("\x00", len(v)) })},
	{"ones", "get", repl(func(v string) string { return strings.Repeat("\xff", 64) })},
	{"plain response", "get", repl(func(string) string {
		return "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nCache-Control: max-age=100\r\n\r\nbad"
	})},
	{"text", "get", repl(func(string) string { return "hello" })},
	{"twice", "get", repl(func(v string) string {
		if len(v) < 10 {
			return v
		}
		return v[:len(v)/2] + v
	})},
}

func repl(f func(string) string) func(string) fakeredis.Action {
	return func(v string) fakeredis.Action { r := f(v); return fakeredis.Action{Replace: &r} }
}

type sut struct {
	srv *fakeredis.Server
	p   provider.Provider
}

var suts = map[string]*sut{}

func open(kind string) *sut {
	if x := suts[kind]; x != nil {
		x.srv.Fault = nil
		_ = x.p.Flush(context.Background())
		x.srv.N = 0
		return x
	}
	x := &sut{srv: fakeredis.New()}
	l1 := provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 1 << 19}
	switch kind {
	case "redis":
		x.p, _ = x.srv.Provider(false, 0, l1, provider.RedisClientConfig{})
	case "layered":
		x.p, _ = x.srv.Provider(true, 3*s, l1, provider.RedisClientConfig{})
	case "layered, small":
		l1 = provider.InMemoryCacheConfig{MaxSize: 600, MaxItemSize: 600}
		x.p, _ = x.srv.Provider(true, 3*s, l1, provider.RedisClientConfig{})
	}
	suts[kind] = x
	return open(kind)
}

// origin serves versions.
type origin struct {
	cur     map[string]int
	vouched map[string]time.Duration // url#version -> last time the origin gave or confirmed it
	noStore bool
	failing bool
	oops    time.Duration // last 500 answer to a GET for /x, -1: none
}

func body(u string, v int) string { return fmt.Sprintf("%s-v%d-%s", u, v, strings.Repeat("z", 20+v)) }

func (o *origin) reply(u string, h http.Header) string {
	v := o.cur[u]
	if o.failing {
		o.oops = world.Now()
		return world.Raw(500, "oops", "Date: "+world.Date(world.Now()))
	}
	o.vouched[fmt.Sprint(u, "#", v)] = world.Now()
	cc := "Cache-Control: max-age=10"
	if o.noStore {
		cc = "Cache-Control: no-store"
	}
	hs := []string{"Date: " + world.Date(world.Now()), cc, fmt.Sprintf("Etag: \"%d\"", v), fmt.Sprintf("X-V: %s#%d", u, v)}
	if h.Get("If-None-Match") == fmt.Sprintf("\"%d\"", v) {
		return world.Raw(304, "", hs...)
	}
	return world.Raw(200, body(u, v), hs...)
}

// run executes one history with faults and tells what went wrong and how many commands were seen.
func run(part *lib.Part, c rep) (what string, n int, trace []string) {
	vsched.SetOffline(0)
	x := open(c.Store)
	defer func() {
		x.srv.Fault = nil
		if e := recover(); e != nil {
			what = fmt.Sprint("panic: ", e, "\n", string(debug.Stack()))
		}
	}()
	ch := world.NewChain(&cache.HttpCacheConfig{Strict: c.Strict, DefaultTTL: "20s"}, x.p)
	o := &origin{cur: map[string]int{}, vouched: map[string]time.Duration{}, oops: -1}
	ch.Origin.Reply = func(cl *world.Call) world.Reply { return world.Reply{Raw: o.reply(cl.Req.URL.Path, cl.Header)} }
	faulted, ever := false, false
	x.srv.Fault = func(cl fakeredis.Call) fakeredis.Action {
		n++
		for _, f := range c.Faults {
			if n < f.From || n > f.To {
				continue
			}
			for _, k := range kinds {
				if k.name == f.Kind && (k.cmd == "" || k.cmd == cl.Name) {
					v := ""
					if cl.Name == "get" {
						v = x.srv.Val(cl.Args[0])
					}
					a := k.act(v)
					if a.Replace != nil && *a.Replace == v {
						return fakeredis.Action{}
					}
					faulted, ever = true, true
					trace = append(trace, fmt.Sprintf("    remote command %d %s: %s", n, cl.Name, k.name))
					return a
				}
			}
		}
		return fakeredis.Action{}
	}
	fresh := 10 * s
	if !c.Strict {
		fresh = 20 * s
		if strings.HasPrefix(c.Store, "layered") {
			fresh += 3 * s
		}
	}
	purged := time.Duration(-1)
	for i, st := range c.Steps {
		part.Ops++
		faulted = false
		u, method, h := "/x", "GET", http.Header{}
		switch st {
		case '6', '9':
			vsched.Advance(time.Duration(st-'0') * s)
			continue
		case 'C':
			o.cur["/x"]++
			continue
		case 'P', 'F':
			vsched.Advance(s)
			purged = world.Now()
			var err error
			if st == 'P' {
				err = x.p.Purge(context.Background(), "*")
			} else {
				err = x.p.Flush(context.Background())
			}
			trace = append(trace, fmt.Sprintf("%c -> %v", st, err))
			if err != nil {
				if !faulted {
					return fmt.Sprintf("step %d: %c fails without a fault: %v", i+1, st, err), n, trace
				}
				purged = -1
				continue
			}
			if left := x.srv.Dump(); len(left) > 0 {
				return fmt.Sprintf("step %d: %c reports success, %d keys are left", i+1, st, len(left)), n, trace
			}
			vsched.Advance(s)
			continue
		case 'N':
			h = world.H("Cache-Control", "no-cache")
		case 'H':
			method = "HEAD"
		case 'Y':
			u = "/y"
		case 'S':
			o.noStore = true
		case 'E':
			o.failing = true
		}
		r := ch.Do(method, "http://o"+u, h, "")
		trace = append(trace, fmt.Sprintf("t=%v %c %s %s -> %v", world.Now(), st, method, u, r))
		failing := o.failing
		o.noStore, o.failing = false, false
		bad := func(f string, a ...any) (string, int, []string) {
			return fmt.Sprintf("step %d %c: ", i+1, st) + fmt.Sprintf(f, a...), n, trace
		}
		if r.Err != nil || r.BodyErr != nil {
			return bad("the client got %v", r)
		}
		if len(r.Calls) > 1 {
			return bad("the origin was asked %d times", len(r.Calls))
		}
		if len(r.Calls) > 0 && failing {
			if r.Status != 500 || string(r.Body) != "oops" && method == "GET" {
				return bad("the origin answered 500, the client got %v", r)
			}
			continue
		}
		if len(r.Calls) == 0 && r.Status == 500 && !c.Strict && u == "/x" && o.oops >= 0 && (method == "HEAD" || string(r.Body) == "oops") {
			// every answer is kept in non-strict mode
			if world.Now()-o.oops > fresh || purged >= 0 && o.oops < purged {
				return bad("the 500 of %v is served from the cache at %v (purge at %v)", o.oops, world.Now(), purged)
			}
			continue
		}
		var v int
		if k, err := fmt.Sscanf(r.Header.Get("X-V"), u+"#%d", &v); k != 1 || err != nil || r.Status != 200 {
			return bad("not an answer of the origin for %s: %v", u, r)
		}
		if want := body(u, v); method == "GET" && string(r.Body) != want || r.Header.Get("Content-Length") != fmt.Sprint(len(want)) && method == "GET" || r.Header.Get("Etag") != fmt.Sprintf("\"%d\"", v) {
			return bad("wrong or mixed response: %v", r)
		}
		if len(r.Calls) > 0 {
			if v != o.cur[u] {
				return bad("the origin was asked and has version %d, the client got %v", o.cur[u], r)
			}
			continue
		}
		at, ok := o.vouched[fmt.Sprint(u, "#", v)]
		if !ok || world.Now()-at > fresh {
			return bad("version %d last given or confirmed at %v is served from the cache at %v", v, at, world.Now())
		}
		if purged >= 0 && at < purged {
			return bad("version %d last given at %v is served although a purge at %v was acknowledged", v, at, purged)
		}
		if st == 'N' && c.Strict {
			return bad("a request with no-cache was answered from the cache")
		}
	}
	if ever {
		// the backend works again
		x.srv.Fault = nil
		for i := range 2 {
			vsched.Advance(s)
			r := ch.Do("GET", "http://o/w", nil, "")
			trace = append(trace, fmt.Sprintf("after the faults: t=%v GET /w -> %v", world.Now(), r))
			if r.Status != 200 || string(r.Body) != body("/w", 0) || len(r.Calls) != 1-i {
				return fmt.Sprintf("after the faults: request %d for /w asked the origin %d times: %v", i+1, len(r.Calls), r), n, trace
			}
		}
	}
	return "", n, trace
}

func histories(depth int) (out []string) {
	al := "GNHSEYC6PF"
	var rec func(p string)
	rec = func(p string) {
		if len(p) == depth {
			// ends with a request and contains more than one
			if strings.ContainsAny(p[len(p)-1:], "GHNY") && strings.Count(p, "G")+strings.Count(p, "N")+strings.Count(p, "H") > 1 {
				out = append(out, p)
			}
			return
		}
		for _, a := range al {
			if len(p) == 0 && strings.ContainsRune("6CPF", a) || len(p) > 0 && byte(a) == p[len(p)-1] && strings.ContainsRune("CPF", a) {
				continue
			}
			rec(p + string(a))
		}
	}
	rec("")
	return
}

func main() {
	lib.Alphabet = fmt.Sprintf("every history of requests (plain, no-cache, HEAD, other resource), origin answers (200, 304, no-store, 500), content changes, time steps, purge and flush up to a depth; %d faults at every remote command, pairs of faults and outages from every command on; the real client against a server that goes away", len(kinds))
	lib.Assumptions = []string{"foreign bytes are anything but a complete entry written by kache", "a response of the origin that is still fresh by its own headers is a correct answer even if a later write was lost", "stores are applied before the next request"}
	lib.Main("C16", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				w := ""
				var tr []string
				if r.Outage != "" {
					w = outage(r.Store == "layered", r.Outage)
				} else {
					w, _, tr = run(p, r)
				}
				if w != "" {
					p.Fail("replay", w, r, tr...)
				}
			}
			return
		}
		cnt := 0
		try := func(group string, r rep) (int, bool) {
			lib.Case(func() string { return fmt.Sprintf("%+v", r) })
			w, n, tr := run(p, r)
			lib.Idle()
			p.Traces++
			p.Scenarios[group+", "+r.Store]++
			if w == "" {
				return n, true
			}
			for k := 0; k < 5; k++ {
				if w2, _, _ := run(p, r); w2 == "" {
					p.Unconf = append(p.Unconf, w)
					return n, true
				}
			}
			p.Fail(fmt.Sprintf("%s strict=%v %s %v", r.Store, r.Strict, r.Steps, r.Faults), w, r, tr...)
			return n, len(p.Viols) < 3
		}
		depth := 4
		if c.Thorough {
			depth = 5
		}
		lib.Bounds["depth"] = depth
		if c.Shard == c.Of-1 {
			for _, lay := range []bool{false, true} {
				for _, when := range []string{"start", "filled"} {
					w := outage(lay, when)
					p.Traces++
					p.Scenarios["server goes away"]++
					if w != "" && outage(lay, when) != "" {
						st := "redis"
						if lay {
							st = "layered"
						}
						p.Fail("outage "+st+" "+when, w, rep{Store: st, Outage: when})
					}
				}
			}
		}
		for d := 2; d <= depth; d++ {
			for _, h := range histories(d) {
				for _, st := range []string{"redis", "layered", "layered, small"} {
					for _, strict := range []bool{true, false} {
						cnt++
						if cnt%c.Of != c.Shard {
							continue
						}
						if c.Expired(p, fmt.Sprint("histories of depth ", d)) {
							return
						}
						r := rep{Store: st, Strict: strict, Steps: h}
						n, ok := try("no fault", r)
						if !ok {
							return
						}
						p.State(h, st, strict)
						for _, k := range kinds {
							for i := 1; i <= n+1; i++ {
								r.Faults = []Fault{{i, i, k.name}}
								if _, ok := try("one fault", r); !ok {
									return
								}
								if k.cmd == "" && k.name == "error" || k.name == "first half" {
									r.Faults = []Fault{{i, 1 << 30, k.name}}
									if _, ok := try("outage", r); !ok {
										return
									}
									r.Faults = []Fault{{i, i + 1, k.name}}
									if _, ok := try("two in a row", r); !ok {
										return
									}
								}
							}
						}
						if d < depth || c.Thorough {
							for _, k := range kinds[:1] {
								for _, k2 := range []string{"executed, answer lost", "acknowledged, not executed", "first half", "error"} {
									for i := 1; i <= n; i++ {
										for j := 1; j <= n+1; j++ {
											if i == j {
												continue
											}
											r.Faults = []Fault{{i, i, k.name}, {j, j, k2}}
											if _, ok := try("two faults", r); !ok {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
		// truncation at every byte
		if c.Thorough || true {
			for cut := 0; cut < 700; cut++ {
				cnt++
				if cnt%c.Of != c.Shard {
					continue
				}
				name := fmt.Sprint("cut at ", cut)
				kinds = append(kinds, struct {
					name, cmd string
					act       func(string) fakeredis.Action
				}{name, "get", repl(func(v string) string { return v[:min(cut, len(v))] })})
				for _, strict := range []bool{true, false} {
					r := rep{Store: "redis", Strict: strict, Steps: "GGHG", Faults: []Fault{{1, 1 << 30, name}}}
					if _, ok := try("every truncation", r); !ok {
						return
					}
				}
				kinds = kinds[:len(kinds)-1]
			}
		}
	})
}

// outage runs the complete proxy on a real client whose server goes away and comes back.
func outage(layered bool, when string) (what string) {
	m, err := miniredis.Run()
	if err != nil {
		panic(err)
	}
	defer m.Close()
	cl, err := provider.NewRedisClient("r", provider.RedisClientConfig{Endpoint: m.Addr(), MaxQueueConcurrency: 1, MaxQueueBufferSize: 2})
	if err != nil {
		panic(err)
	}
	defer cl.Stop()
	var p provider.Provider = provider.NewRedisCache("r", cl)
	if layered {
		if p, err = provider.NewCached(p, "r", time.Minute, provider.InMemoryCacheConfig{}); err != nil {
			panic(err)
		}
	}
	o := e2e.NewOrigin("o")
	defer o.Down()
	o.Set(func(q *e2e.Req) e2e.Script {
		return e2e.Script{Raw: e2e.Reply(200, "body of "+q.Target, "Cache-Control: max-age=1000", "Date: "+time.Now().UTC().Format(http.TimeFormat))}
	})
	px := e2e.New(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "1h"}, p, e2e.Up{Path: "/", Addr: "http://" + o.Addr})
	defer px.Close()
	get := func(t string) string {
		r := px.Do(e2e.Raw("GET", t, "c", ""))
		if r.Err != nil || r.Status != 200 || string(r.Body) != "body of "+t || r.Aborted != nil {
			return fmt.Sprintf("GET %s while the backend is away (%s): %v", t, when, r)
		}
		return ""
	}
	if when == "filled" {
		for _, t := range []string{"/1", "/2", "/1"} {
			if w := get(t); w != "" {
				return w
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	m.Close()
	for _, t := range []string{"/1", "/2", "/3", "/3"} {
		if w := get(t); w != "" {
			return w
		}
	}
	srv, err := server.NewServer(&config.Configuration{}, p, px.Cache, nil)
	if err != nil {
		panic(err)
	}
	for _, op := range []struct {
		name, method string
		f            http.HandlerFunc
	}{{"purge", "PURGE", srv.CacheKeyPurgeHandler}, {"invalidate", "DELETE", srv.CacheInvalidateHandler}, {"flush", "DELETE", srv.CacheFlushHandler}} {
		w := httptest.NewRecorder()
		q := httptest.NewRequest(op.method, "/api/cache/x", nil)
		q.Header.Set("X-Purge-Key", "*")
		op.f(w, q)
		if w.Code < 400 {
			return fmt.Sprintf("%s answers %d while the backend is away", op.name, w.Code)
		}
	}
	if err := m.Restart(); err != nil {
		return ""
	}
	for _, t := range []string{"/1", "/2", "/4", "/4"} {
		if w := get(t); w != "" {
			return "after the backend came back: " + w
		}
	}
	return ""
}
