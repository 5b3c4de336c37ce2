// C20: management operations do exactly what they acknowledge.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/lrumodel"
	"kverif/vsched"
	"kverif/world"
)

const s = time.Second

var urls = []string{"/a", "/a/b", "/ab", "/a?x=1", "/A", "/a.css", "/a.c?s=s", "/"}

// op is a step: a client request (Get), a change of the content (Get with Change), a wait, or a management request.
type op struct {
	Get    string `json:"get,omitempty"`
	Change bool   `json:"change,omitempty"`
	Wait   int    `json:"wait,omitempty"`
	Method string `json:"m,omitempty"`
	Path   string `json:"p,omitempty"` // {p} stands for the prefix
	Key    string `json:"k,omitempty"`
	Body   string `json:"b,omitempty"`
}

func (o op) String() string {
	switch {
	case o.Get != "" && o.Change:
		return "change " + o.Get
	case o.Get != "":
		return "GET " + o.Get
	case o.Wait > 0:
		return fmt.Sprint("wait ", o.Wait)
	}
	b := o.Body
	if len(b) > 200 {
		b = fmt.Sprint(len(b), " bytes ...", b[len(b)-50:])
	}
	return fmt.Sprintf("%s %s %q %q", o.Method, o.Path, o.Key, b)
}

type rep struct {
	Store  string `json:"store"`
	Prefix string `json:"prefix"`
	Ops    []op   `json:"ops"`
	Fail   int    `json:"fail,omitempty"` // remote command of a management request that fails, from 1
	More   bool   `json:"more,omitempty"` // and all later ones of the request
}

type sys struct {
	srv  *fakeredis.Server
	p    provider.Provider
	ch   *world.Chain
	api  http.Handler
	vers map[string]int
	pre  string
}

var systems = map[string]*sys{}

var base = cache.HttpCacheConfig{Strict: true, DefaultTTL: "100s"}

func open(store, prefix string) *sys {
	k := store + " " + prefix
	x := systems[k]
	if x == nil {
		x = &sys{pre: "/" + strings.Trim(prefix, "/")}
		if prefix == "" {
			x.pre = "/api"
		}
		l1 := provider.InMemoryCacheConfig{MaxSize: 1 << 22, MaxItemSize: 1 << 20}
		switch store {
		case "memory":
			x.p = world.NewProvider()
		case "redis":
			x.srv = fakeredis.New()
			x.p, _ = x.srv.Provider(false, 0, l1, provider.RedisClientConfig{})
		case "layered":
			x.srv = fakeredis.New()
			x.p, _ = x.srv.Provider(true, 2*s, l1, provider.RedisClientConfig{})
		}
		if x.srv != nil {
			x.srv.Page = 2
		}
		cfg := base
		x.ch = world.NewChain(&cfg, x.p)
		x.ch.Origin.Reply = func(cl *world.Call) world.Reply {
			u := cl.Req.URL.RequestURI()
			return world.Reply{Raw: world.Raw(200, fmt.Sprint(u, "#", x.vers[u]), "Date: "+world.Date(world.Now()), "Cache-Control: max-age=1000")}
		}
		a := config.API{Prefix: prefix}
		srv, err := server.NewServer(&config.Configuration{API: &a}, x.p, x.ch.Cache, nil)
		if err != nil {
			panic(err)
		}
		if x.api, err = api.New(a, srv); err != nil {
			panic(err)
		}
		systems[k] = x
	}
	_ = x.p.Flush(context.Background())
	cfg := base
	x.ch.Cache.UpdateConfig(&cfg)
	x.vers = map[string]int{}
	return x
}

func (x *sys) do(method, path, key, body string, hdr bool) *httptest.ResponseRecorder {
	q := httptest.NewRequest(method, "http://k"+path, bytes.NewBufferString(body))
	if hdr {
		q.Header.Set("X-Purge-Key", key)
	}
	w := httptest.NewRecorder()
	x.api.ServeHTTP(w, q)
	return w
}

func keyOf(u string) string { return "kache-http://o" + u }

// conf is the expected configuration.
type conf struct {
	Strict bool
	X      bool
	Name   string
	TTL    string
	Path   string // the only path rule
	PTTL   time.Duration
}

var bodies = map[string]*conf{
	"x_header: true\n": {Strict: true, X: true},
	"strict: false\nx_header: true\nx_header_name: x-k\n": {X: true, Name: "x-k"},
	"default_ttl: 5s\n": {Strict: true, TTL: "5s"},
	"{\"default_ttl\": \"200s\", \"timeouts\": [{\"path\": \"^/a\", \"ttl\": \"5s\"}]}": {Strict: true, TTL: "200s", Path: "/a", PTTL: 5 * s},
	"#" + strings.Repeat("-", 70000) + "\nx_header: true\n":                             {Strict: true, X: true},
	"default_ttl: 5s\n#" + strings.Repeat("-", 70000) + "\nx_header: true\n\tbad: 1":    nil,
	"":                         nil,
	"strict: [1]\n":            nil,
	"- a\n":                    nil,
	"a: b: c\n":                nil,
	"x_header: true\n\tbad: 1": nil,
}

func (c conf) ttl(u string) time.Duration {
	if c.Path != "" && strings.HasPrefix(u, c.Path) {
		return c.PTTL
	}
	d := c.TTL
	if d == "" {
		d = "120s"
	}
	t, _ := time.ParseDuration(d)
	return t
}

func run(p *lib.Part, r rep) (what string, trace []string) {
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprint("panic: ", e, "\n", string(debug.Stack()))
		}
	}()
	vsched.SetOffline(0)
	x := open(r.Store, r.Prefix)
	type ent struct {
		v   int
		exp time.Duration
	}
	held := map[string]ent{}
	cf := conf{Strict: true, TTL: "100s"}
	for i, o := range r.Ops {
		p.Ops++
		bad := func(f string, a ...any) (string, []string) {
			return fmt.Sprintf("%s, step %d %v: ", r.Store, i+1, o) + fmt.Sprintf(f, a...), trace
		}
		code := 0
		switch {
		case o.Wait > 0:
			vsched.Advance(time.Duration(o.Wait) * s)
		case o.Change:
			x.vers[o.Get]++
		case o.Get != "":
			e, ok := held[o.Get]
			if ok && world.Now() == e.exp {
				return "", trace // at the very end of its life, not decided
			}
			ok = ok && world.Now() < e.exp
			res := x.ch.Do("GET", "http://o"+o.Get, http.Header{}, "")
			if !ok {
				e = ent{x.vers[o.Get], world.Now() + cf.ttl(o.Get)}
				held[o.Get] = e
			}
			if (len(res.Calls) == 0) != ok || res.Status != 200 || string(res.Body) != fmt.Sprint(o.Get, "#", e.v) {
				return bad("stored: %v, version %d; the client got %v (origin asked %d times)", ok, e.v, res, len(res.Calls))
			}
			name := cf.Name
			if name == "" {
				name = "X-Kache"
			}
			if m := res.Header.Get(name) == "HIT"; m != (cf.X && ok) {
				return bad("marker %v, from the cache %v, configured %v", m, ok, cf.X)
			}
		default:
			path := strings.ReplaceAll(o.Path, "{p}", x.pre)
			cmds, failed := 0, false
			if r.Fail > 0 && x.srv != nil {
				x.srv.Fault = func(fakeredis.Call) fakeredis.Action {
					if cmds++; cmds == r.Fail || r.More && cmds > r.Fail {
						failed = true
						return fakeredis.Action{Err: errors.New("ERR backend")}
					}
					return fakeredis.Action{}
				}
			}
			w := x.do(o.Method, path, o.Key, o.Body, o.Key != "-")
			code = w.Code
			if x.srv != nil {
				x.srv.Fault = nil
			}
			if failed && code >= 400 {
				// not carried out: what does not match has to be there still
				for u, e := range held {
					if o.Path == "{p}/cache/flush" || o.Key == "" || o.Key == "-" || lrumodel.Match(o.Key, keyOf(u)) || world.Now() >= e.exp {
						continue
					}
					res := x.ch.Do("GET", "http://o"+u, http.Header{}, "")
					if len(res.Calls) > 0 || res.Status != 200 || string(res.Body) != fmt.Sprint(u, "#", e.v) {
						return bad("failed with %d and %s, which does not match, is gone: %v", code, u, res)
					}
				}
				return "", trace
			}
			rm := func() {
				for u := range held {
					if o.Key == "" || o.Key == "-" || lrumodel.Match(o.Key, keyOf(u)) {
						delete(held, u)
					}
				}
			}
			want := 200
			switch o.Method + " " + o.Path {
			case "PURGE /", "DELETE {p}/cache/invalidate":
				rm()
			case "DELETE {p}/cache/flush":
				held = map[string]ent{}
			case "GET {p}/cache/keys", "GET {p}/cache/config":
			case "PUT {p}/cache/config/update":
				if c, ok := bodies[o.Body]; ok && c != nil {
					cf = *c
				} else {
					want = 400
				}
			default:
				if code < 300 {
					return bad("answers %d", code)
				}
				want = code
			}
			if code != want {
				return bad("answers %d, not %d", code, want)
			}
		}
		trace = append(trace, fmt.Sprint(o, " -> ", code))
		// the listing
		w := x.do("GET", x.pre+"/cache/keys", "", "", false)
		var got []string
		if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil || w.Code != 200 {
			return bad("key listing: %d %s", w.Code, w.Body)
		}
		sort.Strings(got)
		var want []string
		for u, e := range held {
			if world.Now() < e.exp || r.Store == "memory" && has(got, keyOf(u)) || world.Now() == e.exp && has(got, keyOf(u)) {
				want = append(want, keyOf(u))
			}
		}
		sort.Strings(want)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return bad("the listing is %q, held are %q", got, want)
		}
		// the configuration
		w = x.do("GET", x.pre+"/cache/config", "", "", false)
		var c cache.HttpCacheConfig
		if err := json.Unmarshal(w.Body.Bytes(), &c); err != nil || w.Code != 200 {
			return bad("config: %d %s", w.Code, w.Body)
		}
		pt := ""
		if len(c.Timeouts) == 1 {
			pt = fmt.Sprint(c.Timeouts[0].Path, c.Timeouts[0].TTL)
		}
		wt := ""
		if cf.Path != "" {
			wt = fmt.Sprint("^", cf.Path, cf.PTTL)
		}
		if c.Strict != cf.Strict || c.XCache != cf.X || c.XCacheName != cf.Name || c.DefaultTTL != cf.TTL || pt != wt || len(c.Timeouts) > 1 || c.Exclude != nil || c.ForceCacheControl || c.DefaultCacheControl != "" {
			return bad("the config endpoint returns %s, in force is %+v", w.Body, cf)
		}
	}
	return "", trace
}

func has(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func main() {
	lib.Alphabet = "client requests for 8 URLs, content changes, waits, purge and invalidate with 24 patterns, flush, 11 config updates (5 valid, up to 70 kB), other methods and paths; every single backend command of a management request failing, or all from one on; in-memory, redis and layered stores; 4 prefixes"
	lib.Assumptions = []string{"backend faults in client traffic: C16", "stores are applied before the next request", "an empty pattern or none stands for everything; the listing of the in-memory store may contain expired entries until they are touched"}
	lib.Main("C20", 60*time.Second, 700*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				if w, tr := run(p, r); w != "" {
					p.Fail("replay", w, r, tr...)
				}
			}
			return
		}
		cnt := 0
		stores := []string{"memory", "redis", "layered"}
		try := func(group string, r rep) bool {
			cnt++
			if cnt%c.Of != c.Shard {
				return true
			}
			if c.Expired(p, group) {
				return false
			}
			lib.Case(func() string { return fmt.Sprintf("%+v", r) })
			w, tr := run(p, r)
			lib.Idle()
			p.Traces++
			p.Scenarios[group]++
			p.State(fmt.Sprint(r))
			if w != "" && !p.Sure(5, w, func() string { w, _ := run(p, r); return w }) {
				return true
			}
			if w != "" {
				p.Fail(fmt.Sprint(r), w, r, tr...)
			}
			return len(p.Viols) < 3
		}
		var fill []op
		for _, u := range urls {
			fill = append(fill, op{Get: u})
		}
		var check []op
		for _, u := range urls {
			check = append(check, op{Get: u, Change: true}, op{Get: u})
		}
		seq := func(parts ...[]op) (out []op) {
			for _, x := range parts {
				out = append(out, x...)
			}
			return
		}
		k := "kache-http://o"
		pats := []string{"*", k + "/a", k + "/a/b", k + "/a*", k + "/a?x=1", k + "/a?*", k + "/a.c*", k + "/a.c?s=s", k + "/*", "*a", "*/b", "*a*b*", "kache*css", "*A", k, "/a", "*a.css", k + "/[a]", "*[ab]", k + "/.", k + "/..*", "", "-", "kache-http://O/a", "*?*"}
		var ops, wrong []op
		for _, pt := range pats {
			ops = append(ops, op{Method: "PURGE", Path: "/", Key: pt}, op{Method: "DELETE", Path: "{p}/cache/invalidate", Key: pt})
		}
		ops = append(ops, op{Method: "DELETE", Path: "{p}/cache/flush", Key: "x"}, op{Method: "GET", Path: "{p}/cache/keys", Key: "*"}, op{Method: "GET", Path: "{p}/cache/config", Key: "*"})
		var bs []string
		for b := range bodies {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			ops = append(ops, op{Method: "PUT", Path: "{p}/cache/config/update", Body: b, Key: "*"})
		}
		for _, m := range []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "PURGE", "OPTIONS", "FOO", "purge"} {
			for _, pth := range []string{"/", "{p}", "{p}/", "{p}/cache", "{p}/cache/flush", "{p}/cache/invalidate", "{p}/cache/config/update", "{p}/cache/config", "{p}/cache/keys", "{p}/cache/flush/", "{p}/cache/invalidate/x", "/x", "/cache/flush", "/cache/invalidate", "/cache/config/update", "/other/cache/flush", "/other/cache/invalidate", "{p}x/cache/flush", "/x{p}/cache/flush", "{p}/cache/purge", "{p}/cache/FLUSH", "{p}//cache/flush", "{p}/cache/x/../flush"} {
				o := op{Method: m, Path: pth, Key: "*", Body: "strict: false\n"}
				switch m + " " + pth {
				case "PURGE /", "DELETE {p}/cache/flush", "DELETE {p}/cache/invalidate", "PUT {p}/cache/config/update", "GET {p}/cache/config", "GET {p}/cache/keys":
					continue
				}
				wrong = append(wrong, o)
			}
		}
		// every single operation, every prefix
		for _, pre := range []string{"", "/k", "k/x/", "/api/v1"} {
			for _, st := range stores {
				for _, o := range append(append([]op{}, ops...), wrong...) {
					if !try("single operations", rep{st, pre, seq(fill, []op{o}, check), 0, false}) {
						return
					}
				}
				if pre != "" {
					for _, o := range ops {
						if o.Path == "/" {
							continue
						}
						o.Path = strings.Replace(o.Path, "{p}", "/api", 1)
						if !try("the default prefix when another is configured", rep{st, pre, seq(fill, []op{o}, check), 0, false}) {
							return
						}
					}
				}
			}
		}
		// every pair and, with a smaller alphabet, every sequence
		for _, st := range stores {
			for _, a := range ops {
				if st != "memory" && a.Path != "{p}/cache/keys" {
					for f := 1; f <= 14; f++ {
						for _, more := range []bool{false, true} {
							if !try("a failing backend command", rep{st, "", seq(fill, []op{a}, check), f, more}) {
								return
							}
						}
					}
				}
				for _, b := range ops {
					if !try("pairs of operations", rep{st, "", seq(fill, []op{a}, fill[:3], []op{b}, check), 0, false}) {
						return
					}
				}
			}
		}
		small := []op{{Get: "/a"}, {Get: "/a/b"}, {Get: "/a", Change: true}, {Wait: 4}, {Method: "PURGE", Path: "/", Key: "*a"}, {Method: "DELETE", Path: "{p}/cache/invalidate", Key: k + "/a*"}, {Method: "DELETE", Path: "{p}/cache/flush"}, {Method: "PUT", Path: "{p}/cache/config/update", Body: "default_ttl: 5s\n"}, {Method: "PUT", Path: "{p}/cache/config/update", Body: "strict: [1]\n"}, {Method: "PUT", Path: "{p}/cache/config/update", Body: "x_header: true\n"}}
		depth := 5
		if c.Thorough {
			depth = 6
		}
		lib.Bounds["depth"] = depth
		var rec func(h []op) bool
		rec = func(h []op) bool {
			if len(h) == depth {
				for _, st := range stores {
					if !try("sequences", rep{st, "", append(append([]op{}, h...), op{Get: "/a"}, op{Get: "/a/b"}), 0, false}) {
						return false
					}
				}
				return true
			}
			for _, o := range small {
				if !rec(append(h[:len(h):len(h)], o)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	})
}
