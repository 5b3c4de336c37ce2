// C05: different resources never share a cache entry.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"kverif/e2e"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

// canon is the identity of a resource: scheme, host, cleaned path as encoded, and the query as
// values per name. A query that is not well formed stands for itself.
func canon(scheme, host, uri string) string {
	host = strings.ToLower(host)
	if scheme == "http" {
		host = strings.TrimSuffix(host, ":80")
	} else {
		host = strings.TrimSuffix(host, ":443")
	}
	p, q, _ := strings.Cut(uri, "?")
	p = path.Clean("/" + p)
	if v, err := url.ParseQuery(q); err != nil {
		q = "!" + q
	} else {
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		q = ""
		for _, k := range ks {
			q += fmt.Sprintf("%q=%q;", k, v[k])
		}
	}
	return scheme + " " + host + " " + p + " " + q
}

type rep struct {
	Kind  string `json:"kind"` // chain, nested, e2e
	Store string `json:"store"`
	A     string `json:"a"`
	B     string `json:"b"`
}

func identity(u string) (string, bool) {
	r, err := url.Parse(u)
	if err != nil {
		return "", false
	}
	return canon(r.Scheme, r.Host, r.RequestURI()), true
}

func newStore(kind string) provider.Provider {
	l1 := provider.InMemoryCacheConfig{MaxSize: 1 << 34, MaxItemSize: 1 << 20}
	switch kind {
	case "redis":
		p, _ := fakeredis.New().Provider(false, 0, l1, provider.RedisClientConfig{})
		return p
	case "layered":
		p, _ := fakeredis.New().Provider(true, time.Hour, l1, provider.RedisClientConfig{})
		return p
	}
	p, err := provider.NewInMemoryCache(l1)
	if err != nil {
		panic(err)
	}
	return p
}

func cfg() *cache.HttpCacheConfig {
	return &cache.HttpCacheConfig{Strict: true, DefaultTTL: "100000h"}
}

func newChain(store string) *world.Chain {
	ch := world.NewChain(cfg(), newStore(store))
	ch.Origin.Keep = 1
	return ch
}

func answer(i int) string {
	return world.Raw(200, strconv.Itoa(i), "Cache-Control: max-age=1000000", "Date: "+world.Date(0))
}

// family stores the answer of every URL and then asks for every URL again: an answer taken from the
// store must belong to the same resource. It returns the pair that shares an entry.
func family(c *lib.Check, p *lib.Part, name, store string, urls []string) (a, b string, what string) {
	vsched.SetOffline(0)
	ch := newChain(store)
	ids := make([]string, 0, len(urls))
	ok := urls[:0:0]
	for _, u := range urls {
		if id, good := identity(u); good {
			ok, ids = append(ok, u), append(ids, id)
		}
	}
	h := http.Header{}
	hits, classes := 0, map[string]bool{}
	for pass := 0; pass < 3; pass++ {
		for k := range ok {
			i := k
			if pass == 1 {
				i = len(ok) - 1 - k
			}
			if k&1023 == 0 && c.Expired(p, name) {
				return
			}
			ch.Origin.Reply = func(*world.Call) world.Reply { return world.Reply{Raw: answer(i)} }
			method := "GET"
			if pass == 2 {
				method = "HEAD"
				ch.Origin.Reply = func(*world.Call) world.Reply {
					return world.Reply{Raw: world.Raw(404, "", "Cache-Control: no-store")}
				}
			}
			r := ch.Do(method, ok[i], h, "")
			p.Ops++
			if r.Err != nil {
				p.Extra["requests_failed"]++
				continue
			}
			if len(r.Calls) > 0 {
				if pass > 0 {
					p.Extra["asked_again"]++
				}
				classes[ids[i]] = true
				continue
			}
			hits++
			if pass == 2 {
				continue
			}
			j, err := strconv.Atoi(string(r.Body))
			if err != nil || j < 0 || j >= len(ok) {
				return ok[i], ok[i], "answered with a body nobody sent: " + string(r.Body)
			}
			if ids[i] != ids[j] {
				return ok[j], ok[i], fmt.Sprintf("the response stored for %q is served to %q", ok[j], ok[i])
			}
		}
	}
	p.Traces += int64(len(ok))
	p.Scenarios[name+", "+store] += int64(len(ok))
	p.Outcome(fmt.Sprintf("%s %s: %d urls, %d resources, %d answers from the store", name, store, len(ok), len(classes), hits))
	for id := range classes {
		p.State(id)
	}
	return
}

// pair checks two URLs in order on a fresh store.
func pair(store, a, b string) string {
	vsched.SetOffline(0)
	ch := newChain(store)
	ida, _ := identity(a)
	idb, _ := identity(b)
	for i, u := range []string{a, b, a} {
		ch.Origin.Reply = func(*world.Call) world.Reply { return world.Reply{Raw: answer(i)} }
		r := ch.Do("GET", u, http.Header{}, "")
		if r.Err == nil && len(r.Calls) == 0 {
			j, _ := strconv.Atoi(string(r.Body))
			if (i == 1) != (j == 1) && ida != idb {
				return fmt.Sprintf("the response stored for %q is served to %q", []string{a, b, a}[j], u)
			}
		}
	}
	return ""
}

// nested asks for b while the answer for a is outstanding.
func nested(store, a, b string) string {
	vsched.SetOffline(0)
	ch := newChain(store)
	ida, _ := identity(a)
	idb, _ := identity(b)
	if ida == idb {
		return ""
	}
	type res struct {
		body string
		err  error
	}
	done := make(chan res, 1)
	reached := make(chan bool, 4)
	var outer bool
	rt := &dispatch{}
	rt.f = func(r *http.Request) string {
		if !outer {
			outer = true
			go func() {
				x := world.ReadResult(ch.RT.RoundTrip(world.NewRequest(context.Background(), "GET", b, http.Header{}, "")))
				done <- res{string(x.Body), x.Err}
			}()
			select {
			case <-reached:
			case x := <-done:
				done <- x
			case <-time.After(3 * time.Second):
			}
			return "A"
		}
		reached <- true
		return "B"
	}
	ch2 := world.NewChainRT(cfg(), ch.Provider, rt)
	ch.RT = ch2
	x := world.ReadResult(ch.RT.RoundTrip(world.NewRequest(context.Background(), "GET", a, http.Header{}, "")))
	select {
	case y := <-done:
		if y.err == nil && y.body == "A" {
			return fmt.Sprintf("the answer to %q in flight was given to %q", a, b)
		}
	case <-time.After(3 * time.Second):
		return fmt.Sprintf("%q is never answered while %q was in flight", b, a)
	}
	if x.Err == nil && string(x.Body) != "A" {
		return fmt.Sprintf("%q received the answer to %q", a, b)
	}
	return ""
}

type dispatch struct{ f func(*http.Request) string }

func (d *dispatch) RoundTrip(r *http.Request) (*http.Response, error) {
	return world.Parse(world.Raw(200, d.f(r), "Cache-Control: max-age=1000000", "Date: "+world.Date(0)), r)
}

func seqs(tokens []string, max int, f func(string)) {
	var rec func(pre string, n int)
	rec = func(pre string, n int) {
		f(pre)
		if n == 0 {
			return
		}
		for _, t := range tokens {
			rec(pre+t, n-1)
		}
	}
	rec("", max)
}

var (
	pathTokens  = []string{"/", "a", "b", "A", "%2F", "%2f", "%25", "%61", "+", "%20", ".", "%3F", ";", "%C3%A4"}
	pathTokens2 = []string{"/", "a", ".", "%2e", "%2E", "%2F", "*", "%00", ":", "@", "=", "&", "%26", "%23", "~", "!", "$", "%5C", "%0A", "ä"}
	queryTokens = []string{"a", "b", "=", "&", "+", "%20", "%2B", ";", "%zz", "%26", "%3D", "/"}
	queryTok2   = []string{"a", "=", "&", "A", "%61", "%", "%2", "#", "?", "%00", "..", "%C3%A4", "ä", "[]", "1"}
	schemes     = []string{"http", "https"}
	hosts       = []string{"o", "O", "o:80", "o:443", "o:8080", "p", "o.", "[::1]", "[::1]:80", "10.0.0.1", "op", "o.p", "xn--o"}
	small       = []string{"/", "", "/a", "/a/", "//a", "/b", "/a/b", "/a/../b", "/a%2Fb", "/%61", "/A", "/a;x", "/a.b", "/a/.", "/o", "/o/a", "/http:/o/a", "/a%3Fq=1", "/p"}
	smallQ      = []string{"", "?", "?q=1", "?q=2", "?q=1&r=1", "?r=1&q=1", "?q=1&q=2", "?q=2&q=1", "?q", "?q=", "?=q", "?Q=1", "?q=%31", "?q=a+b", "?q=a%20b", "?q=a%2Bb", "?q=1;r=1", "?q=%zz", "?q=%zz&r=1", "?q=/a", "?a=http://o/", "?q=1%26r=1", "?q=1%3D", "?&q=1", "?q=1&"}
)

func product() (out []string) {
	for _, s := range schemes {
		for _, h := range hosts {
			for _, p := range small {
				for _, q := range smallQ {
					out = append(out, s+"://"+h+p+q)
				}
			}
		}
	}
	return
}

func report(c *lib.Check, p *lib.Part, name, store, a, b, what string) {
	for k := 0; k < 5; k++ {
		if w := pair(store, a, b); w == "" {
			// needs the rest of the family
			p.Unconf = append(p.Unconf, name+": "+what)
			return
		}
	}
	p.Fail(fmt.Sprintf("%s %q %q", store, a, b), what, rep{"chain", store, a, b}, "request "+a+" -> stored", "request "+b+" -> answered from the store with the response of "+a)
}

func main() {
	lib.Alphabet = "all paths and queries over token alphabets up to a length, products of schemes, hosts, paths and queries, on the in-memory, redis and layered store; all ordered pairs of a smaller universe with one request in flight; raw request targets through the complete proxy"
	lib.Assumptions = []string{"request URLs up to the stated number of tokens; host names compare case-insensitively and without default port; percent-encodings of the path are distinct resources"}
	lib.Main("C05", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) != nil {
				return
			}
			w := ""
			switch r.Kind {
			case "chain":
				w = pair(r.Store, r.A, r.B)
			case "nested":
				w = nested(r.Store, r.A, r.B)
			case "e2e":
				w = sockets(p, []string{r.A, r.B})
			}
			if w != "" {
				p.Fail("replay", w, r)
			}
			return
		}
		n := 0
		mine := func() bool { n++; return n%c.Of == c.Shard }
		deep := 4
		if c.Thorough {
			deep = 5
		}
		lib.Bounds["path_tokens"], lib.Bounds["query_tokens"] = deep, deep
		run := func(name, store string, gen func() []string) {
			if !mine() || len(p.Viols) > 0 {
				return
			}
			if a, b, w := family(c, p, name, store, gen()); w != "" {
				report(c, p, name, store, a, b, w)
			}
		}
		all := func(tokens []string, k int, pre string) func() []string {
			return func() (out []string) {
				seqs(tokens, k, func(s string) { out = append(out, pre+s) })
				return
			}
		}
		run("paths", "memory", all(pathTokens, deep, "http://o/"))
		run("paths 2", "memory", all(pathTokens2, deep-1, "http://o/"))
		run("paths 3", "memory", all([]string{"/", "a", ".", "%2F"}, deep+3, "http://o/"))
		run("queries", "memory", all(queryTokens, deep, "http://o/x?"))
		run("queries 2", "memory", all(queryTok2, deep-1, "http://o/x?"))
		run("queries 3", "memory", all([]string{"a", "b", "=", "&", "%26"}, deep+2, "http://o/x?"))
		run("path or query", "memory", all([]string{"/", "a", "?", "%3F", "=", "&", "%3D", "%26"}, deep, "http://o/"))
		run("product", "memory", product)
		for _, st := range []string{"redis", "layered"} {
			run("product", st, product)
			run("paths", st, all(pathTokens, deep-1, "http://o/"))
			run("queries", st, all(queryTokens, deep-1, "http://o/x?"))
		}
		if mine() {
			var ts []string
			for _, a := range small[2:] {
				for _, b := range smallQ {
					ts = append(ts, a+b)
				}
			}
			seqs(pathTokens, 2, func(s string) { ts = append(ts, "/"+s) })
			seqs(pathTokens2, 2, func(s string) { ts = append(ts, "/"+s) })
			seqs(queryTok2, 2, func(s string) { ts = append(ts, "/x?"+s) })
			seqs([]string{"\"", "<", "\\", "^", "`", "|", "{", "'", "%22", "%5E"}, 2, func(s string) { ts = append(ts, "/"+s, "/?"+s) })
			ts = append(ts, "http://o/a", "http://p/a", "http://o:80/a?q=1", "/http://o/a", "/u/a", "/u//a", "/u/a/..", "/u", "/u/", "/ua", "/v/a", "/v%2Fa", "/v/")
			if w := sockets(p, ts); w != "" {
				a, b, _ := strings.Cut(w, "\x00")
				what := fmt.Sprintf("through the proxy, the response stored for %q is served to %q", a, b)
				for k := 0; k < 5; k++ {
					if sockets(p, []string{a, b}) == "" {
						p.Unconf = append(p.Unconf, what)
						return
					}
				}
				p.Fail("e2e "+a+" "+b, what, rep{"e2e", "memory", a, b})
			}
		}
		// one in flight
		var us []string
		for i, s := range small {
			us = append(us, "http://o"+s, "http://o"+s+smallQ[2+i%20])
		}
		for _, q := range smallQ {
			us = append(us, "http://o/a"+q)
		}
		us = append(us, "https://o/a", "http://p/a", "http://o:8080/a", "http://o./a", "http://o/a%2F", "http://o/a%2f", "http://o/a%252F")
		if c.Thorough {
			for _, q := range smallQ {
				us = append(us, "http://o/b"+q, "https://o/"+q)
			}
		}
		lib.Bounds["in_flight_universe"] = len(us)
		for _, st := range []string{"memory", "layered"} {
			for _, a := range us {
				for _, b := range us {
					if !mine() || len(p.Viols) > 0 {
						continue
					}
					if n&63 == 0 && c.Expired(p, "in flight") {
						return
					}
					if st != "memory" && !c.Thorough && len(a) > 12 {
						continue
					}
					p.Traces++
					p.Ops += 2
					p.Scenarios["in flight, "+st]++
					w := nested(st, a, b)
					if w == "" {
						continue
					}
					conf := true
					for k := 0; k < 4; k++ {
						conf = conf && nested(st, a, b) != ""
					}
					if conf {
						p.Fail("nested "+a+" "+b, w, rep{"nested", st, a, b})
					} else {
						p.Unconf = append(p.Unconf, w)
					}
				}
			}
		}
	})
}

// sockets sends raw targets through the proxy; the identity of a target is what the origin receives
// when it is asked with a request that is never answered from the cache.
func sockets(p *lib.Part, targets []string) string {
	o1, o2, o3 := e2e.NewOrigin("o1"), e2e.NewOrigin("o2"), e2e.NewOrigin("o3")
	px := e2e.New(cfg(), nil, e2e.Up{Path: "/u", Addr: "http://" + o2.Addr + "/base"}, e2e.Up{Path: "/v", Addr: "http://" + o3.Addr}, e2e.Up{Path: "/", Addr: "http://" + o1.Addr})
	defer px.Close()
	cur := 0
	os := []*e2e.Origin{o1, o2, o3}
	for _, o := range os {
		defer o.Down()
		o.Set(func(q *e2e.Req) e2e.Script {
			return e2e.Script{Raw: e2e.Reply(200, strconv.Itoa(cur), "Cache-Control: max-age=1000000", "Date: "+time.Now().UTC().Format(http.TimeFormat))}
		})
	}
	ids := make([]string, len(targets))
	for i, t := range targets {
		r := px.Do(e2e.Raw("GET", t, "client", "", "Authorization: x"))
		for _, o := range os {
			for _, q := range o.Take() {
				ids[i] = canon("http", o.Addr, q.Target)
			}
		}
		if r.Err != nil || r.Status != 200 {
			ids[i] = ""
		}
	}
	hits := 0
	for pass := 0; pass < 2; pass++ {
		for k := range targets {
			cur = k
			if pass == 1 {
				cur = len(targets) - 1 - k
			}
			if ids[cur] == "" {
				continue
			}
			r := px.Do(e2e.Raw("GET", targets[cur], "client", ""))
			n := 0
			for _, o := range os {
				n += len(o.Take())
			}
			p.Ops++
			if n > 0 || r.Err != nil || r.Status != 200 {
				continue
			}
			hits++
			j, err := strconv.Atoi(string(r.Body))
			if err != nil || j >= len(ids) {
				continue
			}
			if ids[j] != ids[cur] {
				return targets[j] + "\x00" + targets[cur]
			}
		}
	}
	p.Scenarios["targets through the proxy"] += int64(len(targets))
	p.Traces += int64(len(targets))
	p.Outcome(fmt.Sprintf("proxy: %d targets, %d answers from the store", len(targets), hits))
	return ""
}
