// C18: requests are routed to the first upstream whose path is a prefix, unchanged.
package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/e2e"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

type up struct {
	Path string `json:"path"`
	Base string `json:"base"`
	Mark bool   `json:"mark,omitempty"` // cache markers are switched on
}

// Q is a client request, A the answer of the upstream.
type Q struct {
	Method, Target, Body string
	Chunked              bool
	Lines                []string
}

type A struct {
	Status int
	Lines  []string
	Body   string
	Frame  string // "", chunked, close, hints
}

type rep struct {
	Ups  []up `json:"ups"`
	Q    Q    `json:"q"`
	A    *A   `json:"a,omitempty"`
	Q2   *Q   `json:"q2,omitempty"` // sent while Q is in flight
	Same int  `json:"same,omitempty"`
	// Stored is a target asked for (and stored) before Q, whose {o} stands for the first upstream
	Stored string `json:"stored,omitempty"`
}

var origins []*e2e.Origin

func setup() {
	for i := 0; i < 3; i++ {
		o := e2e.NewOrigin(fmt.Sprint("o", i))
		o.Keep = true
		origins = append(origins, o)
	}
}

var proxies = map[string]*e2e.Proxy{}

func proxy(ups []up) *e2e.Proxy {
	k := fmt.Sprint(ups)
	if p := proxies[k]; p != nil {
		return p
	}
	for k, p := range proxies {
		if len(proxies) < 4 {
			break
		}
		p.Close()
		delete(proxies, k)
	}
	var u []e2e.Up
	for i, x := range ups {
		u = append(u, e2e.Up{Path: x.Path, Addr: "http://" + origins[i].Addr + x.Base})
	}
	p := e2e.New(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "1h", XCache: len(ups) > 0 && ups[0].Mark}, e2e.Memory(), u...)
	proxies[k] = p
	return p
}

func (q Q) raw() string {
	if !q.Chunked {
		return e2e.Raw(q.Method, q.Target, "client.example:81", q.Body, q.Lines...)
	}
	lines := append(append([]string{}, q.Lines...), "Transfer-Encoding: chunked")
	r := e2e.Raw(q.Method, q.Target, "client.example:81", "", lines...)
	b := q.Body
	for n := 1; len(b) > 0; n = n*3 + 1 {
		k := min(n, len(b))
		r += fmt.Sprintf("%x\r\n%s\r\n", k, b[:k])
		b = b[k:]
	}
	return r + "0\r\n\r\n"
}

// split returns the path and query of a request target, as sent.
func split(t string) (path, query string) {
	if i := strings.Index(t, "://"); i > 0 && !strings.HasPrefix(t, "/") {
		t = t[i+3:]
		if j := strings.IndexAny(t, "/?"); j >= 0 {
			t = t[j:]
		} else {
			t = ""
		}
	}
	if i := strings.Index(t, "?"); i >= 0 {
		return t[:i], t[i:]
	}
	return t, ""
}

// want tells which upstreams may get the request (two readings only where an escaped byte decides).
func want(ups []up, q Q) []int {
	p, _ := split(q.Target)
	d, err := url.PathUnescape(p)
	if err != nil {
		return []int{-1}
	}
	first := func(path string) int {
		for i, u := range ups {
			if strings.HasPrefix(path, u.Path) && (u.Path == "" || strings.HasPrefix(u.Path, "/")) {
				return i
			}
		}
		return -1
	}
	if a, b := first(d), first(p); a != b {
		return []int{a, b}
	}
	return []int{first(d)}
}

func join(base, p string) string {
	switch {
	case strings.HasSuffix(base, "/") && strings.HasPrefix(p, "/"):
		return base + p[1:]
	case !strings.HasSuffix(base, "/") && !strings.HasPrefix(p, "/"):
		return base + "/" + p
	}
	return base + p
}

var hop = map[string]bool{"Connection": true, "Proxy-Connection": true, "Keep-Alive": true, "Proxy-Authenticate": true, "Proxy-Authorization": true, "Te": true, "Trailer": true, "Transfer-Encoding": true, "Upgrade": true}

func endToEnd(lines []string) http.Header {
	h, drop := http.Header{}, map[string]bool{}
	for _, l := range lines {
		k, v, _ := strings.Cut(l, ":")
		v = strings.TrimSpace(v)
		h.Add(k, v)
		if strings.EqualFold(k, "Connection") {
			for _, t := range strings.Split(v, ",") {
				drop[http.CanonicalHeaderKey(strings.TrimSpace(t))] = true
			}
		}
	}
	for k := range h {
		if hop[k] || drop[k] {
			delete(h, k)
		}
	}
	return h
}

// checkReq compares what arrived with what was sent.
func checkReq(u up, o *e2e.Origin, q Q, got *e2e.Req) string {
	if got.Method != q.Method {
		return fmt.Sprintf("method %s, not %s", got.Method, q.Method)
	}
	p, query := split(q.Target)
	if want := join(u.Base, p) + query; got.Target != want {
		return fmt.Sprintf("target %s, not %s", got.Target, want)
	}
	if string(got.Body) != q.Body || got.Err != nil {
		return fmt.Sprintf("body (%d bytes, %v) differs from the %d bytes sent", len(got.Body), got.Err, len(q.Body))
	}
	if h := got.Header.Get("Host"); h != o.Addr || len(got.Header["Host"]) != 1 {
		return fmt.Sprintf("host %q, not %q", got.Header["Host"], o.Addr)
	}
	w := endToEnd(q.Lines)
	g := endToEnd(got.Lines)
	g.Del("Host")
	if u.Mark {
		g.Del("X-Kache")
	}
	xff := "127.0.0.1"
	if v := w.Values("X-Forwarded-For"); len(v) > 0 {
		xff = strings.Join(v, ", ") + ", " + xff
	}
	if x := strings.Join(g.Values("X-Forwarded-For"), ", "); x != xff {
		return fmt.Sprintf("X-Forwarded-For %q, not %q", x, xff)
	}
	w.Del("X-Forwarded-For")
	g.Del("X-Forwarded-For")
	if w.Get("User-Agent") == "" && g.Get("User-Agent") == "kache" {
		g.Del("User-Agent")
		w.Del("User-Agent")
	}
	if _, ok := w["Accept-Encoding"]; !ok && g.Get("Accept-Encoding") == "gzip" {
		g.Del("Accept-Encoding")
	}
	g.Del("Content-Length") // framing; the body has been compared
	w.Del("Content-Length")
	if d := e2e.Eq(w, g); d != "" {
		return "header " + d
	}
	return ""
}

func (a A) raw(method string) string {
	var b strings.Builder
	if a.Frame == "hints" {
		b.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </s.css>; rel=preload\r\nX-Hint: 1\r\n\r\nHTTP/1.1 100 Continue\r\n\r\n")
	}
	fmt.Fprintf(&b, "HTTP/1.1 %d Some Text\r\n", a.Status)
	for _, l := range a.Lines {
		b.WriteString(l + "\r\n")
	}
	none := a.Status == 204 || a.Status == 304
	switch {
	case none:
		b.WriteString("\r\n")
		return b.String()
	case a.Frame == "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		if method != "HEAD" {
			for i := 0; i < len(a.Body); i += 1 + i {
				t := a.Body[i:min(len(a.Body), i+1+i)]
				fmt.Fprintf(&b, "%x\r\n%s\r\n", len(t), t)
			}
			b.WriteString("0\r\n\r\n")
		}
	case a.Frame == "close":
		b.WriteString("\r\n")
		if method != "HEAD" {
			b.WriteString(a.Body)
		}
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(a.Body))
		if method != "HEAD" {
			b.WriteString(a.Body)
		}
	}
	return b.String()
}

func checkAns(a A, q Q, r *e2e.Resp) string {
	if r.Err != nil || r.Aborted != nil {
		return fmt.Sprint("the client got ", r)
	}
	if r.Status != a.Status {
		return fmt.Sprintf("status %d, not %d", r.Status, a.Status)
	}
	b := a.Body
	if q.Method == "HEAD" || a.Status == 204 || a.Status == 304 {
		b = ""
	}
	if string(r.Body) != b {
		return fmt.Sprintf("the body (%d bytes) differs from the %d bytes of the upstream", len(r.Body), len(b))
	}
	w, g := endToEnd(a.Lines), e2e.Lines(r.Header)
	for _, k := range []string{"Date", "Content-Type"} { // added by the server where missing
		if _, ok := w[k]; !ok {
			g.Del(k)
		}
	}
	if a.Status == 304 { // left out by the server
		w.Del("Content-Type")
		g.Del("Content-Type")
	}
	if _, ok := w["Cache-Control"]; !ok && g.Get("Cache-Control") == "" {
		g.Del("Cache-Control")
	}
	if q.Method == "HEAD" || a.Status != 304 && a.Status != 204 {
		g.Del("Content-Length")
	}
	if d := e2e.Eq(w, g); d != "" {
		return "answer header " + d
	}
	return ""
}

var plain = A{Status: 200, Lines: []string{"Cache-Control: no-store", "Date: Tue, 14 Nov 2023 22:13:20 GMT", "Content-Type: text/x"}, Body: "hello"}

func take() (at int, q *e2e.Req, n int) {
	at = -1
	for i, o := range origins {
		for _, x := range o.Take() {
			at, q = i, x
			n++
		}
	}
	return
}

func oneOf(x int, l []int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

// verify checks one exchange.
func verify(r rep, q Q, a A, at int, got *e2e.Req, n int, res *e2e.Resp) string {
	w := want(r.Ups, q)
	if n == 0 {
		if !oneOf(-1, w) {
			return fmt.Sprintf("upstream %d must be asked, none was: %v", w[0], res)
		}
		if res.Err != nil || res.Status != 503 {
			return fmt.Sprintf("no upstream matches, the client got %v", res)
		}
		return ""
	}
	if n != 1 {
		return fmt.Sprintf("%d requests reached upstreams", n)
	}
	if !oneOf(at, w) {
		return fmt.Sprintf("upstream %d was asked, not %d", at, w[0])
	}
	if s := checkReq(r.Ups[at], origins[at], q, got); s != "" {
		return "to the upstream: " + s
	}
	return checkAns(a, q, res)
}

func run(p *lib.Part, r rep) string {
	vsched.SetOffline(0)
	px := proxy(r.Ups)
	a := plain
	if r.A != nil {
		a = *r.A
	}
	take()
	p.Ops++
	if r.Stored != "" {
		for _, o := range origins {
			o.Set(func(q *e2e.Req) e2e.Script {
				return e2e.Script{Raw: e2e.Reply(200, "stored", "Cache-Control: max-age=1000", "Date: "+world.Date(world.Now()))}
			})
		}
		q := Q{Method: "GET", Target: r.Stored}
		px.Do(q.raw())
		if px.Do(q.raw()); len(origins[0].Take()) > 1 {
			return "not stored"
		}
		r.Q.Target = strings.ReplaceAll(r.Q.Target, "{o}", origins[0].Addr)
	}
	if r.Same > 0 {
		return same(px, r)
	}
	if r.Q2 != nil {
		return pair(px, r, a)
	}
	for _, o := range origins {
		o.Set(func(q *e2e.Req) e2e.Script { return e2e.Script{Raw: a.raw(q.Method), Close: a.Frame == "close"} })
	}
	res := px.Do(r.Q.raw())
	at, got, n := take()
	return verify(r, r.Q, a, at, got, n, res)
}

// pair sends Q2 while Q is in flight.
func pair(px *e2e.Proxy, r rep, a A) string {
	gate, arrived := make(chan struct{}), make(chan struct{}, 10)
	var first atomic.Bool
	first.Store(true)
	for _, o := range origins {
		o.Set(func(q *e2e.Req) e2e.Script {
			b := a
			b.Body = "answer to " + q.Method + " " + q.Target + " with " + string(q.Body)
			s := e2e.Script{Raw: b.raw(q.Method)}
			if first.CompareAndSwap(true, false) {
				s.Gate = gate
				arrived <- struct{}{}
			}
			return s
		})
	}
	exp := func(q Q) A {
		b := a
		w := want(r.Ups, q)[0]
		if w < 0 {
			return b
		}
		pt, qu := split(q.Target)
		b.Body = "answer to " + q.Method + " " + join(r.Ups[w].Base, pt) + qu + " with " + q.Body
		return b
	}
	ch := make(chan *e2e.Resp, 1)
	go func() { ch <- px.Alone(r.Q.raw()) }()
	var res1 *e2e.Resp
	select {
	case <-arrived:
	case res1 = <-ch:
	}
	first.Store(false)
	at1, got1, n1 := take()
	res2 := px.Do(r.Q2.raw())
	at2, got2, n2 := take()
	close(gate)
	if res1 == nil {
		res1 = <-ch
	}
	if s := verify(r, *r.Q2, exp(*r.Q2), at2, got2, n2, res2); s != "" {
		return "second of two requests: " + s
	}
	if s := verify(r, r.Q, exp(r.Q), at1, got1, n1, res1); s != "" {
		return "first of two requests: " + s
	}
	return ""
}

// same sends several identical requests at once.
func same(px *e2e.Proxy, r rep) string {
	for _, o := range origins {
		o.Set(func(q *e2e.Req) e2e.Script { return e2e.Script{Raw: plain.raw(q.Method), Pause: time.Millisecond} })
	}
	ch := make(chan *e2e.Resp, r.Same)
	for i := 0; i < r.Same; i++ {
		go func() { ch <- px.Alone(r.Q.raw()) }()
	}
	w := want(r.Ups, r.Q)[0]
	for i := 0; i < r.Same; i++ {
		res := <-ch
		if w < 0 {
			if res.Err != nil || res.Status != 503 {
				return fmt.Sprintf("no upstream matches, one of %d clients got %v", r.Same, res)
			}
		} else if s := checkAns(plain, r.Q, res); s != "" {
			return s
		}
	}
	at, _, n := take()
	if w < 0 && n > 0 || w >= 0 && at != w {
		return fmt.Sprintf("%d requests reached upstream %d, expected %d", n, at, w)
	}
	return ""
}

func main() {
	lib.Alphabet = "lists of 0-3 upstreams over 8-10 path prefixes and 6 base paths; 50 request paths (nested, empty segments, dot segments, encodings, absolute form), 14 queries, 11 methods, 7 bodies in two framings, 22 header sets; answers of all status codes, 12 header sets, 4 framings"
	lib.Assumptions = []string{"prefixes compare as strings; where an escaped byte decides, the escaped or the decoded path may be compared", "a User-Agent, Accept-Encoding: gzip, X-Forwarded-For entry, Date, Content-Type or empty Cache-Control may be added where missing"}
	lib.Main("C18", 60*time.Second, 600*time.Second, func(c *lib.Check, p *lib.Part) {
		setup()
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				if w := run(p, r); w != "" {
					p.Fail("replay", w, r)
				}
			}
			return
		}
		cnt := 0
		try := func(group string, key int, r rep) bool {
			if key%c.Of != c.Shard {
				return true
			}
			if c.Expired(p, group) {
				return false
			}
			lib.Case(func() string { return fmt.Sprintf("%+v", r) })
			w := run(p, r)
			lib.Idle()
			p.Traces++
			p.Scenarios[group]++
			cnt++
			p.StateHash(uint64(cnt)*16 + uint64(c.Shard))
			if w == "" {
				return true
			}
			for k := 0; k < 5; k++ {
				if run(p, r) == "" {
					p.Unconf = append(p.Unconf, w)
					return true
				}
			}
			j, _ := json.Marshal(r)
			if len(j) > 300 {
				j = j[:300]
			}
			p.Fail(string(j), w, r)
			return len(p.Viols) < 3
		}
		prefixes := []string{"/", "/a", "/a/", "/ab", "/a/b", "", "/A", "/a b"}
		bases := []string{"", "/", "/base", "/base/", "/b%2Fc", "/b/c/"}
		paths := []string{"/", "/a", "/a/", "/ab", "/abc", "/a/b", "/a/b/", "/a/bc", "/A", "/A/b", "/b", "/b/a", "//", "//a", "/a//b", "/./a", "/a/..", "/a/./b", "/a/../b", "/..", "/a%20b", "/a%20b/c", "/a%2Fb", "/a%2fb", "/%61", "/%61/b", "/a%41", "/a%25b", "/a%3Fb", "/a%23b", "/a+b", "/a%2Bb", "/%C3%A9", "/a;v=1", "/a:b", "/a@b", "/a,b", "/~a", "/a!$&'()*+,=", "/[a]", "/a/%2e%2e/b", "/%2e", "/a%00b", "/a%7Cb", "/index.html", "http://other.example/a/b", "http://other.example:99/", "http://other.example", "/a/http://x/y", "/%2Fa"}
		if !c.Thorough {
			bases = bases[:5]
		}
		// lists of upstreams
		key := 0
		offs := 1
		if c.Thorough {
			offs = len(bases)
		}
		for n := 0; n <= 3; n++ {
			for off := 0; off < offs; off++ {
				idx := make([]int, n)
				for {
					ups := []up{}
					for k, i := range idx {
						ups = append(ups, up{Path: prefixes[i], Base: bases[(i+k*(off+1)+off)%len(bases)]})
					}
					key++
					for _, t := range paths {
						if !try(fmt.Sprint("lists of ", n, " upstreams"), key, rep{Ups: ups, Q: Q{Method: "GET", Target: t}}) {
							return
						}
					}
					k := n - 1
					for ; k >= 0; k-- {
						if idx[k]++; idx[k] < len(prefixes) {
							break
						}
						idx[k] = 0
					}
					if k < 0 {
						break
					}
				}
			}
		}
		// a stored answer is not for requests that match nothing
		for _, t := range []string{"http://{o}/base/p/x", "http://{o}/base/p/./x", "http://{o}/x", "/base/p/x", "http://client.example:81/base/p/x"} {
			key++
			for _, m := range []string{"GET", "HEAD"} {
				if !try("stored answers and requests that match nothing", key, rep{Ups: []up{{Path: "/p", Base: "/base"}}, Stored: "/p/x", Q: Q{Method: m, Target: t}}) {
					return
				}
			}
		}
		// base paths, paths and queries
		queries := []string{"", "?", "?a=1", "?a=1&b=2&a=3", "?b=2&a=1", "?a", "?a=&=b&&", "?a=%20+%2B", "?a=%", "?a=1;b=2", "?a=/../b", "??", "?a=b?c=d", "?%zz=1", "?a=\xc3\xa9"}
		for _, pre := range []string{"/", "/a", ""} {
			for _, b := range []string{"", "/", "/base", "/base/", "/b%2Fc", "/b/c/", "/b%20c", "//", "/b//", "/%C3%A9/"} {
				key++
				for _, t := range paths {
					for _, q := range queries {
						if !try("base paths, paths and queries", key, rep{Ups: []up{{Path: pre, Base: b}}, Q: Q{Method: "GET", Target: t + q}}) {
							return
						}
					}
				}
			}
		}
		// methods, bodies, headers
		methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "PURGE", "PROPFIND", "X-1"}
		big := strings.Repeat("0123456789abcdef", 20000)
		bodies := []string{"", "x", "\x00\xff\r\n\r\n", "GET /evil HTTP/1.1\r\nHost: h\r\n\r\n", "0\r\n\r\n", strings.Repeat("y", 4097), big}
		headers := [][]string{
			nil, {"User-Agent: u/1"}, {"Accept: a", "Accept: b"}, {"X-A: 1", "X-a: 2", "x-A: 3"}, {"X-Empty:"}, {"Cookie: a=1; b=2"}, {"Cookie: a=1", "Cookie: b=2"},
			{"Authorization: Basic eA=="}, {"If-None-Match: \"x\""}, {"Range: bytes=1-2", "If-Range: \"e\""}, {"Accept-Encoding: br, gzip;q=0.5"}, {"Accept-Encoding: identity"},
			{"Connection: X-Drop, close", "X-Drop: 1", "X-Keep: 1"}, {"Connection: keep-alive", "Keep-Alive: timeout=5", "Proxy-Connection: x", "Te: trailers", "Proxy-Authorization: p"},
			{"X-Forwarded-For: 9.9.9.9"}, {"X-Forwarded-For: 9.9.9.9", "X-Forwarded-For: 8.8.8.8, 7.7.7.7"}, {"Cache-Control: no-cache", "Pragma: no-cache"}, {"Cache-Control: no-store"},
			{"Content-Type: application/x", "Content-Encoding: br", "Content-Language: de"}, {"Forwarded: for=1", "X-Forwarded-Host: h", "X-Forwarded-Proto: https", "Via: 1.1 a"},
			{"X-Latin: \xe9\xff"}, {"X-Long: " + strings.Repeat("z", 9000)}, {"Origin: http://o", "Referer: http://r/x?y", "Dnt: 1", "Priority: u=1"}, {"Expect: 100-continue"}, {"X-Kache-Cluster: 1", "X-Purge-Key: k"},
		}
		for _, m := range methods {
			for _, b := range bodies {
				for _, ch := range []bool{false, true} {
					key++
					if m == "TRACE" && (b != "" || ch) || ch && b == "" {
						continue
					}
					for _, h := range headers {
						if len(h) > 0 && strings.HasPrefix(h[0], "Expect") && b == "" {
							continue
						}
						if len(b) > 100000 && len(h) > 1 && !c.Thorough {
							continue
						}
						for _, u := range []up{{Path: "/"}, {Path: "/p", Base: "/base/"}, {Path: "/", Mark: true}} {
							if !try("methods, bodies and headers", key, rep{Ups: []up{u}, Q: Q{m, "/p/q%20r?s=1&t", b, ch, h}}) {
								return
							}
						}
					}
				}
			}
		}
		// answers
		ansHeaders := [][]string{nil, {"Set-Cookie: a=1", "Set-Cookie: b=2"}, {"X-A: 1", "x-a: 2"}, {"X-Empty:"}, {"Connection: X-Drop", "X-Drop: 1", "X-Keep: 1"}, {"Keep-Alive: timeout=5", "Proxy-Authenticate: x", "Upgrade: foo"}, {"Content-Type: a/b; c=d", "Content-Language: de", "Content-Encoding: br", "Etag: W/\"x\"", "Last-Modified: x"}, {"Location: /elsewhere?x=y#z"}, {"Www-Authenticate: Basic realm=\"x\"", "Www-Authenticate: Digest y"}, {"Server: s", "Via: 1.1 x", "Age: 5", "Warning: 199 a b"}, {"Date: yesterday", "Expires: 0", "Cache-Control: private, max-age=0"}, {"X-Latin: \xe9"}}
		for st := 200; st < 600; st++ {
			key++
			for hi, h := range ansHeaders {
				if !c.Thorough && st%100 > 32 && hi > 1 {
					continue
				}
				cc := "Cache-Control: no-store"
				for _, l := range h {
					if strings.HasPrefix(l, "Cache-Control") {
						cc = "X-Z: 1"
					}
				}
				for _, fr := range []string{"", "chunked", "close", "hints"} {
					for _, b := range []string{"", "hello", "\x00\xff\x1f\x8b" + big[:5000]} {
						for _, m := range []string{"GET", "HEAD", "POST"} {
							if len(b) > 100 && m != "GET" || st%100 > 32 && m == "POST" {
								continue
							}
							if !try("answers", key, rep{Ups: []up{{Path: "/"}}, Q: Q{Method: m, Target: "/a"}, A: &A{st, append([]string{cc}, h...), b, fr}}) {
								return
							}
						}
					}
				}
			}
		}
		// two requests at a time
		var qs []Q
		for _, t := range []string{"/", "/a", "/a/b", "/ab", "/b", "/a?x=1", "/a?x=2", "/a%2Fb"} {
			for _, m := range []string{"GET", "HEAD", "POST"} {
				q := Q{Method: m, Target: t}
				if m == "POST" {
					q.Body = "data of " + t
				}
				qs = append(qs, q)
			}
		}
		for _, ups := range [][]up{{{Path: "/a/", Base: "/base"}, {Path: "/a"}, {Path: "/", Base: "/base/"}}, {{Path: "/ab"}, {Path: "/a", Base: "/x"}}} {
			for _, q := range qs {
				key++
				for _, q2 := range qs {
					if q.Method == q2.Method && q.Target == q2.Target {
						continue
					}
					if !try("two requests at a time", key, rep{Ups: ups, Q: q, Q2: &q2}) {
						return
					}
				}
				if !try("identical requests at once", key, rep{Ups: ups, Q: q, Same: 4}) {
					return
				}
			}
		}
	})
}
