// C10: coalescing never leaks or couples requests that must stay independent.
package main

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/cosim"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

type rq struct {
	name    string
	method  string
	h       http.Header
	body    string
	url     string
	chunked bool
}

func (r rq) m() string {
	if r.method == "" {
		return "GET"
	}
	return r.method
}

var plain = rq{name: "plain"}

var special = []rq{
	{name: "authorization", h: world.H("Authorization", "Basic x")},
	{name: "cookie", h: world.H("Cookie", "id=1")},
	{name: "range", h: world.H("Range", "bytes=0-3")},
	{name: "if-none-match", h: world.H("If-None-Match", `"a"`)},
	{name: "if-match", h: world.H("If-Match", `"a"`)},
	{name: "if-modified-since", h: world.H("If-Modified-Since", world.Date(0))},
	{name: "if-unmodified-since", h: world.H("If-Unmodified-Since", world.Date(0))},
	{name: "if-range", h: world.H("If-Range", `"a"`)},
	{name: "POST", method: "POST", body: "x"},
	{name: "HEAD", method: "HEAD"},
	{name: "PUT", method: "PUT"},
	{name: "DELETE", method: "DELETE"},
	{name: "OPTIONS", method: "OPTIONS"},
	{name: "GET with body", body: "payload"},
	{name: "excluded header", h: world.H("X-No-Cache", "true")},
	{name: "other query", url: "http://o/x?a=1"},
	{name: "other host", url: "http://p/x"},
	{name: "other scheme", url: "https://o/x"},
	{name: "GET with a body of unknown length", body: "payload", chunked: true},
	{name: "other case in the path", url: "http://o/X"},
	{name: "other port", url: "http://o:8080/x"},
	{name: "longer path", url: "http://o/x/y"},
	{name: "matrix parameter", url: "http://o/x;a"},
	{name: "empty authorization", h: world.H("Authorization", "")},
}

var responses = []http.Header{
	{}, world.H("Cache-Control", "max-age=100"), world.H("Cache-Control", "private, max-age=100"), world.H("Cache-Control", "no-store"), world.H("Cache-Control", "max-age=9", "Cache-Control", "Private"),
	world.H("Set-Cookie", "a=b"), world.H("Vary", "X-V"), world.H("Vary", "*"), world.H("Cache-Control", "no-cache"), world.H("Cache-Control", "NO-STORE, max-age=100"),
}

func config(strict bool) *cache.HttpCacheConfig {
	return &cache.HttpCacheConfig{Strict: strict, DefaultTTL: "1000h", XCache: true, XCacheName: "X-Cache", Exclude: &cache.Exclude{Header: map[string]string{"x_no_cache": "true"}}}
}

func isPlain(r rq, cached bool) bool {
	for _, h := range []string{"Authorization", "Cookie", "Range", "If-None-Match", "If-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range"} {
		if _, ok := r.h[h]; ok {
			return false
		}
	}
	if cached && r.h.Get("X-No-Cache") == "true" {
		return false
	}
	return r.m() == "GET" && r.body == ""
}

func private(h http.Header) bool {
	cc := strings.ToLower(strings.Join(h.Values("Cache-Control"), ","))
	return strings.Contains(cc, "private") || strings.Contains(cc, "no-store") || len(h["Set-Cookie"]) > 0
}

// mode: "bare" coalescer alone, "strict"/"all": with the caching transport.
func share(mode string, rs []rq, resp http.Header, bound int, stmts, race bool) lib.Scenario {
	var ns []string
	for _, r := range rs {
		ns = append(ns, r.name)
	}
	cached := mode != "bare"
	return lib.Scenario{Name: fmt.Sprintf("share %s %v response %s bound=%d plain=%v", mode, ns, world.HeaderString(resp), bound, stmts), Race: race, Plain: stmts, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if cached {
			cfg = config(mode == "strict")
		}
		s := cosim.New(x, cfg)
		s.Points = 1
		s.Script = func(f *cosim.Fetch, req *http.Request) (string, http.Header, int) {
			f.Variant = fmt.Sprint(req.Header["X-V"])
			return "ok", resp, 200
		}
		for _, r := range rs {
			u := r.url
			if u == "" {
				u = "http://o/x"
			}
			c := s.Caller(r.m(), u, r.h)
			c.Body, c.Chunked = r.body, r.chunked
			s.Start(c)
		}
		x.Wait()
		s.Check(cached)
		for i, c := range s.Callers {
			f := c.From
			if f == nil || f.Caller == c.ID {
				continue
			}
			d := s.Callers[f.Caller]
			if cached && c.Res.Header.Get("X-Cache") == cache.HIT && (!private(resp) || mode == "all") {
				continue // from the store, which is not the coalescer's business
			}
			if !isPlain(rs[i], cached) && !(cached && rs[i].m() == "HEAD") && !(cached && rs[i].h.Get("Cookie") != "") {
				x.Fail("%s request of caller %d was answered from the exchange of caller %d", rs[i].name, c.ID, d.ID)
			}
			if !isPlain(rs[f.Caller], cached) && !(cached && rs[f.Caller].h.Get("Cookie") != "") {
				x.Fail("caller %d was answered from the exchange of the %s request of caller %d", c.ID, rs[f.Caller].name, d.ID)
			}
			if private(resp) && mode != "all" {
				x.Fail("response %s fetched for caller %d was given to caller %d", world.HeaderString(resp), d.ID, c.ID)
			}
			if v := resp.Get("Vary"); mode != "all" && (v == "*" || v == "X-V" && fmt.Sprint(d.Header["X-V"]) != fmt.Sprint(c.Header["X-V"])) {
				x.Fail("response with Vary %s for caller %d was given to caller %d", v, d.ID, c.ID)
			}
		}
		for i, c := range s.Callers {
			if !isPlain(rs[i], cached) && c.Err != nil {
				x.Fail("caller %d got %v", c.ID, c.Err)
			}
		}
		x.Outcome("%s", s.Describe())
	}}
}

// demand: a fresh response is stored; a plain caller and one that asks for a response no older than
// its request run together. The second never gets what was fetched before it asked.
func demand(mode string, hs []http.Header, resp http.Header, bound int, race bool) lib.Scenario {
	var ns []string
	for _, h := range hs {
		ns = append(ns, "["+world.HeaderString(h)+"]")
	}
	return lib.Scenario{Name: fmt.Sprintf("demand %s %v response %s bound=%d", mode, ns, world.HeaderString(resp), bound), Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		s := cosim.New(x, config(mode == "strict"))
		s.Points = 1
		s.Script = func(f *cosim.Fetch, req *http.Request) (string, http.Header, int) { return "ok", resp, 200 }
		s.Run(s.Caller("GET", "http://o/x", http.Header{}))
		for _, h := range hs {
			s.Start(s.Caller("GET", "http://o/x", h))
		}
		x.Wait()
		s.Check(true)
		for i, c := range s.Callers[1:] {
			if len(hs[i]) > 0 && c.From != nil && s.Over(c.From) < c.Invoked {
				x.Fail("caller %d asked with %s and was answered from exchange %d, which was over before", c.ID, world.HeaderString(hs[i]), c.From.ID)
			}
		}
		x.Outcome("%s", s.Describe())
	}}
}

// cancel: caller 0 (or 1) is canceled at any moment; the exchanges are stuck until every canceled caller returned.
func cancel(mode string, n int, who []int, out []string, stuck bool, bound int, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("cancel %s callers=%d canceled=%v outcomes=%v stuck=%v bound=%d", mode, n, who, out, stuck, bound), Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if mode != "bare" {
			cfg = config(true)
		}
		s := cosim.New(x, cfg)
		s.Points = 1
		s.Script = func(f *cosim.Fetch, req *http.Request) (string, http.Header, int) {
			return out[min(f.ID, len(out)-1)], world.H("Cache-Control", "max-age=100"), 200
		}
		if stuck { // the origin answers nobody before the canceled callers have returned
			s.Points = 0
			s.Gate = func(f *cosim.Fetch) bool {
				for _, w := range who {
					if !s.Callers[w].Done {
						return false
					}
				}
				return true
			}
		}
		for i := 0; i < n; i++ {
			s.Caller("GET", "http://o/x", http.Header{})
		}
		for _, c := range s.Callers {
			s.Start(c)
		}
		for _, w := range who {
			s.CancelLater(s.Callers[w])
		}
		x.Wait()
		s.Check(mode != "bare")
		for _, c := range s.Callers {
			if !c.Canceled && c.Err != nil && out[0] == "ok" && len(out) == 1 {
				x.Fail("caller %d got error %v", c.ID, c.Err)
			}
		}
		// nothing stays behind: a later request is served
		x.Settle()
		s.Gate = nil
		s.Script = func(f *cosim.Fetch, req *http.Request) (string, http.Header, int) { return "ok", nil, 200 }
		c := s.Caller("GET", "http://o/x", http.Header{})
		s.Run(c)
		if c.Err != nil {
			x.Fail("a later request got %v", c.Err)
		}
		x.Settle()
		if n := x.Live(); n > 0 {
			x.Fail("%d goroutines are left after every request returned", n)
		}
		x.Outcome("%s", s.Describe())
	}}
}

func main() {
	lib.Alphabet = fmt.Sprintf("pairs and triples of concurrent requests: plain x %d special request kinds x %d response header forms, on the coalescer alone and above the strict and non-strict cache; callers demanding validation next to plain ones over a stored response; cancellation of any caller at any point with stuck, slow, failing and successful exchanges", len(special), len(responses))
	lib.Assumptions = []string{"a request with a Cookie may be answered from the shared store, as in the rest of the cache"}
	lib.Main("C10", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		d := 0
		if c.Thorough {
			d = 1
		}
		var scs []lib.Scenario
		for _, mode := range []string{"bare", "strict", "all"} {
			for ri, resp := range responses {
				b := 2 + d
				if mode != "bare" {
					b = 1 + d
				}
				scs = append(scs, share(mode, []rq{plain, plain}, resp, b, false, ri < 2))
				v1, v2 := rq{name: "v1", h: world.H("X-V", "1")}, rq{name: "v2", h: world.H("X-V", "2")}
				scs = append(scs, share(mode, []rq{v1, v2}, resp, b, false, false), share(mode, []rq{v1, v1}, resp, b, false, false))
				if mode == "bare" {
					scs = append(scs, share(mode, []rq{plain, v1, plain}, resp, 1+d, false, false))
				}
			}
			for _, sp := range special {
				if mode == "bare" && sp.name == "excluded header" {
					continue
				}
				for _, resp := range responses[:2] {
					b := 2 + d
					if mode != "bare" {
						b = 1 + d
					}
					scs = append(scs, share(mode, []rq{plain, sp}, resp, b, false, false), share(mode, []rq{sp, sp}, resp, b, false, false))
				}
				if mode == "bare" {
					scs = append(scs, share(mode, []rq{plain, sp, plain}, nil, 1+d, false, false))
				}
			}
		}
		for _, h := range []http.Header{world.H("Cache-Control", "no-cache"), world.H("Pragma", "no-cache"), world.H("Cache-Control", "min-fresh=1000"), world.H("Cache-Control", "max-stale", "Cache-Control", "No-Cache")} {
			scs = append(scs, demand("strict", []http.Header{{}, h}, responses[1], 2+d, h.Get("Pragma") != ""), demand("strict", []http.Header{h, h}, responses[1], 1+d, false), demand("strict", []http.Header{{}, h, {}}, responses[1], d, false))
		}
		scs = append(scs, share("bare", []rq{plain, plain}, responses[2], 2+d, true, true), share("strict", []rq{plain, plain}, responses[2], 1+d, true, false))
		for _, mode := range []string{"bare", "strict"} {
			for _, stuck := range []bool{true, false} {
				b := 3 + d
				if mode != "bare" {
					b = 2 + d
				}
				scs = append(scs,
					cancel(mode, 1, []int{0}, []string{"ok"}, stuck, b, true),
					cancel(mode, 2, []int{0}, []string{"ok"}, stuck, b-1, true),
					cancel(mode, 2, []int{1}, []string{"ok"}, stuck, b-1, true),
					cancel(mode, 2, []int{0, 1}, []string{"ok"}, stuck, b-2, false),
					cancel(mode, 2, []int{0}, []string{"error", "ok"}, stuck, b-1, false),
					cancel(mode, 2, []int{0}, []string{"panic", "ok"}, stuck, b-1, false),
					cancel(mode, 2, []int{0}, []string{"broken", "ok"}, stuck, b-1, false),
					cancel(mode, 3, []int{0}, []string{"ok"}, stuck, max(d, b-3), false))
				if !stuck || c.Thorough {
					scs = append(scs, cancel(mode, 3, []int{0, 1}, []string{"ok"}, stuck, d, false))
				}
			}
		}
		c.RunScenarios(p, scs)
	})
}
