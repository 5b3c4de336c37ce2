// C04: requests that must not be answered from shared storage bypass the cache.
package main

import (
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/hgrid"
	"kverif/hmodel"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const s = time.Second

func policy(name string, strict bool) *hseq.Policy {
	return &hseq.Policy{Name: name, Cfg: func() *cache.HttpCacheConfig {
		return &cache.HttpCacheConfig{Strict: strict, XCache: !strict, XCacheName: "X-Mark", DefaultTTL: "100000h", Exclude: &cache.Exclude{Path: []string{"^/admin/.*$", "(", "secret", "[", "[.]php$"}, Header: map[string]string{"x_no_cache": "true", "Accept": "text/event"}}}
	}, Model: hmodel.Policy{Strict: strict, Marker: map[bool]string{false: "X-Mark"}[strict], TTL: func(string) time.Duration { return 100000 * time.Hour },
		ExcludedPath: func(p string) bool {
			return strings.HasPrefix(p, "/admin/") || strings.Contains(p, "secret") || strings.HasSuffix(p, ".php")
		},
		ExcludedHeader: func(h http.Header) bool { return h.Get("X-No-Cache") == "true" || h.Get("Accept") == "text/event" }}}
}

// bypasses are the requests that must reach the origin.
func bypasses() (out []hseq.Step) {
	for _, kv := range [][2]string{{"Authorization", "Basic x"}, {"Authorization", ""}, {"If-Match", `"e"`}, {"If-None-Match", `"e"`}, {"If-None-Match", "*"}, {"If-Modified-Since", world.Date(0)},
		{"If-Unmodified-Since", world.Date(0)}, {"If-Range", `"e"`}, {"Range", "bytes=0-1"}, {"Range", "bytes=-1"}, {"X-No-Cache", "true"}, {"Accept", "text/event"}} {
		for _, m := range []string{"GET", "HEAD"} {
			out = append(out, hseq.Step{Method: m, Header: world.H(kv[0], kv[1])})
		}
	}
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "FOO", "get"} {
		out = append(out, hseq.Step{Method: m, Header: world.H()}, hseq.Step{Method: m, Header: world.H("Content-Type", "a/b"), Body: "payload"})
	}
	more := []string{"Pragma", "no-cache", "Cache-Control", "no-cache, x=y", "Accept", "a", "Accept", "b", "Cookie", "c=d", "Accept-Encoding", "br", "Via", "1.1 v", "Last-Modified", "x", "Age", "3", "X-Any", ""}
	for _, m := range []string{"GET", "POST", "OPTIONS"} {
		out = append(out, hseq.Step{Method: m, Header: world.H(append([]string{"Authorization", "x"}, more...)...)}, hseq.Step{Method: m, Header: world.H(append([]string{"If-None-Match", "*"}, more...)...)})
	}
	out = append(out, hseq.Step{Method: "POST", Header: world.H("Authorization", "x", "Range", "bytes=0-1", "If-Match", `"q"`), Body: "p"},
		hseq.Step{Method: "GET", Header: world.H("Authorization", "x", "Cache-Control", "max-stale")},
		hseq.Step{Method: "GET", Header: world.H("Range", "bytes=0-1", "If-Range", `"e"`, "Cache-Control", "no-cache")})
	return
}

func main() {
	lib.Alphabet = "12 bypassing header forms on GET and HEAD, 8 methods with and without body, excluded paths and headers; answers 200/206/304/404/401/500/no-store; every order of fill, bypass, validation and probe; strict and non-strict"
	lib.Assumptions = []string{"hop-by-hop and forwarding headers of the reverse proxy are covered in C18"}
	lib.Main("C04", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C04"), Blame: hseq.Props("C01", "C02", "C03", "C06", "C07", "C25"), Policies: map[string]*hseq.Policy{"strict": policy("strict", true), "all": policy("all", false)}}
		m := map[string]*hmodel.Model{}
		for n, p := range r.Policies {
			m[n] = hmodel.New(p.Model)
		}
		// findings about other requests count here if they go away when the bypassing requests are left out
		r.Reference = func(c *hseq.Case) *hseq.Case {
			d := *c
			d.Steps = nil
			var adv time.Duration
			n := 0
			for _, st := range c.Steps {
				q := hmodel.Q{Method: st.Method, Header: st.Header, Path: strings.TrimPrefix(st.URL, "http://o")}
				if q.Method == "" {
					q.Method = "GET"
				}
				if m[c.Policy].Bypass(q) {
					adv += st.Adv
					n++
					continue
				}
				st.Adv += adv
				adv = 0
				d.Steps = append(d.Steps, st)
			}
			if n == 0 || len(d.Steps) == 0 {
				return nil
			}
			return &d
		}
		if r.ReplayIf() {
			return
		}
		const u = "http://o/x?q=1"
		fill := hseq.Step{URL: u, Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D", `Etag: "e"`)}
		cookie := hseq.Step{URL: u, Header: world.H("Cookie", "a=b", "X-Other", "1"), Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D", `Etag: "c"`)}
		valid := hseq.Step{URL: u, Header: world.H("Cache-Control", "no-cache"), Raw: world.Raw(304, "", "Date: $D", "X-New: $N")}
		head := hseq.Step{URL: u, Method: "HEAD", Raw: world.Raw(200, "", "Date: $D", "Cache-Control: max-age=100", "Content-Length: 5")}
		probe := hseq.Step{URL: u, Adv: s, Raw: hgrid.Resp(200, []string{"max-age=50"}, "Date: $D", `Etag: "p"`)}
		answers := []string{hgrid.Resp(200, []string{"max-age=100"}, "Date: $D", `Etag: "b"`), hgrid.Resp(206, []string{"max-age=100"}, "Date: $D", "Content-Range: bytes 0-1/9"), world.Raw(304, "", "Date: $D", `Etag: "e"`, "X-New: no"),
			hgrid.Resp(404, []string{"max-age=100"}, "Date: $D"), hgrid.Resp(401, nil, "Date: $D"), hgrid.Resp(500, nil), hgrid.Resp(200, []string{"no-store"}, "Date: $D"), hgrid.Resp(200, []string{"max-age=100"}, "Date: $D", "Vary: *")}
		for _, pol := range []string{"strict", "all"} {
			for _, b := range bypasses() {
				for _, an := range answers {
					b := b
					b.URL, b.Raw = u, an
					if b.Method == "HEAD" {
						b.Raw = an[:strings.Index(an, "\r\n\r\n")+4]
					}
					fail := b
					fail.Fail = true
					for _, h := range [][]hseq.Step{{b, probe}, {fill, b, probe}, {fill, b, b, probe, b}, {b, fill, b, probe}, {fill, b, valid, probe}, {fill, valid, b, probe}, {b, head, probe}, {cookie, b, probe, b},
						{fail, fill, probe}, {fill, fail, probe}, {b, valid, probe}, {b, b, probe, probe}} {
						if !r.Mine() {
							continue
						}
						if !r.Do("bypass histories", &hseq.Case{Policy: pol, Steps: h}) {
							return
						}
					}
				}
			}
			for _, path := range []string{"/admin/x", "/a/secret/b", "/x.php", "/admin", "/Admin/x", "/x.phpx", "/secre", "/secretary?x=.php", "/x?secret", "/admin/../x", "/%61dmin/x", "/sec%72et"} {
				for _, an := range answers {
					for _, q := range []http.Header{{}, world.H("X-No-Cache", "TRUE"), world.H("X-No-Cache", "true"), world.H("X_no_cache", "true"), world.H("Accept", "text/event-stream"), world.H("Accept", "text/event"), world.H("Accept", "a", "Accept", "text/event")} {
						if !r.Mine() {
							continue
						}
						st := hseq.Step{URL: "http://o" + path, Header: q, Raw: an}
						pr := hseq.Step{URL: "http://o" + path, Adv: s, Raw: probe.Raw}
						if !r.Do("exclusions", &hseq.Case{Policy: pol, Steps: []hseq.Step{st, st, pr, pr, st}}) {
							return
						}
					}
				}
			}
		}
		depth := 4
		if c.Thorough {
			depth = 5
		}
		lib.Bounds["sequence_depth"] = depth
		ops := []hseq.Step{fill, probe, valid, head}
		for _, b := range []hseq.Step{{Header: world.H("Authorization", "x")}, {Header: world.H("Range", "bytes=0-1")}, {Header: world.H("If-None-Match", `"e"`)}, {Method: "POST", Body: "x"}, {Method: "DELETE"}, {Method: "HEAD", Header: world.H("If-Modified-Since", world.Date(0))}, {Header: world.H("X-No-Cache", "true")}} {
			for i, an := range answers[:3] {
				b.URL, b.Raw, b.Adv = u, an, 30*s
				if b.Method == "HEAD" {
					b.Raw = an[:strings.Index(an, "\r\n\r\n")+4]
				}
				if i == 1 && b.Method != "" {
					continue
				}
				ops = append(ops, b)
			}
		}
		for _, pol := range []string{"strict", "all"} {
			hgrid.Sequences(r, "sequences", pol, ops, depth)
		}
	})
}
