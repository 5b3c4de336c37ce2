// C06: a cache hit reproduces the origin's response.
package main

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"kverif/fakeredis"
	"kverif/hgrid"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const (
	s = time.Second
	u = "http://o/x"
)

var bodies = []string{"", "a", "ab", "\x00\x01\xff\r\n\r\nHTTP/1.1 200 OK\r\n\r\n", "\r\n", "0\r\n\r\n", strings.Repeat("0123456789abcdef", 300), strings.Repeat("\xfe", 70000), "$"}

var headerSets = [][]string{
	{},
	{"X-A: 1", "X-A: 2", "X-A: 1"},
	{"x-lower: v", "X-UPPER-CASE: V", "X_under: u"},
	{"X-Empty:", "X-Space:   padded   value  ", "X-Comma: a, b,c"},
	{"Set-Cookie: a=b; Path=/", "Set-Cookie: c=d"},
	{"Content-Type: text/html; charset=utf-8", "Content-Language: de", "Content-Disposition: attachment; filename=\"a b.txt\"", "Link: </x>; rel=next"},
	{"X-Latin: \xe4\xf6", "X-Utf: ä"},
	{"Content-Encoding: gzip"},
	{"Content-Encoding: br", "Content-Type: application/octet-stream"},
	{"Age: 3"},
	{"Via: 1.1 a", "Warning: 110 - \"x\"", "Server: S"},
	{"Trailer-X: 1", "Alt-Svc: h3=\":443\"", "X-Cache: HIT", "X-Kache: HIT"},
	{"Expires: $D+100", "Last-Modified: $D-100", "Etag: W/\"a,b\""},
	{"Location: /other?x=1#f", "Refresh: 5"},
	{"X-Long: " + strings.Repeat("v", 5000)},
	{"Etag: \"\"", "Last-Modified: nonsense"},
	{"Content-Md5: x", "Accept-Ranges: bytes", "Content-Range: bytes 0-3/9"},
}

type frame struct {
	name string
	f    func(st int, body string, hs ...string) string
}

var frames = []frame{
	{"length", world.Raw},
	{"close", world.RawClose},
	{"chunked 1", func(st int, b string, hs ...string) string {
		if len(b) > 5000 {
			return world.Chunked(st, b, 4096, hs...)
		}
		return world.Chunked(st, b, 1, hs...)
	}},
	{"chunked 7", func(st int, b string, hs ...string) string { return world.Chunked(st, b, 700, hs...) }},
	{"http/1.0", func(st int, b string, hs ...string) string {
		return strings.Replace(world.RawClose(st, b, hs...), "HTTP/1.1", "HTTP/1.0", 1)
	}},
	{"http/1.0 length", func(st int, b string, hs ...string) string {
		return strings.Replace(world.Raw(st, b, hs...), "HTTP/1.1", "HTTP/1.0", 1)
	}},
	{"connection close", func(st int, b string, hs ...string) string {
		return world.Raw(st, b, append(hs, "Connection: close")...)
	}},
	{"odd reason", func(st int, b string, hs ...string) string {
		r := world.Raw(st, b, hs...)
		return strings.Replace(r, http.StatusText(st)+"\r\n", "Some Odd: Reason\r\n", 1)
	}},
	{"no reason", func(st int, b string, hs ...string) string {
		r := world.Raw(st, b, hs...)
		return strings.Replace(r, " "+http.StatusText(st)+"\r\n", "\r\n", 1)
	}},
	{"junk connection header", func(st int, b string, hs ...string) string {
		return world.Raw(st, b, append(hs, "Keep-Alive: timeout=5", "Connection: keep-alive")...)
	}},
}

// store reuses one remote server and one provider per backend; cases use different keys by flushing.
func store(kind string) func() provider.Provider {
	l1 := provider.InMemoryCacheConfig{MaxSize: 1 << 24, MaxItemSize: 1 << 22}
	var p provider.Provider
	switch kind {
	case "redis":
		p, _ = fakeredis.New().Provider(false, 0, l1, provider.RedisClientConfig{})
	case "layered":
		p, _ = fakeredis.New().Provider(true, 3*s, l1, provider.RedisClientConfig{})
	default:
		var err error
		if p, err = provider.NewInMemoryCache(l1); err != nil {
			panic(err)
		}
	}
	return func() provider.Provider {
		_ = p.Flush(context.Background())
		return p
	}
}

func pol(name string, strict bool) *hseq.Policy {
	p := hseq.Strict(name)
	if !strict {
		p = hseq.All(name, 100000*time.Hour)
	}
	p.Store = store(strings.TrimSuffix(name, "-all"))
	return p
}

func main() {
	lib.Alphabet = fmt.Sprintf("%d framings x %d statuses x %d bodies x %d header sets x follow-up histories of hits, HEADs, validations and time steps, on the in-memory, redis and layered store, strict and non-strict", len(frames), 14, len(bodies), len(headerSets))
	lib.Assumptions = []string{"header names compare in canonical form, hop-by-hop headers and trailers are not compared; the way an empty Cache-Control is shown is not compared"}
	lib.Main("C06", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C06", "C07"), Policies: map[string]*hseq.Policy{}}
		for _, n := range []string{"memory", "memory-all", "redis", "redis-all", "layered", "layered-all"} {
			r.Policies[n] = pol(n, !strings.HasSuffix(n, "-all"))
		}
		// findings of C03 (what a validation yields) count if the stored copy was wrong to begin with
		if r.ReplayIf() {
			return
		}
		hit := hseq.Step{URL: u, Adv: s, Raw: hgrid.Resp(500, nil)}
		head := hseq.Step{URL: u, Adv: s, Method: "HEAD", Raw: world.Raw(500, "")}
		v304 := hseq.Step{URL: u, Adv: s, Header: world.H("Cache-Control", "no-cache"), Raw: world.Raw(304, "", "Date: $D")}
		v304b := hseq.Step{URL: u, Adv: s, Header: world.H("Cache-Control", "max-age=0"), Raw: world.Raw(304, "", "Date: $D", "X-A: 9", "X-New: n", "Cache-Control: max-age=2000")}
		tails := [][]hseq.Step{{hit, hit, hit}, {head, hit, head, hit}, {hit, v304, hit, head}, {v304, v304b, hit, v304, hit}, {v304b, head, hit, hit}}
		run := func(group, pl, f string, raw string, tail []hseq.Step) bool {
			if !r.Mine() {
				return true
			}
			t := tail
			if strings.HasSuffix(pl, "-all") {
				t = nil
				for _, st := range tail {
					if st.Header == nil {
						t = append(t, st)
					}
				}
			}
			cs := &hseq.Case{Policy: pl, Steps: append([]hseq.Step{{URL: u, Raw: raw}}, t...)}
			return r.Do(group+", "+pl, cs)
		}
		quickAll := c.Thorough
		for _, pl := range []string{"memory", "memory-all", "redis", "layered", "redis-all", "layered-all"} {
			for _, st := range []int{200, 203, 206, 300, 301, 308, 404, 405, 410, 414, 451, 501} {
				for _, f := range frames {
					for _, b := range bodies {
						for hi, hs := range headerSets {
							if len(b) > 10000 && (hi > 2 || st != 200 && st != 404) {
								continue
							}
							if !quickAll && pl != "memory" && st != 200 && st != 404 && st != 301 {
								continue
							}
							h := append([]string{"Cache-Control: max-age=1000", "Date: $D"}, hs...)
							raw := f.f(st, strings.ReplaceAll(b, "$", "S"), h...)
							for ti, tail := range tails {
								if !quickAll && len(b) > 10000 && ti > 2 {
									continue
								}
								if !run("framing, status, body, headers", pl, f.name, raw, tail) {
									return
								}
							}
						}
					}
				}
			}
			// statuses without a body
			for _, hs := range headerSets {
				h := append([]string{"Cache-Control: max-age=1000", "Date: $D"}, hs...)
				for _, tail := range tails {
					if !run("no content", pl, "", world.Raw(204, "", h...), tail) {
						return
					}
				}
			}
		}
		depth := 4
		if c.Thorough {
			depth = 6
		}
		lib.Bounds["sequence_depth"] = depth
		ops := []hseq.Step{hit, head, v304, v304b,
			{URL: u, Raw: world.Chunked(200, "chunk-$N", 3, "Cache-Control: max-age=10", "Date: $D", "X-A: 1", "X-A: 2", `Etag: "e"`)},
			{URL: u, Adv: 11 * s, Raw: world.RawClose(404, "close-$N", "Cache-Control: max-age=10", "Date: $D", "Last-Modified: $D-5")},
			{URL: u, Adv: 5 * s, Header: world.H("Cache-Control", "no-cache"), Raw: world.Raw(200, "", "Cache-Control: max-age=10", "Date: $D", "Set-Cookie: a=b")},
			{URL: "http://o/y", Adv: s, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D")},
			{URL: "http://o/y", Adv: s, Header: world.H("Cache-Control", "no-cache"), Raw: world.Raw(304, "", "Date: $D", "X-A: 9")},
		}
		for _, pl := range []string{"memory", "layered", "redis"} {
			hgrid.Sequences(r, "sequences "+pl, pl, ops, depth)
		}
	})
}
