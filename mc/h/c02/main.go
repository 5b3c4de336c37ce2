// C02: only responses that are allowed to be stored enter the cache.
package main

import (
	"net/http"
	"regexp"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/hgrid"
	"kverif/hmodel"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const (
	s = time.Second
	u = "http://o/x"
)

var statuses = []int{200, 201, 202, 203, 204, 205, 206, 207, 300, 301, 302, 303, 305, 307, 308, 400, 401, 403, 404, 405, 406, 410, 414, 429, 451, 500, 501, 502, 503, 504, 599}

var methods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PROPFIND"}

func reqs() []http.Header {
	return []http.Header{{}, world.H("Cache-Control", "no-store"), world.H("Cache-Control", "No-Store, max-age=0"), world.H("Cache-Control", "max-age=0", "Cache-Control", "no-store"),
		world.H("Cache-Control", "no-cache"), world.H("Pragma", "no-cache"), world.H("Pragma", "no-store"), world.H("Cache-Control", "no-storex"), world.H("Cache-Control", "max-stale=100,NO-STORE")}
}

// probe asks in a way that also shows entries that may only be served stale.
func probes(raw string) []hseq.Step {
	return []hseq.Step{{URL: u, Header: world.H("Cache-Control", "max-stale"), Adv: s, Raw: raw}, {URL: u, Raw: raw}}
}

// before is what the cache held.
func before(k int) []hseq.Step {
	e := `Etag: "old"`
	switch k {
	case 1: // fresh
		return []hseq.Step{{URL: u, Raw: hgrid.Resp(200, []string{"max-age=1000"}, "Date: $D", e)}}
	case 2: // stale
		return []hseq.Step{{URL: u, Raw: hgrid.Resp(200, []string{"max-age=1"}, "Date: $D", e)}, {URL: "http://o/y", Adv: 5 * s, Raw: hgrid.Resp(500, nil)}}
	case 3: // always validated
		return []hseq.Step{{URL: u, Raw: hgrid.Resp(200, []string{"no-cache"}, "Date: $D", e)}}
	}
	return nil
}

func excl(name string, strict bool, rules ...cache.Content) *hseq.Policy {
	return &hseq.Policy{Name: name, Cfg: func() *cache.HttpCacheConfig {
		return &cache.HttpCacheConfig{Strict: strict, DefaultTTL: "100000h", Exclude: &cache.Exclude{Content: append([]cache.Content(nil), rules...)}}
	}, Model: hmodel.Policy{Strict: strict, TTL: func(string) time.Duration { return 100000 * time.Hour }, ExcludedType: func(ct string, n int64) bool {
		for _, r := range rules {
			if ct != "" && regexp.MustCompile(r.Type).MatchString(ct) {
				return r.Size <= 0 || n > int64(r.Size)
			}
		}
		return false
	}}}
}

func main() {
	lib.Alphabet = "9 request directive forms, 8 methods, 31 statuses, all ordered lists of up to 2 (thorough: 3) of 25 response directives in one or two lines, time header forms, 4 prior cache states, excluded content types and sizes; probed with max-stale"
	lib.Main("C02", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C02"), Policies: map[string]*hseq.Policy{"strict": hseq.Strict("strict"),
			"excl":     excl("excl", true, cache.Content{Type: "^image/", Size: 8}, cache.Content{Type: "video"}, cache.Content{Type: "image/png"}),
			"excl-all": excl("excl-all", false, cache.Content{Type: "^image/", Size: 8}, cache.Content{Type: "video"}, cache.Content{Type: "image/png"})}}
		if r.ReplayIf() {
			return
		}
		one := func(group, pol, method string, q http.Header, raw string, prior int, qs ...string) bool {
			if !r.Mine() {
				return true
			}
			cs := &hseq.Case{Policy: pol, Steps: before(prior)}
			st := hseq.Step{URL: u, Method: method, Header: q, Raw: raw}
			cs.Steps = append(cs.Steps, st)
			cs.Steps = append(cs.Steps, probes(hgrid.Resp(503, nil))...)
			return r.Do(group, cs)
		}
		force := world.H("Cache-Control", "no-cache")
		// method x request x status x directive x prior
		for _, m := range methods {
			for _, q := range reqs() {
				for _, st := range []int{200, 404, 500, 302, 206} {
					for _, cc := range [][]string{nil, {"max-age=100"}, {"no-cache"}, {"private"}, {"no-store"}, {"public"}} {
						for prior := 0; prior < 4; prior++ {
							for _, tm := range [][]string{{"Date: $D"}, {"Date: $D", "Expires: $D+100"}, {"Expires: $D+100"}} {
								one("method, request, status, directive", "strict", m, q, hgrid.Resp(st, cc, tm...), prior)
							}
						}
					}
				}
			}
		}
		for _, st := range statuses {
			for prior := 0; prior < 4; prior++ {
				for _, cc := range hgrid.CCSets(false, false) {
					for _, tm := range [][]string{{"Date: $D"}, {"Date: $D", "Expires: $D+100"}} {
						more := append([]string{`Etag: "e"`}, tm...)
						raw := hgrid.Resp(st, cc, more...)
						if st == 204 || st == 205 {
							raw = world.Raw(st, "", append([]string{"Content-Length: 0"}, hdr(cc, more)...)...)
						}
						one("every status", "strict", "GET", force, raw, prior)
					}
				}
			}
		}
		for _, cc := range hgrid.CCSets(true, c.Thorough) {
			for prior := 0; prior < 4; prior++ {
				for _, tm := range [][]string{{}, {"Date: $D", "Expires: $D+100"}} {
					one("directive lists", "strict", "GET", force, hgrid.Resp(200, cc, tm...), prior)
				}
			}
		}
		var odd [][]string
		for _, a := range []string{"no-store", "private", "No-Store", "PRIVATE", `private="x"`, `private="a, b"`, "no-store=1", "\tno-store", "no-store ", ",no-store", "max-age=10,,no-store", "no-store;", "private,", `no-cache="a", private`, "x=no-store", "xprivate", "privatex", "max-age=10 , private", "private max-age=10", `foo="a", no-store`} {
			odd = append(odd, []string{a}, []string{a, "max-age=60"}, []string{"max-age=60", a}, []string{"max-age=60, " + a}, []string{a + ", max-age=60"}, []string{"public", "", a}, []string{"max-age=60", "public", a})
		}
		for _, cc := range odd {
			for prior := 0; prior < 4; prior++ {
				for _, tm := range [][]string{{}, {"Date: $D", "Expires: $D+100"}} {
					one("spellings", "strict", "GET", force, hgrid.Resp(200, cc, tm...), prior)
				}
			}
		}
		// Date and Expires
		for _, tm := range hgrid.Times(true) {
			for _, cc := range [][]string{nil, {"public"}, {"max-age=x"}} {
				for prior := 0; prior < 4; prior++ {
					one("time data", "strict", "GET", force, hgrid.Resp(200, cc, tm...), prior)
				}
			}
		}
		// excluded content
		for _, pol := range []string{"excl", "excl-all"} {
			for _, ct := range []string{"", "image/png", "image/jpeg; x=y", "Image/PNG", "video/mp4", "text/video", "text/plain", "video", "x-image/png"} {
				for _, body := range []string{"", "12345678", "123456789", "1234567"} {
					for _, fr := range []string{"len", "chunked", "close"} {
						for prior := 0; prior < 4; prior++ {
							hs := []string{"Cache-Control: max-age=100", "Date: $D"}
							if ct != "" {
								hs = append(hs, "Content-Type: "+ct)
							}
							raw := framed(fr, body, hs)
							one("excluded content", pol, "GET", force, raw, prior)
						}
					}
				}
			}
		}
		// validations that forbid keeping the result
		for _, an := range append(hgrid.Answers304(), world.Raw(304, "", "Date: $D", "Cache-Control: private"), world.Raw(304, "", "Date: $D", "Cache-Control: public"), world.Raw(304, "", "Cache-Control: max-age=60, No-Store", "Date: $D"),
			world.Raw(304, "", "Date: $D", "Cache-Control: max-age=60", "Cache-Control: private"), world.Raw(304, "", "Content-Type: video/x", "Cache-Control: max-age=60", "Date: $D")) {
			for _, q := range reqs() {
				for prior := 1; prior < 4; prior++ {
					for _, pol := range []string{"strict", "excl"} {
						q := q.Clone()
						if q.Get("Cache-Control") == "" {
							q.Set("Cache-Control", "no-cache")
						}
						one("validation answers", pol, "GET", q, an, prior)
					}
				}
			}
		}
		depth := 5
		if c.Thorough {
			depth = 6
		}
		lib.Bounds["sequence_depth"] = depth
		hgrid.Sequences(r, "sequences", "strict", ops(), depth)
	})
}

func hdr(cc, more []string) (h []string) {
	for _, c := range cc {
		h = append(h, "Cache-Control: "+c)
	}
	return append(h, more...)
}

func framed(fr, body string, hs []string) string {
	switch fr {
	case "chunked":
		b := ""
		if body != "" {
			b = string("0123456789"[len(body)]) + "\r\n" + body + "\r\n"
		}
		return world.Raw(200, b+"0\r\n\r\n", append(hs, "Transfer-Encoding: chunked")...)
	case "close":
		return world.RawClose(200, body, hs...)
	}
	return world.Raw(200, body, hs...)
}

func ops() []hseq.Step {
	e := `Etag: "e"`
	nc := world.H("Cache-Control", "no-cache")
	return []hseq.Step{
		{URL: u, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", e)},
		{URL: u, Header: nc, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", e)},
		{URL: u, Header: nc, Raw: hgrid.Resp(200, []string{"private, max-age=10"}, "Date: $D", e)},
		{URL: u, Adv: 11 * s, Raw: hgrid.Resp(200, []string{"no-store"}, "Date: $D", e)},
		{URL: u, Header: nc, Raw: hgrid.Resp(500, []string{"max-age=10"}, "Date: $D", e)},
		{URL: u, Header: nc, Raw: hgrid.Resp(200, nil, "Date: $D", e)},
		{URL: u, Header: world.H("Cache-Control", "no-store, max-age=0"), Adv: s, Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")},
		{URL: u, Header: world.H("Cache-Control", "no-store"), Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")},
		{URL: u, Method: "HEAD", Header: nc, Raw: world.Raw(200, "", "Date: $D", "Cache-Control: max-age=100", "Content-Length: 5")},
		{URL: u, Method: "POST", Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")},
		{URL: u, Header: nc, Raw: world.Raw(304, "", "Date: $D", "Cache-Control: no-store")},
		{URL: u, Header: nc, Fail: true},
		{URL: u, Header: nc, Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D"), Abort: true},
	}
}
