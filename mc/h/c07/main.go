// C07: a fresh stored response is served without contacting the origin.
package main

import (
	"net/http"
	"strings"
	"time"

	"kverif/hgrid"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const s = time.Second

func main() {
	lib.Alphabet = "response directives and time data x elapsed times around every boundary x 20 request header forms; every storable status; sequences of 14 operations over three resources on the in-memory, redis and layered store, strict and non-strict (TTL 20 s)"
	lib.Assumptions = []string{"within the second in which a response becomes stale, or of its TTL, both answers are accepted", "redis is an in-process model behind the real client"}
	lib.Main("C07", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C07"), Policies: map[string]*hseq.Policy{}}
		for _, k := range []string{"memory", "redis", "layered"} {
			for _, strict := range []bool{true, false} {
				n := k
				pol := hseq.Strict(n)
				if !strict {
					n += "-all"
					pol = hseq.All(n, 20*s)
				}
				pol.Store = hgrid.Store(k, 3*s)
				r.Policies[n] = pol
			}
		}
		r.Policies["strict"] = hseq.Strict("strict")
		if r.ReplayIf() {
			return
		}
		dts := []time.Duration{0, s, 4 * s, 5 * s, 9 * s, 10 * s, 29 * s, 30 * s, 59 * s, 10000 * s}
		qs := hgrid.ReqCC()
		hgrid.StoreThenProbe(r, "single directive, all time data", "strict", hgrid.CCSets(false, false), hgrid.Times(true), dts, qs, true, nil)
		hgrid.StoreThenProbe(r, "directive pairs", "strict", hgrid.CCSets(true, false), hgrid.Times(false), []time.Duration{4 * s, 9 * s, 29 * s, 59 * s}, qs[:8], false, nil)
		for _, start := range []time.Duration{0, 500 * time.Millisecond, 999 * time.Millisecond} {
			var d []time.Duration
			for _, x := range dts {
				d = append(d, x+500*time.Millisecond)
			}
			hgrid.StoreThenProbe(r, "sub-second clock", "strict", hgrid.CCSets(false, false), hgrid.Times(false), d, qs, true, func(c *hseq.Case) { c.Start, c.Slack = start, s })
		}
		// every status, header kind, method of the probe
		for _, pol := range []string{"strict", "memory-all", "layered"} {
			for _, st := range []int{200, 203, 206, 300, 301, 308, 404, 405, 410, 414, 451, 501} {
				for _, hs := range [][]string{{}, {"Set-Cookie: a=b"}, {"Vary: X-V"}, {"Content-Type: image/png"}, {"Connection: close"}, {"Expires: 0"}, {"Pragma: no-cache"}, {"Age: 4"}, {"Authorization: x"}} {
					for _, url := range []string{"http://o/", "http://o/x?a=1&b=2", "http://O:80/x/", "http://o/x%20y?q=%2F", "https://o/x", "http://o/x?", "http://o/a//b", "http://o/%2F"} {
						for _, q := range []http.Header{{}, world.H("Cookie", "a=b"), world.H("Accept-Encoding", "gzip"), world.H("Origin", "x"), world.H("User-Agent", "u", "Referer", "r"), world.H("Cache-Control", "max-age=100"), world.H("Cache-Control", "foo"), world.H("Pragma", "foo"), world.H("Expect", "100-continue"), world.H("Content-Length", "0"), world.H("Cache-Control", "only-if-cached")} {
							for _, m := range []string{"GET", "HEAD"} {
								if !r.Mine() {
									continue
								}
								raw := hgrid.Resp(st, []string{"max-age=60"}, append([]string{"Date: $D"}, hs...)...)
								if !r.Do("status, url, headers", &hseq.Case{Policy: pol, Steps: []hseq.Step{{URL: url, Raw: raw}, {URL: url, Adv: 15 * s, Method: m, Header: q, Raw: hgrid.Resp(500, nil)}, {URL: url, Adv: 2 * s, Header: q, Raw: hgrid.Resp(500, nil)}}}) {
									return
								}
							}
						}
					}
				}
			}
		}
		hgrid.Revalidate(r, "validation then probe", "strict", hgrid.Firsts(), []time.Duration{0, 5 * s, 20 * s}, hgrid.Answers304(), []time.Duration{0, s, 2 * s, 9 * s, 39 * s},
			[]http.Header{{}, world.H("Cache-Control", "max-age=2"), world.H("Cache-Control", "min-fresh=3"), world.H("Cache-Control", "max-stale=2")}, world.H("Cache-Control", "no-cache"))
		depth := 4
		if c.Thorough {
			depth = 6
		}
		lib.Bounds["sequence_depth"] = depth
		for _, pol := range []string{"memory", "layered", "redis", "memory-all", "layered-all", "redis-all"} {
			hgrid.Sequences(r, "sequences "+pol, pol, ops(strings.HasSuffix(pol, "-all")), depth)
		}
	})
}

func ops(all bool) []hseq.Step {
	x, y, z := "http://o/x", "http://o/x?y", "http://p/x"
	o := []hseq.Step{
		{URL: x, Adv: s, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "e"`)},
		{URL: y, Adv: s, Raw: hgrid.Resp(404, []string{"s-maxage=30"}, "Date: $D")},
		{URL: z, Adv: s, Raw: hgrid.Resp(301, []string{"max-age=15"}, "Date: $D", "Location: /")},
		{URL: x, Adv: 6 * s, Method: "HEAD", Raw: world.Raw(200, "", "Date: $D", "Cache-Control: max-age=10")},
		{URL: y, Adv: 9 * s, Method: "HEAD", Raw: world.Raw(200, "", "Date: $D", "Cache-Control: max-age=10")},
		{URL: x, Adv: 5 * s, Header: world.H("Cache-Control", "no-cache"), Raw: world.Raw(304, "", "Date: $D")},
		{URL: x, Adv: s, Header: world.H("Authorization", "a"), Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D")},
		{URL: x, Adv: s, Method: "POST", Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D")},
		{URL: x, Adv: s, Header: world.H("Cache-Control", "no-store, max-age=0"), Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D")},
		{URL: z, Adv: 4 * s, Raw: hgrid.Resp(500, nil, "Date: $D")},
		{URL: y, Adv: 11 * s, Fail: true},
		{Op: "purge", Arg: "*"},
		{URL: x, Adv: 18 * s, Raw: hgrid.Resp(200, []string{"private"}, "Date: $D")},
	}
	return o
}
