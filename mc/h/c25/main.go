// C25: negotiated variants are never mixed up.
package main

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/cosim"
	"kverif/hgrid"
	"kverif/hmodel"
	"kverif/hseq"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

const (
	s = time.Second
	u = "http://o/x"
)

// what clients send
var reqs = []http.Header{{}, world.H("X-V", "1"), world.H("X-V", "2"), world.H("X-V", ""), world.H("X-V", "1", "X-V", "2"), world.H("X-V", "2", "X-V", "1"), world.H("X-V", "1, 2"),
	world.H("Accept-Language", "de"), world.H("X-V", "1", "Accept-Language", "de"), world.H("X-V", "1", "Accept-Language", "en"), world.H("Accept-Encoding", "gzip"), world.H("X-V", "1", "Accept-Encoding", "gzip"), world.H("Cookie", "a=1"), world.H("X-V", "a", "X-W", "b"), world.H("X-V", "b", "X-W", "a")}

// how the origin says what it depends on
var varies = [][]string{{"Vary: X-V"}, {"Vary: x-v"}, {"Vary: X-V, Accept-Language"}, {"Vary: Accept-Language", "Vary: X-V"}, {"Vary: *"}, {"Vary: X-V, *"}, {"Vary: X-V", "Vary: *"}, {"Vary:  X-V ,"}, {"Vary: Accept-Encoding,X-V"}, {"Vary: Cookie"}, {"Vary: X-V, X-W"}, {"Vary: X-W,X-V"}, {"Vary: "}, nil, {"vary: X-V"}, {"Vary: , ,X-V"}}

func resp(cc string, more ...string) string { return hgrid.Resp(200, []string{cc}, more...) }

func selected(h http.Header, vary []string) (string, bool) {
	v := http.Header{}
	for _, l := range vary {
		v.Add("Vary", strings.TrimSpace(l[5:]))
	}
	return hmodel.Variant(h, v)
}

// together: concurrent callers with different headers; responses vary.
func together(cached bool, hs []int, vary []string, cc string, bound int, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("concurrent cached=%v callers=%v %v %s bound=%d", cached, hs, vary, cc, bound), Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if cached {
			cfg = &cache.HttpCacheConfig{Strict: true, DefaultTTL: "1000h"}
		}
		sim := cosim.New(x, cfg)
		sim.Points = 1
		rh := http.Header{"Cache-Control": {cc}}
		for _, l := range vary {
			rh.Add("Vary", strings.TrimSpace(l[5:]))
		}
		sim.Script = func(f *cosim.Fetch, req *http.Request) (string, http.Header, int) {
			f.Variant, _ = selected(req.Header, vary)
			return "ok", rh, 200
		}
		for _, h := range hs {
			sim.Start(sim.Caller("GET", u, reqs[h].Clone()))
		}
		x.Wait()
		sim.Check(cached)
		for i, c := range sim.Callers {
			if c.From == nil || c.From.Caller == c.ID {
				continue
			}
			want, ok := selected(reqs[hs[i]], vary)
			if !ok {
				x.Fail("caller %d got the %s response fetched for caller %d", c.ID, vary, c.From.Caller)
			} else if want != c.From.Variant {
				x.Fail("caller %d, which selects %q, got the response selected by %q", c.ID, want, c.From.Variant)
			}
		}
		x.Outcome("%s", sim.Describe())
	}}
}

func main() {
	lib.Alphabet = fmt.Sprintf("%d request header sets x %d forms of Vary: every ordered pair and (thorough: all) triple of requests, fresh, stale and validated, 304 with unchanged, changed, removed and added Vary; 2-3 concurrent callers with different headers on the coalescer alone and above the cache", len(reqs), len(varies))
	lib.Assumptions = []string{"one response is kept per resource, so another variant replaces it", "a 304 to a request that carries stored validators selects the stored response"}
	lib.Main("C25", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C25"), Policies: map[string]*hseq.Policy{"strict": hseq.Strict("strict")}}
		r.ReplayIf()
		d := 0
		if c.Thorough {
			d = 1
		}
		var scs []lib.Scenario
		for vi, v := range varies {
			for _, pair := range [][]int{{1, 2}, {0, 1}, {3, 0}, {8, 9}, {4, 6}, {4, 5}, {13, 14}, {1, 11}} {
				scs = append(scs, together(false, pair, v, "max-age=10", 2+d, vi == 0 && pair[1] == 2), together(true, pair, v, "max-age=10", 1+d, vi == 0 && pair[1] == 2))
			}
			for _, three := range [][]int{{1, 2, 1}, {1, 1, 2}} {
				scs = append(scs, together(false, three, v, "max-age=10", 1, false))
				if vi < 2 || c.Thorough {
					scs = append(scs, together(true, three, v, "max-age=10", 0, false))
				}
			}
		}
		if !vsched.RaceMode && c.Replay == nil {
			seqs(c, r)
		}
		c.RunScenarios(p, scs)
	})
}

func seqs(c *lib.Check, r *hseq.Runner) {
	e := `Etag: "e"`
	mid := func(v []string) (out []hseq.Step) {
		out = append(out, hseq.Step{}) // nothing in between
		for _, w := range [][]string{nil, v, {"Vary: X-V"}, {"Vary: Accept-Language"}, {"Vary: *"}} {
			out = append(out, hseq.Step{URL: u, Adv: 11 * s, Raw: world.Raw(304, "", append([]string{"Date: $D", e}, w...)...)})
		}
		out = append(out, hseq.Step{URL: u, Adv: 11 * s, Raw: resp("max-age=10", append([]string{"Date: $D", `Etag: "n"`}, v...)...)},
			hseq.Step{URL: u, Adv: 11 * s, Raw: resp("max-age=10", "Date: $D", `Etag: "n"`)},
			hseq.Step{URL: u, Adv: 11 * s, Method: "HEAD", Raw: world.Raw(304, "", "Date: $D", e)})
		return
	}
	for vi, v := range varies {
		for i1, h1 := range reqs {
			for _, h2 := range reqs {
				if r.Mine() {
					r.Do("pair", &hseq.Case{Policy: "strict", Steps: []hseq.Step{{URL: u, Header: h1, Raw: resp("max-age=10", append([]string{"Date: $D", e}, v...)...)},
						{URL: u, Header: h2, Adv: s, Raw: resp("max-age=10", append([]string{"Date: $D", `Etag: "2"`}, v...)...)},
						{URL: u, Header: h1, Adv: s, Raw: resp("max-age=10", append([]string{"Date: $D", `Etag: "3"`}, v...)...)},
						{URL: u, Header: h2, Adv: s, Method: "HEAD", Raw: world.Raw(200, "", "Date: $D")}}})
				}
				for _, m := range mid(v)[1:] {
					for i3, h3 := range reqs {
						if !c.Thorough && (vi > 4 && (i1 > 3 || i3 > 3)) {
							continue
						}
						for _, q3 := range []string{"", "max-stale"} {
							if !r.Mine() {
								continue
							}
							m := m
							m.Header = h2
							h := h3.Clone()
							if q3 != "" {
								h.Set("Cache-Control", q3)
							}
							if !r.Do("validation", &hseq.Case{Policy: "strict", Steps: []hseq.Step{{URL: u, Header: h1, Raw: resp("max-age=10", append([]string{"Date: $D", e}, v...)...)}, m,
								{URL: u, Header: h, Adv: s, Raw: resp("max-age=10", "Date: $D")}}}) {
								return
							}
						}
					}
				}
			}
		}
	}
	depth := 4
	if c.Thorough {
		depth = 6
	}
	lib.Bounds["sequence_depth"] = depth
	hgrid.Sequences(r, "sequences", "strict", []hseq.Step{
		{URL: u, Header: world.H("X-V", "1"), Raw: resp("max-age=10", "Date: $D", e, "Vary: X-V")},
		{URL: u, Header: world.H("X-V", "2"), Adv: 2 * s, Raw: resp("max-age=10", "Date: $D", e, "Vary: X-V")},
		{URL: u, Header: world.H("X-V", "1"), Adv: 11 * s, Raw: world.Raw(304, "", "Date: $D", e)},
		{URL: u, Header: world.H("X-V", "1"), Adv: 11 * s, Raw: world.Raw(304, "", "Date: $D", e, "Vary: X-V, Accept-Language")},
		{URL: u, Header: world.H("X-V", "1", "Accept-Language", "de"), Adv: s, Raw: resp("max-age=10", "Date: $D", e, "Vary: Accept-Language")},
		{URL: u, Header: world.H("X-V", "2", "Accept-Language", "de"), Adv: s, Raw: resp("max-age=10", "Date: $D", e)},
		{URL: u, Header: world.H("X-V", "2", "Cache-Control", "no-cache"), Adv: s, Raw: world.Raw(304, "", "Date: $D", e, "Vary: X-V")},
		{URL: u, Adv: s, Raw: resp("max-age=10", "Date: $D", "Vary: *")},
		{URL: u, Header: world.H("X-V", "1", "Authorization", "x"), Adv: s, Raw: resp("max-age=10", "Date: $D", e, "Vary: X-V")},
		{URL: u, Method: "HEAD", Header: world.H("X-V", "2"), Adv: s, Raw: world.Raw(200, "", "Date: $D", "Vary: X-V")},
	}, depth)
}
