// C01: a stale stored response is never served without successful validation.
package main

import (
	"net/http"
	"time"

	"kverif/hgrid"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const s = time.Second

func main() {
	lib.Alphabet = "response Cache-Control: all ordered lists of up to 2 (thorough: 3) of 26 directives in one or two lines x Date/Expires/Age forms x elapsed time around every boundary x 20 request header forms; validation answers; sequences of 14 operations"
	lib.Assumptions = []string{"virtual clock; ages are compared with whole-second resolution (a response may be served within the second in which it becomes stale)"}
	lib.Main("C01", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C01"), Policies: map[string]*hseq.Policy{"strict": hseq.Strict("strict")}}
		if r.ReplayIf() {
			return
		}
		dts := []time.Duration{0, 3 * s, 5 * s, 6 * s, 10 * s, 11 * s, 31 * s, 61 * s}
		qs := hgrid.ReqCC()
		hgrid.StoreThenProbe(r, "single directive, all time data", "strict", hgrid.CCSets(false, false), hgrid.Times(true), dts, qs, true, nil)
		hgrid.StoreThenProbe(r, "directive pairs", "strict", hgrid.CCSets(true, false), hgrid.Times(false), dts[2:], qs, false, nil)
		// sub-second clocks
		for _, start := range []time.Duration{0, 500 * time.Millisecond, 999 * time.Millisecond} {
			for _, frac := range []time.Duration{0, 1 * time.Millisecond, 500 * time.Millisecond, 999 * time.Millisecond} {
				var d []time.Duration
				for _, x := range dts {
					d = append(d, x+frac)
				}
				hgrid.StoreThenProbe(r, "sub-second clock", "strict", hgrid.CCSets(false, false), hgrid.Times(false), d, qs, true, func(c *hseq.Case) { c.Start, c.Slack = start, s })
			}
		}
		hgrid.Revalidate(r, "validation then probe", "strict", hgrid.Firsts(), []time.Duration{0, 5 * s, 20 * s}, hgrid.Answers304(), []time.Duration{0, 3 * s, 4 * s, 10 * s, 11 * s, 41 * s},
			[]http.Header{{}, world.H("Cache-Control", "max-age=2"), world.H("Cache-Control", "min-fresh=3"), world.H("Cache-Control", "max-stale=2")}, world.H("Cache-Control", "no-cache"))
		depth := 4
		if c.Thorough {
			depth = 5
		}
		lib.Bounds["sequence_depth"] = depth
		hgrid.Sequences(r, "sequences", "strict", ops(), depth)
		if c.Thorough {
			hgrid.StoreThenProbe(r, "directive pairs, all time data", "strict", hgrid.CCSets(true, false), hgrid.Times(true), dts, qs, false, nil)
			hgrid.StoreThenProbe(r, "directive triples", "strict", hgrid.CCSets(false, true), hgrid.Times(false), []time.Duration{5 * s, 6 * s, 11 * s, 61 * s}, qs[:10], false, nil)
		}
	})
}

func ops() []hseq.Step {
	u := "http://o/x"
	e := `Etag: "e"`
	return []hseq.Step{
		{URL: u, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", e)},
		{URL: u, Adv: 5 * s, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", e)},
		{URL: u, Adv: 11 * s, Raw: world.Raw(304, "", "Date: $D")},
		{URL: u, Adv: 6 * s, Raw: world.Raw(304, "", "Date: $D", "Cache-Control: max-age=3")},
		{URL: u, Adv: 11 * s, Fail: true},
		{URL: u, Adv: 4 * s, Header: world.H("Cache-Control", "max-age=3"), Raw: hgrid.Resp(200, []string{"max-age=4, must-revalidate"}, "Date: $D", e)},
		{URL: u, Adv: 7 * s, Header: world.H("Cache-Control", "max-stale=5"), Raw: hgrid.Resp(200, nil, "Date: $D", "Expires: $D+6", e)},
		{URL: u, Adv: 2 * s, Method: "HEAD", Raw: world.Raw(200, "", "Date: $D", "Cache-Control: max-age=100", "Content-Length: 5")},
		{URL: u, Adv: 3 * s, Header: world.H("Pragma", "no-cache"), Raw: world.Raw(304, "", "Date: $D", `Etag: "e"`)},
		{URL: u, Adv: s, Header: world.H("Cache-Control", "min-fresh=5"), Raw: hgrid.Resp(404, []string{"s-maxage=3, max-age=50"}, "Date: $D", "Age: 1")},
		{URL: u, Adv: s, Method: "POST", Body: "x", Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")},
		{URL: u, Adv: 11 * s, Raw: hgrid.Resp(500, []string{"max-age=100"}, "Date: $D")},
		{URL: u, Adv: s, Header: world.H("Cache-Control", "no-store"), Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")},
		{URL: u, Adv: s, Header: world.H("Authorization", "x"), Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")},
	}
}
