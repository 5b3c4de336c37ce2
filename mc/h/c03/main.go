// C03: the outcome of a revalidation decides what is served and what is kept.
package main

import (
	"net/http"
	"time"

	"kverif/hgrid"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const (
	s = time.Second
	u = "http://o/x"
)

func firsts() []string {
	out := hgrid.Firsts()
	out = append(out,
		hgrid.Resp(404, []string{"max-age=10"}, "Date: $D", `Etag: "e"`),
		hgrid.Resp(200, []string{"max-age=10"}, "Date: $D"),
		hgrid.Resp(200, []string{"no-cache"}),
		hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", "Last-Modified: $D-100"),
		hgrid.Resp(200, []string{"max-age=10"}, "Last-Modified: $D-100", "Vary: X-V", `Etag: "e"`),
		hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "e"`, "X-A: 1", "X-B: 2", "Content-Type: text/plain", "Content-Language: en"),
		hgrid.Resp(301, []string{"max-age=10"}, "Date: $D", `Etag: "e"`, "Location: /y"),
		world.Chunked(200, "body-$N-chunked", 4, "Cache-Control: max-age=10", "Date: $D", `Etag: "e"`),
		world.RawClose(200, "body-$N", "Cache-Control: max-age=10", "Date: $D", `Etag: "e"`),
		world.Raw(204, "", "Cache-Control: max-age=10", "Date: $D", `Etag: "e"`),
		hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: ""`),
		world.Raw(200, "", "Cache-Control: max-age=10", "Date: $D", `Etag: "e"`),
		hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", "Etag: e"))
	return out
}

func answers() []string {
	out := hgrid.Answers304()
	out = append(out,
		world.Raw(304, "", "Date: $D", "Cache-Control: private"),
		world.Raw(304, "", "Date: $D", "Expires: 0"),
		world.Raw(304, "", "Date: $D", "Content-Length: 99"),
		world.Raw(304, "", "Date: $D", "Content-Range: bytes 0-1/9", "X-A: 5"),
		world.Raw(304, "", "Date: $D", "X-B: 3", "X-B: 4", "X-A: "),
		world.Raw(304, "", "Date: $D", `Etag: "other"`, "X-A: 9", "Cache-Control: max-age=60"),
		world.Raw(304, "", `Etag: ""`),
		world.Raw(304, "", "Etag: e2"),
		world.Raw(304, "", `Etag: "E"`),
		world.Raw(304, "", `Etag: e"`),
		world.Raw(304, "", "Date: $D", "Content-Language: de", "Warning: 299 x"),
		world.Raw(304, "", "Date: $D", "Set-Cookie: a=b"))
	for _, st := range []int{200, 204, 301, 302, 404, 410, 412, 416, 500, 502, 503, 504} {
		if st == 204 {
			out = append(out, world.Raw(204, "", "Date: $D", "Cache-Control: max-age=20", `Etag: "n"`))
			continue
		}
		for _, cc := range [][]string{nil, {"max-age=20"}, {"no-store"}, {"max-age=0, must-revalidate"}} {
			out = append(out, hgrid.Resp(st, cc, "Date: $D", `Etag: "n"`))
		}
	}
	out = append(out, hgrid.Resp(200, []string{"max-age=20"}, "Date: $D", `Etag: "e"`), world.Chunked(200, "new-$N", 3, "Cache-Control: max-age=20", "Date: $D"))
	return out
}

func main() {
	lib.Alphabet = "stored responses (validators, directives, framing, status) x 35 answers to validation (304 with matching, changed, weak, absent etag and refreshed headers; other statuses; transport error; broken body) x elapsed time x follow-up request, then a second validation; sequences of 13 operations"
	lib.Assumptions = []string{"the reference tolerates both readings where a 304's etag is weak or appears on an entry without one"}
	lib.Main("C03", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C03"), Blame: hseq.Props("C01", "C02", "C06", "C07"), Policies: map[string]*hseq.Policy{"strict": hseq.Strict("strict"), "all": hseq.All("all", 20*s)}}
		// A finding about what is served later counts here if the history without 304 answers is sound.
		r.Reference = func(c *hseq.Case) *hseq.Case {
			d := *c
			d.Steps = append([]hseq.Step(nil), c.Steps...)
			for i := range d.Steps {
				if len(d.Steps[i].Raw) > 12 && d.Steps[i].Raw[9:12] == "304" || d.Steps[i].Fail || d.Steps[i].Abort {
					d.Steps[i].Raw = hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "e"`)
					d.Steps[i].Fail, d.Steps[i].Abort = false, false
				}
			}
			return &d
		}
		if r.ReplayIf() {
			return
		}
		forces := []http.Header{world.H("Cache-Control", "no-cache"), {}, world.H("Cache-Control", "max-age=0"), world.H("Pragma", "no-cache"), world.H("Cache-Control", "min-fresh=100")}
		follow := []http.Header{{}, world.H("Cache-Control", "no-cache"), world.H("Cache-Control", "max-stale")}
		for _, f := range firsts() {
			for _, force := range forces {
				for _, method := range []string{"GET", "HEAD"} {
					for _, a := range []time.Duration{s, 15 * s} {
						for ai, an := range append(answers(), "FAIL", "ABORT") {
							for _, b := range []time.Duration{0, 2 * s, 4 * s, 12 * s} {
								for _, q := range follow {
									if !r.Mine() {
										continue
									}
									st2 := hseq.Step{URL: u, Method: method, Adv: a, Header: force, Raw: an}
									switch an {
									case "FAIL":
										st2.Fail = true
									case "ABORT":
										if method == "HEAD" {
											continue
										}
										st2.Abort, st2.Raw = true, hgrid.Resp(200, []string{"max-age=20"}, "Date: $D", `Etag: "n"`)
									}
									if method == "HEAD" && ai >= 0 && an != "FAIL" && len(an) > 12 && an[9:12] != "304" {
										st2.Raw = noBody(an)
									}
									cs := &hseq.Case{Policy: "strict", Steps: []hseq.Step{{URL: u, Raw: f}, st2,
										{URL: u, Adv: b, Header: q, Raw: world.Raw(304, "", "Date: $D", "X-Second: 1")},
										{URL: u, Adv: s, Raw: hgrid.Resp(200, nil, "Date: $D")}}}
									if !r.Do("validate, probe, validate", cs) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
		// 304 without anything being validated
		for _, pol := range []string{"strict", "all"} {
			for _, an := range hgrid.Answers304() {
				for _, m := range []string{"GET", "HEAD", "POST"} {
					for _, q := range []http.Header{{}, world.H("If-None-Match", `"z"`), world.H("If-Modified-Since", world.Date(0)), world.H("Cache-Control", "no-cache")} {
						if !r.Mine() {
							continue
						}
						if !r.Do("unsolicited 304", &hseq.Case{Policy: pol, Steps: []hseq.Step{{URL: u, Method: m, Header: q, Raw: an}, {URL: u, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "e"`)},
							{URL: u, Header: q, Method: m, Adv: 30 * s, Raw: an}, {URL: u, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "e2"`)}}}) {
							return
						}
					}
				}
			}
		}
		depth := 4
		if c.Thorough {
			depth = 6
		}
		lib.Bounds["sequence_depth"] = depth
		hgrid.Sequences(r, "sequences", "strict", ops(), depth)
	})
}

// noBody is the answer to a HEAD request.
func noBody(raw string) string {
	for i := 0; i+4 <= len(raw); i++ {
		if raw[i:i+4] == "\r\n\r\n" {
			return raw[:i+4]
		}
	}
	return raw
}

func ops() []hseq.Step {
	nc := world.H("Cache-Control", "no-cache")
	return []hseq.Step{
		{URL: u, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "e"`, "X-A: 1")},
		{URL: u, Adv: 11 * s, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D", `Etag: "f"`, "Last-Modified: $D-60")},
		{URL: u, Adv: 11 * s, Raw: world.Raw(304, "", "Date: $D", "X-A: 2", "X-C: 1")},
		{URL: u, Adv: s, Header: nc, Raw: world.Raw(304, "", "Date: $D", `Etag: "e"`, "Cache-Control: max-age=2")},
		{URL: u, Adv: 3 * s, Raw: world.Raw(304, "", "Date: $D", `Etag: "g"`)},
		{URL: u, Adv: s, Header: nc, Raw: hgrid.Resp(404, nil, "Date: $D")},
		{URL: u, Adv: s, Header: nc, Raw: hgrid.Resp(500, []string{"max-age=10"}, "Date: $D", `Etag: "h"`)},
		{URL: u, Adv: 6 * s, Header: nc, Fail: true},
		{URL: u, Adv: 11 * s, Raw: hgrid.Resp(200, []string{"max-age=10"}, "Date: $D"), Abort: true},
		{URL: u, Adv: s, Header: world.H("If-None-Match", `"e"`), Raw: world.Raw(304, "", "Date: $D", `Etag: "e"`, "X-A: 7")},
		{URL: u, Adv: 11 * s, Method: "HEAD", Raw: world.Raw(304, "", "Date: $D", "X-A: 3")},
		{URL: u, Adv: 6 * s, Header: world.H("Cache-Control", "max-stale=8"), Raw: hgrid.Resp(200, []string{"max-age=5"}, "Date: $D-2", "Age: 1", "Last-Modified: $D-30")},
		{URL: u, Adv: s, Header: nc, Raw: world.Raw(304, "", "Cache-Control: no-cache")},
	}
}
