// Package hgrid holds the alphabets and history families shared by the checks of caching decisions.
package hgrid

import (
	"net/http"
	"strings"
	"time"

	"kverif/hseq"
	"kverif/world"
)

// RespCC are the atoms of response Cache-Control fields.
var RespCC = []string{"max-age=10", "max-age=0", "max-age=60", "s-maxage=5", "s-maxage=30", "no-cache", "must-revalidate", "proxy-revalidate",
	"public", "no-transform", "Max-Age=10", "S-MAXAGE=5", "NO-CACHE", "Must-Revalidate", `max-age="10"`, "max-age=abc", "max-age=", "max-age=-1",
	"s-maxage=x", "max-age=99999999999", "max-age=9999999999", "foo=bar", "stale-while-revalidate=100", "no-store", "private", "immutable"}

// CCSets are header line sets: each element is the list of Cache-Control lines.
func CCSets(pairs, triples bool) (out [][]string) {
	out = append(out, nil)
	for _, a := range RespCC {
		out = append(out, []string{a})
	}
	if pairs {
		for _, a := range RespCC {
			for _, b := range RespCC {
				if a != b {
					out = append(out, []string{a + ", " + b}, []string{a, b})
				}
			}
		}
	}
	if triples {
		for _, a := range RespCC {
			for _, b := range RespCC {
				for _, c := range RespCC {
					if a != b && b != c && a != c {
						out = append(out, []string{a + "," + b + " , " + c})
					}
				}
			}
		}
	}
	return
}

// Times are header lines giving time data; $D+n is the origin's date plus n seconds.
func Times(full bool) (out [][]string) {
	dates := []string{"Date: $D", "Date: $D-20", "Date: $D+20", "", "Date: nonsense"}
	exps := []string{"", "Expires: $D+10", "Expires: $D+60", "Expires: $D-5", "Expires: 0", "Expires: Tuesday, 14-Nov-23 22:13:35 GMT", "Expires: Tue Nov 14 22:13:35 2023"}
	ages := []string{"", "Age: 0", "Age: 7", "Age: abc", "Age: 99999999999", "Age: 9999999999"}
	if !full {
		return [][]string{{"Date: $D"}, {}, {"Date: $D", "Expires: $D+10"}, {"Date: $D-20", "Expires: $D+10", "Age: 7"}, {"Expires: $D+10"}, {"Date: $D", "Age: 7"}, {"Date: $D", "Expires: 0"}}
	}
	for _, d := range dates {
		for _, e := range exps {
			for _, a := range ages {
				var l []string
				for _, s := range []string{d, e, a} {
					if s != "" {
						l = append(l, s)
					}
				}
				out = append(out, l)
			}
		}
	}
	return
}

// ReqCC are the request headers of the probing request.
func ReqCC() []http.Header {
	return []http.Header{{}, world.H("Cache-Control", "no-cache"), world.H("Pragma", "no-cache"), world.H("Cache-Control", "max-age=0"),
		world.H("Cache-Control", "max-age=5"), world.H("Cache-Control", "min-fresh=5"), world.H("Cache-Control", "max-stale"),
		world.H("Cache-Control", "max-stale=3"), world.H("Cache-Control", "max-stale=3, min-fresh=5"), world.H("Cache-Control", "max-age=100", "Pragma", "no-cache"),
		world.H("Cache-Control", "No-Cache"), world.H("Cache-Control", "max-stale", "Cache-Control", "no-cache"), world.H("Cache-Control", "max-age=abc"),
		world.H("Cache-Control", `max-age="5"`), world.H("Cache-Control", "max-stale, max-age=5"), world.H("Cache-Control", "MAX-AGE=0, foo"),
		world.H("Pragma", "foo, No-Cache"), world.H("Cache-Control", "max-stale=x"), world.H("Cache-Control", "no-store"), world.H("Cache-Control", "Min-Fresh=5")}
}

// Resp composes an origin answer with its number as body.
func Resp(status int, cc []string, more ...string) string {
	var hs []string
	for _, c := range cc {
		hs = append(hs, "Cache-Control: "+c)
	}
	hs = append(hs, more...)
	return world.Raw(status, "body-$N", hs...)
}

const Sec = time.Second

// StoreThenProbe: one response is stored, time passes, one request follows.
func StoreThenProbe(r *hseq.Runner, group, policy string, ccs [][]string, times [][]string, dts []time.Duration, qs []http.Header, etag bool, each func(c *hseq.Case)) bool {
	for _, cc := range ccs {
		for _, tm := range times {
			more := tm
			if etag {
				more = append(append([]string{}, tm...), `Etag: "e"`)
			}
			raw := Resp(200, cc, more...)
			for _, dt := range dts {
				for _, q := range qs {
					if !r.Mine() {
						continue
					}
					c := &hseq.Case{Policy: policy, Steps: []hseq.Step{{URL: "http://o/x", Raw: raw}, {URL: "http://o/x", Adv: dt, Header: q, Raw: raw}}}
					if each != nil {
						each(c)
					}
					if !r.Do(group, c) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Revalidate: store, wait, forced validation answered in some way, wait, probe.
func Revalidate(r *hseq.Runner, group, policy string, first []string, dt1 []time.Duration, answers []string, dt2 []time.Duration, qs []http.Header, force http.Header) bool {
	for _, f := range first {
		for _, a := range dt1 {
			for _, an := range answers {
				for _, b := range dt2 {
					for _, q := range qs {
						if !r.Mine() {
							continue
						}
						c := &hseq.Case{Policy: policy, Steps: []hseq.Step{{URL: "http://o/x", Raw: f}, {URL: "http://o/x", Adv: a, Header: force, Raw: an},
							{URL: "http://o/x", Adv: b, Header: q, Raw: Resp(200, []string{"max-age=1"}, "Date: $D", `Etag: "n"`)}}}
						if strings.HasPrefix(an, "FAIL") {
							c.Steps[1].Fail = true
						}
						if !r.Do(group, c) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// Sequences enumerates all sequences of ops up to depth.
func Sequences(r *hseq.Runner, group, policy string, ops []hseq.Step, depth int) bool {
	seq := make([]int, depth)
	for {
		if r.Mine() {
			c := &hseq.Case{Policy: policy}
			for _, i := range seq {
				c.Steps = append(c.Steps, ops[i])
			}
			if !r.Do(group, c) {
				return false
			}
		}
		i := depth - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < len(ops) {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// Firsts are responses stored first in revalidation histories.
func Firsts() []string {
	var out []string
	for _, cc := range [][]string{{"max-age=10"}, {"max-age=0"}, {"no-cache"}, {"max-age=10, must-revalidate"}, {"s-maxage=5, max-age=60"}} {
		for _, more := range [][]string{{"Date: $D", `Etag: "e"`}, {"Date: $D", `Etag: W/"e"`, "Last-Modified: $D-100"}, {`Etag: "e"`}, {"Date: $D", "Last-Modified: $D-100", "Age: 7"}, {"Date: $D", "Expires: $D+30", `Etag: "e"`, "X-A: 1", "X-A: 2"}} {
			out = append(out, Resp(200, cc, more...))
		}
	}
	return out
}

// Answers304 are answers to a validation.
func Answers304() []string {
	var out []string
	for _, l := range [][]string{{}, {"Date: $D"}, {"Date: $D", "Cache-Control: max-age=3"}, {"Date: $D", "Cache-Control: max-age=60"}, {"Date: $D", "Expires: $D+40"},
		{"Date: $D", "Age: 5"}, {"Date: $D", "Cache-Control: no-cache"}, {"Date: $D", "Cache-Control: no-store"}, {"Date: $D", `Etag: "e"`}, {"Date: $D", `Etag: "other"`}, {"Date: $D", `Etag: "e2"`}, {"Date: $D", "Etag: e"}, {"Date: $D", "Age: 9", "Cache-Control: max-age=10"},
		{"Date: $D", `Etag: W/"e"`}, {"Date: $D", "X-A: 9", "X-New: 1"}, {"Date: $D", "Last-Modified: $D-50"}, {"Date: $D-5", "Cache-Control: max-age=10"},
		{"Date: $D", "Cache-Control: max-age=3", "Cache-Control: must-revalidate"}} {
		out = append(out, world.Raw(304, "", l...))
	}
	return out
}
