// C08: operator cache policy is applied exactly.
package main

import (
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"kverif/hgrid"
	"kverif/hmodel"
	"kverif/hseq"
	"kverif/lib"
	"kverif/world"
)

const s = time.Second

type rule struct {
	re  string
	ttl time.Duration
}

type content struct {
	re   string
	size int
}

type opts struct {
	strict   bool
	marker   bool
	name     string
	dcc      string
	force    bool
	ttl      string
	rules    []rule
	contents []content
	store    string
	exPaths  []string
	exHeads  map[string]string
}

func (o opts) String() string {
	return fmt.Sprintf("strict=%v marker=%v/%s cc=%q force=%v ttl=%s timeouts=%v contents=%v store=%s exclude=%q %q", o.strict, o.marker, o.name, o.dcc, o.force, o.ttl, o.rules, o.contents, o.store, o.exPaths, o.exHeads)
}

func (o opts) policy() *hseq.Policy {
	def := 120 * s // documented default
	if d, err := time.ParseDuration(o.ttl); err == nil {
		def = d
	}
	m := hmodel.Policy{Strict: o.strict, DefaultCC: o.dcc, ForceCC: o.force, TTL: func(p string) time.Duration {
		for _, r := range o.rules {
			if ok, err := regexp.MatchString(r.re, p); err == nil && ok {
				return r.ttl
			}
		}
		return def
	}, ExcludedType: func(ct string, n int64) bool {
		for _, r := range o.contents {
			if ok, err := regexp.MatchString(r.re, ct); err == nil && ok && ct != "" {
				return r.size <= 0 || n > int64(r.size)
			}
		}
		return false
	}}
	m.ExcludedPath = func(p string) bool {
		for _, e := range o.exPaths {
			if ok, err := regexp.MatchString(e, p); err == nil && ok {
				return true
			}
		}
		return false
	}
	m.ExcludedHeader = func(h http.Header) bool {
		for k, v := range o.exHeads {
			if h.Get(strings.ReplaceAll(k, "_", "-")) == v {
				return true
			}
		}
		return false
	}
	if o.marker {
		m.Marker = http.CanonicalHeaderKey(o.name)
		if o.name == "" {
			m.Marker = "X-Kache"
		}
	}
	p := &hseq.Policy{Name: o.String(), Model: m, Cfg: func() *cache.HttpCacheConfig {
		c := &cache.HttpCacheConfig{Strict: o.strict, XCache: o.marker, XCacheName: o.name, DefaultCacheControl: o.dcc, ForceCacheControl: o.force, DefaultTTL: o.ttl}
		for _, r := range o.rules {
			c.Timeouts = append(c.Timeouts, cache.Timeout{Path: r.re, TTL: r.ttl})
		}
		if o.contents != nil || o.exPaths != nil || o.exHeads != nil {
			c.Exclude = &cache.Exclude{Path: o.exPaths, Header: o.exHeads}
			for _, r := range o.contents {
				c.Exclude.Content = append(c.Exclude.Content, cache.Content{Type: r.re, Size: r.size})
			}
		}
		return c
	}}
	if o.store != "" {
		p.Store = stores[o.store]
	}
	return p
}

var stores = map[string]func() provider.Provider{}

var ruleSets = [][]rule{
	nil,
	{{"^/a", 5 * s}, {"^/ab", 30 * s}, {"[.]css$", 60 * s}},
	{{"^/ab", 30 * s}, {"^/a", 5 * s}},
	{{"css", 60 * s}, {"^/a$", 5 * s}, {".*", 30 * s}},
	{{"(", 5 * s}, {"b", 30 * s}, {"[", s}, {"css", 60 * s}},
	{{"^/$", 0}, {"^/a$", 1000 * s}},
	{{"/a", 25 * s}, {"/ab.css", 5 * s}},
}

var contentSets = [][]content{
	nil,
	{{"^text/html", 0}, {"text", 6}},
	{{"image/.*", 5}, {"text/plain", 0}},
	{{"text/.*", 7}, {"text/html", 0}, {"(", 0}},
	{{"(", 0}, {"text", 6}, {"[", 3}, {"image", 0}},
	{{"text/css", 65536}, {"text", 33000}, {"image", 70000}},
}

var paths = []string{"/", "/a", "/ab", "/ba", "/x.css", "/ab.css", "/A", "/a%62", "/c?x=/a"}

var big = strings.Repeat("0123456789", 7001)

// bodies returns bodies around the limits of o.
func bodies(o opts) (out []string) {
	out = []string{"", "12345", "123456", "1234567", "12345678"}
	for _, c := range o.contents {
		if c.size > 1000 {
			out = append(out, big[:c.size-1], big[:c.size], big[:c.size+1], big[:c.size%32768+1])
		}
	}
	return
}

func main() {
	lib.Alphabet = fmt.Sprintf("strictness x marker off/default/custom x default and forced Cache-Control x %d timeout rule lists x default TTL x %d content rule lists x in-memory, redis, layered x %d paths x elapsed times around every TTL x content types and sizes x validations", len(ruleSets), len(contentSets), len(paths))
	lib.Assumptions = []string{"a size limit does not exclude a response of unknown length; the first matching content rule decides; on the layered store an entry may outlive its TTL by the layered TTL (not used here: layered TTL below all TTLs and exact expiry checked on the remote tier)"}
	lib.Main("C08", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		for _, k := range []string{"memory", "redis"} {
			stores[k] = hgrid.Store(k, s)
		}
		r := &hseq.Runner{C: c, P: p, Props: hseq.Props("C08"), Blame: hseq.Props("C01", "C02", "C03", "C06", "C07"), Policies: map[string]*hseq.Policy{}}
		// other findings count if the same history is sound without any policy options
		base := map[bool]*hseq.Policy{true: hseq.Strict("base strict"), false: hseq.All("base all", 100000*time.Hour)}
		r.Policies["base strict"], r.Policies["base all"] = base[true], base[false]
		r.Reference = func(c *hseq.Case) *hseq.Case {
			d := *c
			d.Policy = "base all"
			if r.Policies[c.Policy].Model.Strict {
				d.Policy = "base strict"
			}
			return &d
		}
		var sets []opts
		add := func(o opts) {
			sets = append(sets, o)
			n := o.String()
			r.Policies[n] = o.policy()
		}
		bools := []bool{true, false}
		// marker and cache control
		for _, strict := range bools {
			for _, mk := range []opts{{}, {marker: true}, {marker: true, name: "X-My-Cache"}, {marker: true, name: "x-lower"}, {name: "X-My-Cache"}} {
				for _, dcc := range []string{"", "max-age=20", "no-store", "no-cache", "public, s-maxage=8", "private"} {
					for _, force := range bools {
						o := mk
						o.strict, o.dcc, o.force, o.ttl = strict, dcc, force, "1000h"
						add(o)
					}
				}
			}
		}
		nCC := len(sets)
		// TTLs
		for _, strict := range bools {
			for _, rs := range ruleSets {
				for _, ttl := range []string{"20s", "", "1m30s", "nonsense"} {
					for _, st := range []string{"memory", "redis"} {
						add(opts{strict: strict, rules: rs, ttl: ttl, store: st, marker: true})
					}
				}
			}
		}
		nTTL := len(sets)
		for _, strict := range bools {
			for _, cs := range contentSets {
				for _, dcc := range []string{"", "max-age=50"} {
					add(opts{strict: strict, contents: cs, dcc: dcc, ttl: "20s", rules: ruleSets[1]})
				}
			}
		}
		nContent := len(sets)
		for _, strict := range bools {
			for _, ps := range [][]string{nil, {"^/ab"}, {"a$", "b$"}, {"(", "^/ab", "[", "css"}, {"css", "(", "^/$"}} {
				for _, hs := range []map[string]string{nil, {"x_skip": "1"}, {"X-Skip": "1", "accept": "a/b", "Cookie": "a=b"}} {
					for _, cs := range contentSets[:2] {
						add(opts{strict: strict, exPaths: ps, exHeads: hs, contents: cs, dcc: "max-age=50", marker: true, ttl: "20s"})
					}
				}
			}
		}
		if r.ReplayIf() {
			return
		}
		v304 := world.Raw(304, "", "Date: $D")
		nc := world.H("Cache-Control", "no-cache")
		do := func(group string, o opts, steps ...hseq.Step) bool {
			if !r.Mine() {
				return true
			}
			return r.Do(group, &hseq.Case{Policy: o.String(), Steps: steps})
		}
		heads := [][]string{{"Date: $D"}, {"Date: $D", "Cache-Control: max-age=10"}, {"Date: $D", "Cache-Control: no-store"}, {"Date: $D", "Expires: $D+15"}, {"Date: $D", "Cache-Control: public"}, {"Cache-Control:", "Date: $D"},
			{"Date: $D", "Cache-Control: private", "Cache-Control: max-age=10"}, {"Date: $D", "Cache-Control: max-age=10", "X-Kache: HIT"}, {"Date: $D", "Cache-Control: max-age=10", "X-My-Cache: MISS"}, {"Date: $D", "Cache-Control: no-cache", `Etag: "e"`}}
		for _, o := range sets[:nCC] {
			for _, h := range heads {
				raw := world.Raw(200, "body-$N", append([]string{"X-Z: 1"}, h...)...)
				u := "http://o/x"
				for _, dt := range []time.Duration{0, 7 * s, 9 * s, 11 * s, 19 * s, 21 * s} {
					for _, tail := range [][]hseq.Step{
						{{URL: u, Adv: dt, Raw: raw}, {URL: u, Adv: s, Raw: raw}},
						{{URL: u, Adv: dt, Method: "HEAD", Raw: world.Raw(200, "", h...)}, {URL: u, Raw: raw}},
						{{URL: u, Header: nc, Raw: v304}, {URL: u, Adv: dt, Raw: raw}, {URL: u, Adv: dt, Raw: raw}},
						{{URL: u, Header: nc, Raw: world.Raw(304, "", "Date: $D", "Cache-Control: max-age=9")}, {URL: u, Adv: dt, Raw: v304}, {URL: u, Header: world.H("Authorization", "x"), Raw: raw}},
						{{URL: u, Header: world.H("Range", "bytes=0-1"), Adv: dt, Raw: raw}, {URL: u, Raw: raw}, {URL: u, Header: nc, Fail: true}},
					} {
						if !do("marker and cache control", o, append([]hseq.Step{{URL: u, Raw: raw}}, tail...)...) {
							return
						}
					}
				}
			}
		}
		for _, o := range sets[nCC:nTTL] {
			for _, path := range paths {
				u := "http://o" + path
				fill := hseq.Step{URL: u, Raw: hgrid.Resp(200, []string{"max-age=10000"}, "Date: $D", `Etag: "e"`)}
				for _, dt := range []time.Duration{0, 4 * s, 6 * s, 19 * s, 21 * s, 24 * s, 26 * s, 29 * s, 31 * s, 59 * s, 61 * s, 89 * s, 91 * s, 119 * s, 121 * s} {
					pr := fill
					pr.Adv = dt
					v := hseq.Step{URL: u, Adv: 4 * s, Header: nc, Raw: v304}
					for _, h := range [][]hseq.Step{{fill, pr}, {fill, v, pr}, {fill, v, v, pr, pr}, {fill, {URL: u, Adv: 3 * s, Raw: fill.Raw}, pr}, {fill, {URL: "http://o/other", Adv: 2 * s, Raw: fill.Raw}, pr}} {
						if !do("ttl", o, h...) {
							return
						}
					}
				}
			}
		}
		for _, o := range sets[nTTL:nContent] {
			for _, path := range []string{"/", "/ab.css"} {
				for _, ct := range []string{"", "text/html", "text/plain; charset=x", "text/css", "image/png", "TEXT/HTML", "application/text"} {
					for _, body := range bodies(o) {
						for _, fr := range []func(int, string, ...string) string{world.Raw, world.RawClose, func(st int, b string, h ...string) string { return world.Chunked(st, b, 3, h...) }} {
							for _, cc := range []string{"", "Cache-Control: max-age=15"} {
								h := []string{"Date: $D"}
								if ct != "" {
									h = append(h, "Content-Type: "+ct)
								}
								if cc != "" {
									h = append(h, cc)
								}
								u := "http://o" + path
								raw := fr(200, body, h...)
								for _, hist := range [][]hseq.Step{{{URL: u, Raw: raw}, {URL: u, Adv: 3 * s, Raw: raw}, {URL: u, Adv: 3 * s, Raw: raw}},
									{{URL: u, Raw: hgrid.Resp(200, []string{"max-age=100"}, "Date: $D")}, {URL: u, Header: nc, Adv: 10 * s, Raw: raw}, {URL: u, Adv: 3 * s, Raw: hgrid.Resp(500, nil)}}} {
									if !do("content rules", o, hist...) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
		for _, o := range sets[nContent:] {
			for _, path := range paths {
				u := "http://o" + path
				for _, q := range []http.Header{{}, world.H("X-Skip", "1"), world.H("X-Skip", "2"), world.H("Accept", "a/b"), world.H("Cookie", "a=b"), world.H("Accept", "A/B"), world.H("Accept", "a/bc"), world.H("Accept", "a/"), world.H("X-Skip", "2", "Accept", "a/b", "Cookie", "c=d")} {
					for _, raw := range []string{hgrid.Resp(200, nil, "Date: $D", "Content-Type: text/html"), hgrid.Resp(200, []string{"max-age=15"}, "Date: $D", "Content-Type: a/b")} {
						a, b := hseq.Step{URL: u, Header: q, Raw: raw}, hseq.Step{URL: u, Adv: s, Raw: raw}
						for _, hist := range [][]hseq.Step{{a, a, b, a}, {b, a, b, b}} {
							if !do("exclusions", o, hist...) {
								return
							}
						}
					}
				}
			}
		}
		if c.Thorough {
			// the full product of marker, cache control, TTL and content rules
			for _, strict := range bools {
				for _, mk := range []opts{{}, {marker: true, name: "X-My-Cache"}} {
					for _, dcc := range []string{"", "max-age=20", "no-store"} {
						for _, force := range bools {
							for _, rs := range ruleSets {
								for _, cs := range contentSets {
									o := mk
									o.strict, o.dcc, o.force, o.ttl, o.rules, o.contents = strict, dcc, force, "22s", rs, cs
									r.Policies[o.String()] = o.policy()
									for _, path := range paths {
										u := "http://o" + path
										for _, h := range heads {
											for _, ct := range []string{"text/html", "text/css", "image/png"} {
												raw := world.Raw(200, "12345$N", append([]string{"Content-Type: " + ct}, h...)...)
												for _, dt := range []time.Duration{4 * s, 6 * s, 21 * s, 23 * s, 29 * s, 31 * s} {
													if !do("product", o, hseq.Step{URL: u, Raw: raw}, hseq.Step{URL: u, Adv: dt, Raw: raw}, hseq.Step{URL: u, Adv: 3 * s, Header: nc, Raw: v304}, hseq.Step{URL: u, Adv: dt, Raw: raw}) {
														return
													}
												}
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	})
}
