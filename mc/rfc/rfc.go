// Package rfc is the oracle for HTTP caching decisions: an independent reading of RFC 9111 that
// computes, from what the origin sent and when, which answers from the store are allowed and which
// are due. Where the standard leaves a choice (duplicate or invalid directives) it gives the most
// permissive reading to the "allowed" side and the most restrictive one to the "due" side.
package rfc

import (
	"math"
	"net/http"
	"strconv"
	"strings"
	"time"
)

const inf = time.Duration(math.MaxInt64)

// Directive of a Cache-Control field.
type Directive struct {
	Name, Arg string
	HasArg    bool
}

// Parse splits all Cache-Control lines into directives, honouring quoted strings.
func Parse(lines []string) (ds []Directive) {
	for _, l := range lines {
		var cur strings.Builder
		quoted := false
		flush := func() {
			s := strings.TrimSpace(cur.String())
			cur.Reset()
			if s == "" {
				return
			}
			d := Directive{}
			if i := strings.IndexByte(s, '='); i >= 0 {
				d.Name, d.Arg, d.HasArg = s[:i], s[i+1:], true
			} else {
				d.Name = s
			}
			d.Name = strings.ToLower(strings.TrimSpace(d.Name))
			d.Arg = strings.TrimSpace(d.Arg)
			ds = append(ds, d)
		}
		for i := 0; i < len(l); i++ {
			switch {
			case l[i] == '"':
				quoted = !quoted
				cur.WriteByte(l[i])
			case l[i] == ',' && !quoted:
				flush()
			default:
				cur.WriteByte(l[i])
			}
		}
		flush()
	}
	return
}

// Delta parses delta-seconds.
func Delta(s string) (time.Duration, bool) {
	s = strings.Trim(s, `"'`)
	if s == "" {
		return 0, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || n > math.MaxInt32 {
		return math.MaxInt32 * time.Second, true
	}
	return time.Duration(n) * time.Second, true
}

// HTTPDate parses the three date formats.
func HTTPDate(s string) (time.Time, bool) {
	t, err := http.ParseTime(s)
	return t, err == nil
}

func has(ds []Directive, names ...string) bool {
	for _, d := range ds {
		for _, n := range names {
			if d.Name == n {
				return true
			}
		}
	}
	return false
}

func values(ds []Directive, name string) (vs []time.Duration, seen bool) {
	for _, d := range ds {
		if d.Name == name {
			seen = true
			if v, ok := Delta(d.Arg); ok && d.HasArg {
				vs = append(vs, v)
			}
		}
	}
	return
}

func maxOf(vs []time.Duration) time.Duration {
	m := vs[0]
	for _, v := range vs {
		if v > m {
			m = v
		}
	}
	return m
}

func minOf(vs []time.Duration) time.Duration {
	m := vs[0]
	for _, v := range vs {
		if v < m {
			m = v
		}
	}
	return m
}

// Stored describes a stored response.
type Stored struct {
	Status   int
	Header   http.Header // as the origin sent it (cache control after operator defaults)
	Received time.Time   // when it was received or last validated
	ReqHdr   http.Header // request that fetched it
}

// Lifetime returns the largest and smallest acceptable freshness lifetime (ok=false: none computable).
func Lifetime(h http.Header, received time.Time) (hi, lo time.Duration, ok bool) {
	ds := Parse(h.Values("Cache-Control"))
	s, sseen := values(ds, "s-maxage")
	m, mseen := values(ds, "max-age")
	bad := false // something present but unusable: an implementation may treat the response as stale
	if sseen && countOf(ds, "s-maxage") != len(s) || mseen && countOf(ds, "max-age") != len(m) {
		bad = true
	}
	switch {
	case len(s) > 0:
		hi, lo, ok = maxOf(s), minOf(s), true
	case len(m) > 0:
		hi, lo, ok = maxOf(m), minOf(m), true
	default:
		e, eok := HTTPDate(h.Get("Expires"))
		d, dok := HTTPDate(h.Get("Date"))
		if len(h.Values("Expires")) > 1 || len(h.Values("Date")) > 1 {
			bad = true
		}
		switch {
		case eok && dok:
			hi = e.Sub(d)
			lo, ok = hi, true
		case eok: // the time of receipt may stand in for a missing or unusable Date
			hi, lo, ok = e.Sub(received), math.MinInt64, true
			if hi < 0 {
				hi = -1
			}
		case len(h.Values("Expires")) > 0: // unusable: already expired
			hi, lo, ok = -1, math.MinInt64, true
		}
	}
	if bad {
		lo = math.MinInt64
	}
	return
}

func countOf(ds []Directive, name string) (n int) {
	for _, d := range ds {
		if d.Name == name {
			n++
		}
	}
	return
}

// Age is the current age of a stored response at now.
func (s *Stored) Age(now time.Time) time.Duration {
	var apparent, value time.Duration
	if d, ok := HTTPDate(s.Header.Get("Date")); ok {
		if a := s.Received.Sub(d); a > 0 {
			apparent = a
		}
	}
	if v, ok := Delta(s.Header.Get("Age")); ok {
		value = v
	}
	if value > apparent {
		apparent = value
	}
	return apparent + now.Sub(s.Received)
}

// Request directives of a client request.
type Request struct {
	NoCache, NoStore            bool
	MaxAge, MinFresh, MaxStale  time.Duration // most permissive reading; -1: absent or unusable
	MaxAgeLo, MinFreshHi        time.Duration // most restrictive reading
	Special                     bool          // carries anything beyond what the reference handles strictly
	hasMaxAge, hasMinFresh, odd bool
}

// ParseRequest reads the directives of a client request.
func ParseRequest(h http.Header) (r Request) {
	lines := h.Values("Cache-Control")
	ds := Parse(lines)
	r.MaxAge, r.MinFresh, r.MaxStale, r.MaxAgeLo, r.MinFreshHi = -1, -1, -1, -1, -1
	if len(lines) == 0 || strings.Join(lines, "") == "" {
		r.NoCache = has(Parse(h.Values("Pragma")), "no-cache")
		return
	}
	r.NoCache = has(ds, "no-cache")
	r.NoStore = has(ds, "no-store")
	if v, seen := values(ds, "max-age"); seen {
		if len(v) > 0 {
			r.MaxAge, r.MaxAgeLo = maxOf(v), minOf(v)
		}
		if countOf(ds, "max-age") != len(v) {
			r.odd = true
			r.MaxAge = -1 // an unusable limit may be ignored
		}
	}
	if v, seen := values(ds, "min-fresh"); seen {
		if len(v) > 0 {
			r.MinFresh, r.MinFreshHi = minOf(v), maxOf(v)
		}
		if countOf(ds, "min-fresh") != len(v) {
			r.odd = true
			r.MinFresh = -1
		}
	}
	for _, d := range ds {
		if d.Name == "max-stale" {
			v, ok := Delta(d.Arg)
			if !d.HasArg || d.Arg == "" {
				r.MaxStale = inf
			} else if ok && v > r.MaxStale {
				r.MaxStale = v
			}
		}
	}
	return
}

// MayServe reports whether serving s to a request at now without validation is allowed. slack is
// how much the implementation may misjudge an age (granularity of its clock).
func (s *Stored) MayServe(req http.Header, now time.Time, slack time.Duration) (bool, string) {
	age := s.Age(now)
	ok, why := s.mayServe(req, age)
	if !ok && slack > 0 {
		if ok, w := s.mayServe(req, age-slack); ok {
			return ok, w
		}
	}
	return ok, why
}

func (s *Stored) mayServe(req http.Header, age time.Duration) (bool, string) {
	r := ParseRequest(req)
	ds := Parse(s.Header.Values("Cache-Control"))
	if has(ds, "no-cache") {
		return false, "response no-cache"
	}
	if r.NoCache {
		return false, "request no-cache"
	}
	if r.MaxAge >= 0 && age > r.MaxAge {
		return false, "request max-age exceeded"
	}
	hi, _, ok := Lifetime(s.Header, s.Received)
	if !ok {
		return false, "no freshness lifetime"
	}
	if age > hi {
		if has(ds, "must-revalidate", "proxy-revalidate") {
			return false, "stale and must-revalidate"
		}
		if r.MaxStale < 0 || age-hi > r.MaxStale {
			return false, "stale"
		}
		return true, "stale but allowed by max-stale"
	}
	if r.MinFresh >= 0 && hi-age < r.MinFresh {
		return false, "min-fresh not met"
	}
	return true, "fresh"
}

// MustServe reports whether s is due to be served from the store to a plain request at now.
func (s *Stored) MustServe(req http.Header, now time.Time, slack time.Duration) bool {
	r := ParseRequest(req)
	ds := Parse(s.Header.Values("Cache-Control"))
	if has(ds, "no-cache") || r.NoCache || r.odd {
		return false
	}
	age := s.Age(now) + slack
	if r.MaxAgeLo >= 0 && age > r.MaxAgeLo {
		return false
	}
	_, lo, ok := Lifetime(s.Header, s.Received)
	if !ok || age >= lo {
		return false
	}
	if r.MinFreshHi >= 0 && lo-age < r.MinFreshHi {
		return false
	}
	return true
}

// Storable status codes (RFC 9110 heuristically cacheable ones the system documents, see cacheable.go).
var statuses = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 308: true, 404: true, 405: true, 410: true, 414: true, 451: true, 501: true}

// MayStore reports whether a response may be kept (strict mode).
func MayStore(method string, req http.Header, status int, h http.Header) (bool, string) {
	if method != "GET" {
		return false, "method"
	}
	if has(Parse(req.Values("Cache-Control")), "no-store") {
		return false, "request no-store"
	}
	ds := Parse(h.Values("Cache-Control"))
	if has(ds, "no-store", "private") {
		return false, "response no-store/private"
	}
	if !statuses[status] {
		return false, "status"
	}
	if has(ds, "no-cache") {
		return true, ""
	}
	if _, s := values(ds, "s-maxage"); s {
		return true, ""
	}
	if _, s := values(ds, "max-age"); s {
		return true, ""
	}
	if h.Get("Date") != "" && h.Get("Expires") != "" {
		return true, "" // an unusable Expires means already expired: kept, but always validated
	}
	return false, "no freshness data"
}
