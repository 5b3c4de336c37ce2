// Package hmodel is the reference model of the caching proxy: it follows one history of client
// requests, origin answers and time, and judges every observed answer. Findings carry the property
// they belong to; each check reports its own.
package hmodel

import (
	"bufio"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"kverif/rfc"
	"kverif/world"
)

// Policy is the operator's configuration as the model understands it.
type Policy struct {
	Strict         bool
	DefaultCC      string
	ForceCC        bool
	Marker         string // header name; "" = marking disabled
	TTL            func(path string) time.Duration
	ExcludedPath   func(path string) bool
	ExcludedHeader func(h http.Header) bool
	ExcludedType   func(ctype string, length int64) bool
}

// Q is a client request.
type Q struct {
	Method string
	Res    string // identity of the resource
	Path   string // path as operator rules see it
	Header http.Header
}

// R is the origin's scripted answer to the request if it is asked.
type R struct {
	Raw   string
	Fail  bool // transport error
	Abort bool // body breaks off
}

// Kept is the one response that may be served for a resource.
type Kept struct {
	rfc.Stored
	Body    string
	Expires time.Time // end of its TTL
	Certain bool      // it is due to be there
	Loose   map[string]bool
	Gen     int // revalidations
}

// V is a finding.
type V struct{ Prop, What string }

// Model follows one cache.
type Model struct {
	Pol   Policy
	Kept  map[string]*Kept
	Slack time.Duration
	out   []V
	// dropped tells which further property forbids that anything is kept.
	dropped map[string]string
}

func New(p Policy) *Model {
	return &Model{Pol: p, Kept: map[string]*Kept{}, dropped: map[string]string{}}
}

// fail records a finding; prop lists the properties it breaks.
func (m *Model) fail(prop, f string, a ...any) {
	for _, p := range strings.Split(prop, ",") {
		m.out = append(m.out, V{p, fmt.Sprintf(f, a...)})
	}
}

// drop: nothing may be kept for the resource, by the rule of the given property.
func (m *Model) drop(res, prop string) {
	delete(m.Kept, res)
	m.dropped[res] = prop
}

var conditional = []string{"If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range", "Range", "Authorization"}

// Bypass reports whether the request must not be answered from shared storage.
func (m *Model) Bypass(q Q) bool {
	if q.Method != "GET" && q.Method != "HEAD" {
		return true
	}
	for _, h := range conditional {
		if _, ok := q.Header[h]; ok {
			return true
		}
	}
	return m.Pol.ExcludedPath != nil && m.Pol.ExcludedPath(q.Path) || m.Pol.ExcludedHeader != nil && m.Pol.ExcludedHeader(q.Header)
}

// Variant returns the request header values selected by Vary.
func Variant(req, res http.Header) (string, bool) {
	var names []string
	for _, l := range res.Values("Vary") {
		for _, n := range strings.Split(l, ",") {
			n = strings.TrimSpace(n)
			if n == "*" {
				return "", false
			}
			if n != "" {
				names = append(names, http.CanonicalHeaderKey(n))
			}
		}
	}
	sort.Strings(names)
	s := ""
	for _, n := range names {
		s += fmt.Sprintf("%s=%q;", n, req[n])
	}
	return s, true
}

var hop = map[string]bool{"Connection": true, "Keep-Alive": true, "Te": true, "Trailer": true, "Transfer-Encoding": true, "Upgrade": true, "Proxy-Authenticate": true, "Proxy-Connection": true, "Date": false}

// bypassProp names the properties by which the request bypasses the cache.
func (m *Model) bypassProp(q Q) string {
	plain := *m
	plain.Pol.ExcludedPath, plain.Pol.ExcludedHeader = nil, nil
	if plain.Bypass(q) {
		return "C04"
	}
	return "C04,C08" // by the operator's configuration
}

// diff compares end-to-end headers; ignore lists names not compared.
func diff(want, got http.Header, ignore map[string]bool) string {
	for k, v := range want {
		if hop[k] || ignore[k] || len(v) == 0 || k == "Cache-Control" && strings.Join(v, "") == "" {
			continue
		}
		if fmt.Sprint(got[k]) != fmt.Sprint(v) || len(got[k]) != len(v) {
			return fmt.Sprintf("header %s is %q, should be %q", k, got[k], v)
		}
	}
	for k, v := range got {
		if hop[k] || ignore[k] || k == "Content-Length" || k == "Cache-Control" && strings.Join(v, "") == "" {
			continue
		}
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected header %s: %q", k, v)
		}
	}
	return ""
}

func clone(h http.Header) http.Header { return h.Clone() }

// Parsed is an origin answer as a message.
type Parsed struct {
	Status int
	Header http.Header
	Body   string
	Length int64
}

var parsed = map[string]Parsed{}

// Parse reads a raw response.
func Parse(raw, method string) Parsed {
	if len(raw) > 4096 {
		return parse(raw, method)
	}
	k := raw
	if method == "HEAD" {
		k = "HEAD " + raw
	}
	p, ok := parsed[k]
	if !ok {
		p = parse(raw, method)
		if len(parsed) < 20000 {
			parsed[k] = p
		}
	}
	return p
}

func parse(raw, method string) Parsed {
	res, err := http.ReadResponse(bufio.NewReader(strings.NewReader(raw)), &http.Request{Method: method})
	if err != nil {
		panic(fmt.Sprintf("hmodel: bad scripted reply %q: %v", raw, err))
	}
	b, _ := io.ReadAll(res.Body)
	return Parsed{res.StatusCode, res.Header, string(b), res.ContentLength}
}

func (m *Model) operatorCC(h http.Header) {
	if _, ok := h["Cache-Control"]; !ok || m.Pol.ForceCC {
		h["Cache-Control"] = []string{m.Pol.DefaultCC}
	}
}

func (m *Model) excludedType(h http.Header, n int64) bool {
	return m.Pol.ExcludedType != nil && m.Pol.ExcludedType(h.Get("Content-Type"), n)
}

func (m *Model) live(k *Kept, now time.Time) bool { return k != nil && !now.After(k.Expires) }

// Due reports whether q must be answered from the store now.
func (m *Model) Due(q Q, now time.Time) bool {
	k := m.Kept[q.Res]
	if m.Bypass(q) || k == nil || !k.Certain || !now.Before(k.Expires) {
		return false
	}
	if !m.Pol.Strict {
		return true
	}
	v, ok := Variant(q.Header, k.Header)
	w, _ := Variant(k.ReqHdr, k.Header)
	if !ok || v != w {
		return false
	}
	return k.MustServe(q.Header, now, m.Slack)
}

// Step judges the answer to one request and follows it. r is what the origin answers if asked.
func (m *Model) Step(q Q, r R, res *world.Result, now time.Time) []V {
	m.out = nil
	k := m.Kept[q.Res]
	if !m.live(k, now) && k != nil {
		if len(res.Calls) == 0 {
			m.fail("C08", "served from the store after its TTL ended (%v over)", now.Sub(k.Expires))
		}
		k = nil
		delete(m.Kept, q.Res)
	}
	bypass := m.Bypass(q)
	switch {
	case len(res.Calls) > 1:
		m.fail("C07", "origin asked %d times for one request", len(res.Calls))
	case len(res.Calls) == 0:
		m.hit(q, k, bypass, res, now)
		return m.out
	}
	call := res.Calls[0]
	if m.Due(q, now) {
		age := k.Age(now)
		m.fail("C07", "origin asked although the stored response is usable (age %v, cache-control %q, ttl left %v)", age, k.Header["Cache-Control"], k.Expires.Sub(now))
	}
	if call.Method != q.Method {
		m.fail("C04", "method became %q", call.Method)
	}
	if bypass {
		if h := m.changed(q, call, nil); h != "" {
			m.fail(m.bypassProp(q), "header %s of a bypassing request became %q", h, call.Header[h])
		}
		m.pass(q, r, res, m.bypassProp(q))
		m.written(q, r)
		return m.out
	}
	// A request the cache handled.
	sentINM, sentIMS := call.Header.Get("If-None-Match"), call.Header.Get("If-Modified-Since")
	validating := sentINM != "" || sentIMS != ""
	if k == nil && validating {
		m.fail("C03", "conditional request sent although nothing is being validated (If-None-Match %q, If-Modified-Since %q)", sentINM, sentIMS)
	}
	if h := m.changed(q, call, map[string]bool{"If-None-Match": true, "If-Modified-Since": true, "Last-Modified": true}); h != "" {
		m.fail("C03,C04", "header %s of the request became %q", h, call.Header[h])
	}
	if k != nil && m.Pol.Strict {
		v, ok := Variant(q.Header, k.Header)
		w, _ := Variant(k.ReqHdr, k.Header)
		same := !ok || v == w
		if !same && validating {
			m.fail("C25", "validators of another variant were sent")
		}
		if same && !k.Loose["Etag"] && k.Certain && now.Before(k.Expires) {
			if et := k.Header.Get("Etag"); et != sentINM {
				m.fail("C03", "validation sent If-None-Match %q, stored etag is %q", sentINM, et)
			}
			if lm := k.Header.Get("Last-Modified"); lm != sentIMS {
				m.fail("C03", "validation sent If-Modified-Since %q, stored Last-Modified is %q", sentIMS, lm)
			}
		}
		if !same {
			// the other variant is replaced by whatever comes now
			k = nil
		}
	}
	if r.Fail {
		if res.Err == nil {
			m.fail("C03,C17,C01", "origin request failed but the client got %v", res)
		}
		if k != nil {
			k.Certain = false
		}
		return m.out
	}
	p := Parse(r.Raw, q.Method)
	if p.Status == 304 && k != nil {
		m.validated(q, k, p, res, now, validating)
		return m.out
	}
	m.pass(q, r, res, "C03")
	if r.Abort {
		if k != nil {
			k.Certain = false
		}
		return m.out
	}
	h := clone(p.Header)
	m.operatorCC(h)
	may := q.Method == "GET"
	if m.Pol.Strict && may {
		may, _ = rfc.MayStore(q.Method, q.Header, p.Status, h)
	}
	why := ""
	if may && m.excludedType(h, p.Length) {
		may, why = false, "C08"
	}
	if !may {
		m.drop(q.Res, why)
		return m.out
	}
	m.Kept[q.Res] = &Kept{Stored: rfc.Stored{Status: p.Status, Header: h, Received: now, ReqHdr: clone(q.Header)}, Body: p.Body,
		Expires: now.Add(m.Pol.TTL(q.Path)), Certain: true}
	return m.out
}

// written: a successful request with an unsafe method makes what is stored for its resource unusable.
func (m *Model) written(q Q, r R) {
	if !m.Pol.Strict || r.Fail {
		return
	}
	if p := Parse(r.Raw, q.Method); p.Status < 200 || p.Status > 399 {
		return
	}
	switch q.Method {
	case "GET", "HEAD", "OPTIONS", "TRACE":
	case "POST", "PUT", "PATCH", "DELETE":
		m.drop(q.Res, "C29")
	default: // whether it is safe is not known
		if k := m.Kept[q.Res]; k != nil {
			k.Certain = false
		}
	}
}

// pass: the origin's answer has to reach the client unchanged (apart from the operator's cache control).
func (m *Model) pass(q Q, r R, res *world.Result, prop string) {
	if r.Fail {
		if res.Err == nil {
			m.fail(prop, "origin request failed but the client got %v", res)
		}
		return
	}
	if res.Err != nil {
		m.fail(prop, "client got error %v instead of the origin's answer", res.Err)
		return
	}
	if r.Abort {
		if res.BodyErr == nil {
			m.fail("C17", "truncated body presented as complete: %q", res.Body)
		}
		return
	}
	p := Parse(r.Raw, q.Method)
	if res.BodyErr != nil {
		m.fail(prop, "reading the body failed: %v", res.BodyErr)
		return
	}
	h := clone(p.Header)
	if !strings.HasPrefix(prop, "C04") {
		m.operatorCC(h)
	}
	if res.Status != p.Status || string(res.Body) != p.Body {
		m.fail(prop, "origin answered %d %q, client got %d %q", p.Status, p.Body, res.Status, res.Body)
	}
	ign := map[string]bool{}
	if d := diff(h, res.Header, ign); d != "" {
		if m.Pol.Marker != "" && strings.Contains(d, "header "+m.Pol.Marker) || strings.Contains(d, "header Cache-Control") {
			prop = "C08"
		}
		m.fail(prop, "answer of the origin changed: %s", d)
	}
}

func (m *Model) hit(q Q, k *Kept, bypass bool, res *world.Result, now time.Time) {
	if res.Err != nil {
		m.fail("C03", "client got error %v without the origin being asked", res.Err)
		return
	}
	if bypass {
		m.fail(m.bypassProp(q), "bypassing request answered from the store: %d %q", res.Status, res.Body)
		return
	}
	if k == nil {
		if len(m.out) == 0 {
			prop := "C02"
			if d := m.dropped[q.Res]; d != "" {
				prop += "," + d
			}
			m.fail(prop, "answered from the store although nothing may be kept: %d %q", res.Status, res.Body)
		}
		return
	}
	if m.Pol.Strict {
		v, ok := Variant(q.Header, k.Header)
		w, _ := Variant(k.ReqHdr, k.Header)
		if !ok {
			m.fail("C25", "response with Vary: * served without validation")
		} else if v != w {
			m.fail("C25", "response selected for %s served to %s", w, v)
		}
		if ok, why := k.MayServe(q.Header, now, m.Slack); !ok {
			m.fail("C01", "stored response served without validation: %s (age %v, response cache-control %q expires %q date %q age %q, request cache-control %q)",
				why, k.Age(now), k.Header["Cache-Control"], k.Header.Get("Expires"), k.Header.Get("Date"), k.Header.Get("Age"), q.Header["Cache-Control"])
		}
	}
	body := k.Body
	if q.Method == "HEAD" {
		body = ""
	}
	if res.BodyErr != nil {
		m.fail("C06", "reading a stored body failed: %v", res.BodyErr)
	}
	if res.Status != k.Status || string(res.Body) != body {
		m.fail("C06", "stored response was %d %q, client got %d %q", k.Status, k.Body, res.Status, res.Body)
	}
	ign := map[string]bool{"Age": true}
	for n := range k.Loose {
		ign[n] = true
	}
	m.marker(res, ign)
	if d := diff(k.Header, res.Header, ign); d != "" {
		p := "C06"
		if strings.Contains(d, "header Cache-Control") {
			p = "C08"
		}
		m.fail(p, "header of a stored response changed: %s", d)
	}
	if k.Gen == 0 || len(k.Loose) == 0 {
		a, err := strconv.Atoi(res.Header.Get("Age"))
		want := k.Age(now)
		got := time.Duration(a) * time.Second
		if err != nil || got < want-time.Second-m.Slack || got > want+time.Second+m.Slack {
			m.fail("C07", "Age is %q, should be %v", res.Header.Get("Age"), want)
		} else if m.Slack == 0 && got != want.Truncate(time.Second) {
			m.fail("C07", "Age is %q, should be %v", res.Header.Get("Age"), want)
		}
	}
}

// changed names a header of the request that the origin got differently, but for the marker and those in skip.
func (m *Model) changed(q Q, call *world.Call, skip map[string]bool) string {
	for _, hs := range []http.Header{q.Header, call.Header} {
		for h := range hs {
			if (m.Pol.Marker == "" || h != http.CanonicalHeaderKey(m.Pol.Marker)) && !skip[h] && fmt.Sprint(call.Header[h]) != fmt.Sprint(q.Header[h]) {
				return h
			}
		}
	}
	return ""
}

func (m *Model) marker(res *world.Result, ign map[string]bool) {
	if m.Pol.Marker == "" {
		return
	}
	if got := res.Header[m.Pol.Marker]; len(got) != 1 || got[0] != "HIT" {
		m.fail("C08", "response served from the cache carries marker %s=%q", m.Pol.Marker, got)
	}
	ign[m.Pol.Marker] = true
}

// validated: a 304 confirmed the stored response.
func (m *Model) validated(q Q, k *Kept, p Parsed, res *world.Result, now time.Time, validating bool) {
	if res.Err != nil {
		m.fail("C03", "validation succeeded but the client got error %v", res.Err)
		return
	}
	if !validating && res.Status == 304 {
		// nothing to validate with; passing the 304 on is right
		delete(m.Kept, q.Res)
		return
	}
	body := k.Body
	if q.Method == "HEAD" {
		body = ""
	}
	if res.BodyErr != nil || res.Status != k.Status || string(res.Body) != body {
		m.fail("C03", "validated response was %d %q, client got %d %q (%v)", k.Status, k.Body, res.Status, res.Body, res.BodyErr)
	}
	h := clone(k.Header)
	loose := map[string]bool{}
	for n := range k.Loose {
		loose[n] = true
	}
	h.Del("Age")
	for n, v := range p.Header {
		switch n {
		case "Content-Range": // says something about the content of the message it came with
		case "Etag", "Vary", "Content-Length", "Content-Encoding", "Content-Type":
			if fmt.Sprint(h[n]) != fmt.Sprint(v) {
				loose[n] = true
			}
		default:
			h[n] = v
		}
	}
	m.operatorCC(h)
	ign := map[string]bool{"Content-Length": true}
	for n := range loose {
		ign[n] = true
	}
	m.marker(res, ign)
	if d := diff(h, res.Header, ign); d != "" {
		pr := "C03"
		if strings.Contains(d, "header Cache-Control") && m.Pol.DefaultCC != "" {
			pr = "C08"
		}
		m.fail(pr, "validated response: %s", d)
	}
	re, ke := p.Header.Get("Etag"), k.Header.Get("Etag")
	certain := true
	switch {
	case re != "" && ke != "" && re != ke && !strings.HasPrefix(re, "W/") && !strings.HasPrefix(ke, "W/"):
		m.drop(q.Res, "C03") // strong mismatch
		return
	case re != ke && re != "":
		certain = false
	}
	if q.Method != "GET" {
		certain = false
	}
	if m.Pol.Strict {
		if ok, _ := rfc.MayStore("GET", q.Header, k.Status, h); !ok {
			m.drop(q.Res, "C03")
			return
		}
	}
	cl, err := strconv.ParseInt(h.Get("Content-Length"), 10, 64)
	if err != nil {
		cl = -1
	}
	if m.excludedType(h, cl) {
		m.drop(q.Res, "C08")
		return
	}
	if loose["Vary"] || loose["Content-Type"] {
		certain = false
	}
	m.Kept[q.Res] = &Kept{Stored: rfc.Stored{Status: k.Status, Header: h, Received: now, ReqHdr: clone(q.Header)}, Body: k.Body,
		Expires: now.Add(m.Pol.TTL(q.Path)), Certain: certain, Loose: loose, Gen: k.Gen + 1}
}

// Forget removes what is kept (purge, flush, invalidate).
func (m *Model) Forget(res string) { delete(m.Kept, res) }

// State describes the model state relative to now.
func (m *Model) State(now time.Time) string {
	var ks []string
	for r, k := range m.Kept {
		ks = append(ks, fmt.Sprintf("%s:%d,%s,%v,%v,%v,%v", r, k.Status, short(k.Body), k.Header, now.Sub(k.Received), k.Expires.Sub(now), k.Certain))
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

func short(b string) string {
	if len(b) > 64 {
		return fmt.Sprintf("%d/%s", len(b), b[:32])
	}
	return b
}
