// Package hseq runs histories of client requests against the caching transport stack (virtual time,
// scripted origin) and compares every step with the reference model.
package hseq

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"kverif/hmodel"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

// Step of a history.
type Step struct {
	Adv    time.Duration `json:"adv,omitempty"` // time passing before the step
	Op     string        `json:"op,omitempty"`  // "" request, purge, flush, config
	Arg    string        `json:"arg,omitempty"`
	Method string        `json:"method,omitempty"`
	URL    string        `json:"url,omitempty"`
	Res    string        `json:"res,omitempty"` // resource identity (default: URL)
	Header http.Header   `json:"header,omitempty"`
	Raw    string        `json:"raw,omitempty"` // origin's answer, $D date now, $E+n date in n s, $B body
	Fail   bool          `json:"fail,omitempty"`
	Abort  bool          `json:"abort,omitempty"`
	Body   string        `json:"body,omitempty"`
}

// Policy is a configuration with its meaning.
type Policy struct {
	Name  string
	Cfg   func() *cache.HttpCacheConfig
	Model hmodel.Policy
	Store func() provider.Provider
}

// Case is one history.
type Case struct {
	Policy string        `json:"policy"`
	Start  time.Duration `json:"start"`
	Slack  time.Duration `json:"slack,omitempty"`
	Steps  []Step        `json:"steps"`
}

// Runner explores cases and reports findings of one property.
type Runner struct {
	C        *lib.Check
	P        *lib.Part
	Policies map[string]*Policy
	Props    map[string]bool // properties whose findings are reported
	found    int
	n        int64
	Extra    func(w *World, st *Step, res *world.Result) []hmodel.V // additional judge per step
	// Blame: findings of these properties are reported too if the reference history, derived from
	// the case by leaving out what the property is about, shows no finding at all.
	Blame     map[string]bool
	Reference func(c *Case) *Case
	Stop      bool
}

// World is a stack under test with its model.
type World struct {
	Chain *world.Chain
	Model *hmodel.Model
	cur   *Step
	raw   string
	n     int
	// Pattern tells how every step was answered.
	Pattern []string
}

type brokenBody struct {
	r io.Reader
}

func (b *brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (b *brokenBody) Close() error { return nil }

// Expand substitutes dates and body marks in a scripted answer.
func Expand(raw string, now time.Duration, n int) string {
	for {
		i := strings.Index(raw, "$")
		if i < 0 {
			return raw
		}
		switch {
		case strings.HasPrefix(raw[i:], "$D"):
			j := i + 2
			off, k := num(raw[j:])
			raw = raw[:i] + world.Date(now+time.Duration(off)*time.Second) + raw[j+k:]
		case strings.HasPrefix(raw[i:], "$N"):
			raw = raw[:i] + fmt.Sprintf("%02d", n) + raw[i+2:]
		default:
			return raw
		}
	}
}

func num(s string) (v, k int) {
	if s == "" || s[0] != '+' && s[0] != '-' {
		return
	}
	k = 1
	for k < len(s) && s[k] >= '0' && s[k] <= '9' {
		v = v*10 + int(s[k]-'0')
		k++
	}
	if k == 1 {
		return 0, 0
	}
	if s[0] == '-' {
		v = -v
	}
	return
}

// Run executes one case on a fresh stack and returns the findings up to the first own one.
func (r *Runner) Run(c *Case) (vs []hmodel.V, trace []string, w *World) {
	lib.Case(func() string { b, _ := json.Marshal(c); return string(b) })
	defer lib.Idle()
	pol := r.Policies[c.Policy]
	vsched.SetOffline(c.Start)
	var pdr provider.Provider
	if pol.Store != nil {
		pdr = pol.Store()
	} else {
		pdr = world.NewProvider()
	}
	w = &World{Chain: world.NewChain(pol.Cfg(), pdr), Model: hmodel.New(pol.Model)}
	w.Model.Slack = c.Slack
	defer func() {
		if e := recover(); e != nil {
			s := string(debug.Stack())
			trace = append(trace, fmt.Sprint("panic: ", e))
			trace = append(trace, strings.Split(s, "\n")...)
			vs = append(vs, hmodel.V{Prop: "crash", What: fmt.Sprint("panic: ", e)})
		}
	}()
	w.Chain.Origin.Reply = func(call *world.Call) world.Reply {
		if w.cur.Fail {
			return world.Reply{Err: errors.New("connection refused")}
		}
		rp := world.Reply{Raw: w.raw}
		if w.cur.Abort {
			i := strings.Index(w.raw, "\r\n\r\n")
			body := w.raw[i+4:]
			rp.Body = &brokenBody{strings.NewReader(body[:len(body)/2])}
		}
		return rp
	}
	for i := range c.Steps {
		st := &c.Steps[i]
		vsched.Advance(st.Adv)
		now := world.Epoch.Add(world.Now())
		w.cur = st
		r.P.Ops++
		switch st.Op {
		case "purge":
			if err := pdr.Purge(context.Background(), st.Arg); err != nil {
				return []hmodel.V{{Prop: "C13", What: err.Error()}}, trace, w
			}
			for k := range w.Model.Kept {
				w.Model.Forget(k)
			}
			continue
		case "flush":
			_ = pdr.Flush(context.Background())
			for k := range w.Model.Kept {
				w.Model.Forget(k)
			}
			continue
		}
		w.n++
		w.raw = Expand(st.Raw, world.Now(), w.n)
		u, _ := url.Parse(st.URL)
		q := hmodel.Q{Method: st.Method, Res: st.Res, Path: u.Path, Header: st.Header}
		if q.Res == "" {
			q.Res = st.URL
		}
		if q.Method == "" {
			q.Method = "GET"
		}
		if q.Header == nil {
			q.Header = http.Header{}
		}
		res := w.Chain.Do(q.Method, st.URL, q.Header, st.Body)
		pat := "H"
		if len(res.Calls) > 0 {
			pat = "O"
			if res.Calls[0].Header.Get("If-None-Match")+res.Calls[0].Header.Get("If-Modified-Since") != "" {
				pat = "V"
			}
		}
		if res.Err != nil {
			pat += "err"
		} else {
			pat += strconv.Itoa(res.Status)
		}
		w.Pattern = append(w.Pattern, pat)
		src := "store"
		if len(res.Calls) > 0 {
			src = "origin <" + res.Calls[0].String() + "> -> " + w.raw
		}
		if r.tracing() {
			trace = append(trace, fmt.Sprintf("t=%v %s %s %s [%s] => %v", world.Now(), q.Method, st.URL, world.HeaderString(q.Header), src, res))
		}
		sv := w.Model.Step(q, hmodel.R{Raw: w.raw, Fail: st.Fail, Abort: st.Abort}, res, now)
		for _, call := range res.Calls {
			if want := u.RequestURI(); call.URI != want || call.Host != u.Host || string(call.Body) != st.Body {
				sv = append(sv, hmodel.V{Prop: "C04", What: fmt.Sprintf("origin was asked %s %s %q, client sent %s %s %q", call.Host, call.URI, call.Body, u.Host, want, st.Body)})
			}
		}
		if r.Extra != nil {
			sv = append(sv, r.Extra(w, st, res)...)
		}
		for j := range sv {
			sv[j].What = fmt.Sprintf("step %d: %s", i+1, sv[j].What)
		}
		// Findings of other properties do not end the history, they may have consequences for this one.
		vs = append(vs, sv...)
		if r.firstOwn(sv) != nil {
			break
		}
	}
	return vs, trace, w
}

var traceOn bool

func (r *Runner) tracing() bool { return traceOn }

// Mine tells whether the next case belongs to this shard.
func (r *Runner) Mine() bool {
	r.n++
	return int(r.n%int64(r.C.Of)) == r.C.Shard
}

func (r *Runner) first(vs []hmodel.V, c *Case) *hmodel.V {
	if f := r.firstOwn(vs); f != nil {
		return f
	}
	for i := range vs {
		if r.Blame[vs[i].Prop] && r.Reference != nil {
			ref := r.Reference(c)
			if ref == nil {
				return nil
			}
			on := traceOn
			traceOn = false
			rv, _, _ := r.Run(ref)
			traceOn = on
			if len(rv) == 0 {
				return &vs[i]
			}
			return nil
		}
	}
	return nil
}

func (r *Runner) firstOwn(vs []hmodel.V) *hmodel.V {
	for i := range vs {
		if r.Props[vs[i].Prop] || vs[i].Prop == "crash" {
			return &vs[i]
		}
	}
	return nil
}

// Do explores one case; it returns false when the exploration should end.
func (r *Runner) Do(group string, c *Case) bool {
	if r.Stop {
		return false
	}
	if r.n&255 == 0 && r.C.Expired(r.P, group) {
		r.Stop = true
		return false
	}
	vs, _, w := r.Run(c)
	r.P.Traces++
	r.P.Scenarios[group]++
	r.P.Outcome(strings.Join(w.Pattern, " "))
	r.P.State(c.Policy + "#" + w.Model.State(world.Epoch.Add(world.Now())))
	v := r.first(vs, c)
	if v == nil {
		return true
	}
	traceOn = true
	defer func() { traceOn = false }()
	var tr []string
	for k := 0; k < 5; k++ {
		var vv []hmodel.V
		vv, tr, _ = r.Run(c)
		if f := r.first(vv, c); f == nil {
			r.P.Unconf = append(r.P.Unconf, group+": "+v.What)
			return true
		}
	}
	b, _ := json.Marshal(c)
	r.P.Fail(group+": "+sig(c), v.What, json.RawMessage(b), tr...)
	r.found++
	if r.found >= 3 {
		r.Stop = true
	}
	return !r.Stop
}

func sig(c *Case) string {
	var s []string
	for _, st := range c.Steps {
		raw := strings.ReplaceAll(st.Raw, "\r\n", "; ")
		s = append(s, fmt.Sprintf("+%v %s%s %s %v -> %s", st.Adv, st.Op, st.Method, st.URL, st.Header, raw))
	}
	return c.Policy + ": " + strings.Join(s, " | ")
}

// ReplayIf replays an artefact when asked to and tells whether it did.
func (r *Runner) ReplayIf() bool {
	if r.C.Replay == nil {
		return false
	}
	var c Case
	if json.Unmarshal(r.C.Replay, &c) != nil || len(c.Steps) == 0 {
		return true
	}
	traceOn = true
	vs, tr, _ := r.Run(&c)
	if v := r.first(vs, &c); v != nil {
		r.P.Fail(sig(&c), v.What, r.C.Replay, tr...)
	}
	return true
}

// Props makes a property set.
func Props(ids ...string) map[string]bool {
	m := map[string]bool{}
	for _, i := range ids {
		m[i] = true
	}
	return m
}

// Strict is the standard strict configuration with long TTL.
func Strict(name string) *Policy {
	return &Policy{Name: name, Cfg: func() *cache.HttpCacheConfig {
		return &cache.HttpCacheConfig{Strict: true, DefaultTTL: "100000h"}
	}, Model: hmodel.Policy{Strict: true, TTL: func(string) time.Duration { return 100000 * time.Hour }}}
}

// All is the standard non-strict configuration.
func All(name string, ttl time.Duration) *Policy {
	return &Policy{Name: name, Cfg: func() *cache.HttpCacheConfig {
		return &cache.HttpCacheConfig{Strict: false, DefaultTTL: ttl.String()}
	}, Model: hmodel.Policy{Strict: false, TTL: func(string) time.Duration { return ttl }}}
}
