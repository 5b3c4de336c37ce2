// C17: failed exchanges with an origin are reported and never cached.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/e2e"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

const s = time.Second

// Fail is a way an exchange can fail.
type Fail struct {
	Name  string        `json:"name"`
	Raw   []byte        `json:"raw"`
	Reset bool          `json:"reset"`
	Down  bool          `json:"down"`
	Pause time.Duration `json:"-"`
	Stall bool          `json:"stall,omitempty"` // neither answers nor closes
}

type rep struct {
	Strict bool   `json:"strict"`
	Steps  string `json:"steps"` // see run
	F      []Fail `json:"f"`
}

const body = "the body of the failing answer"

func gz(t string) string {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	_, _ = w.Write([]byte(t))
	_ = w.Close()
	return b.String()
}

func hdr(lines ...string) string {
	return "HTTP/1.1 200 OK\r\nDate: " + world.Date(world.Now()) + "\r\nCache-Control: max-age=1000\r\n" + strings.Join(lines, "\r\n") + "\r\n\r\n"
}

// whole answers that are cut at every byte, from the first on and up to the last that is not complete.
func wholes() (out []struct {
	name, raw string
	upto      int
	resetUpto int
}) {
	add := func(name, raw string, upto, resetUpto int) {
		out = append(out, struct {
			name, raw string
			upto      int
			resetUpto int
		}{name, raw, upto, resetUpto})
	}
	r := hdr("Content-Length: 30", "Etag: \"f\"") + body
	add("content-length", r, len(r), len(r))
	h := hdr("Transfer-Encoding: chunked", "Etag: \"f\"")
	r = h + "a\r\n" + body[:10] + "\r\n14;ext=1\r\n" + body[10:] + "\r\n0\r\n\r\n"
	add("chunked", r, len(r)-2, len(r)-2)
	h = hdr("Connection: close", "Etag: \"f\"")
	r = h + body
	add("until close", r, len(h), len(r)) // complete when closed after the header, failed when reset
	r = "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n" + hdr("Content-Length: 30") + body
	add("early hints", r, len(r), len(r))
	z := gz(strings.Repeat(body, 20))
	r = hdr("Content-Encoding: gzip", fmt.Sprintf("Content-Length: %d", len(z))) + z
	add("gzip", r, len(r), len(r))
	big := strings.Repeat(body, 3000)
	r = hdr(fmt.Sprintf("Content-Length: %d", len(big))) + big
	add("big", r, len(r), len(r))
	return
}

// failures lists the ways to fail; few limits cuts to a representative set.
func failures(few bool) (out []Fail) {
	add := func(name, raw string, reset bool) {
		out = append(out, Fail{Name: name, Raw: []byte(raw), Reset: reset})
	}
	out = append(out, Fail{Name: "refused", Down: true})
	for _, w := range wholes() {
		h := strings.LastIndex(w.raw[:min(len(w.raw), 400)], "\r\n\r\n") + 4
		for cut := 0; cut < len(w.raw); cut++ {
			if w.name == "big" && cut > h && cut%4096 != 0 && cut != len(w.raw)-1 {
				continue
			}
			if few && !(cut == 0 || cut == 7 || cut == h-4 || cut == h-2 || cut == h || cut == h+7 || cut == len(w.raw)-1 || cut == w.upto-1) {
				continue
			}
			if few && w.name != "content-length" && w.name != "chunked" && cut < h {
				continue
			}
			if cut < w.upto {
				add(fmt.Sprint(w.name, " cut at ", cut, " of ", len(w.raw)), w.raw[:cut], false)
			}
			if cut < w.resetUpto && (!few || cut == h+7 || cut == 0) {
				add(fmt.Sprint(w.name, " reset at ", cut, " of ", len(w.raw)), w.raw[:cut], true)
			}
		}
	}
	// garbled answers
	for _, g := range []string{
		"garbage", "garbage\r\n\r\n", "\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200\r\nContent-Length: x\r\n\r\n" + body,
		"HTTP/1.1 2x0 OK\r\nContent-Length: 30\r\n\r\n" + body, "HTTP/1.1 20 OK\r\nContent-Length: 30\r\n\r\n" + body,
		"HTTP/x.y 200 OK\r\nContent-Length: 30\r\n\r\n" + body, "HTTP 200 OK\r\nContent-Length: 30\r\n\r\n" + body,
		hdr("no colon here", "Content-Length: 30") + body,
		hdr("Content-Length: -1") + body, hdr("Content-Length: 31") + body, hdr("Content-Length: 30", "Content-Length: 29") + body,
		hdr("Content-Length: 99999999999999999999") + body, hdr("Content-Length: 1000000000000") + body,
		hdr("Transfer-Encoding: gzip") + body, hdr("Transfer-Encoding: chunked, chunked") + body,
		hdr("Transfer-Encoding: chunked") + body, hdr("Transfer-Encoding: chunked") + "zz\r\n" + body,
		hdr("Transfer-Encoding: chunked") + "1e\r\n" + body + "xx0\r\n\r\n",
		hdr("Transfer-Encoding: chunked") + "ffffffffffffffffff\r\n" + body,
		hdr("Transfer-Encoding: chunked") + "-1\r\n" + body, hdr("Transfer-Encoding: chunked") + "5\r\n" + body + "\r\n0\r\n\r\n",
		hdr("Content-Encoding: gzip", "Content-Length: 30") + body,
		hdr("Content-Encoding: gzip", fmt.Sprintf("Content-Length: %d", len(gz(body))-4)) + gz(body)[:len(gz(body))-4],
		hdr("Content-Encoding: gzip", fmt.Sprintf("Content-Length: %d", len(gz(body))-12)) + gz(body)[:len(gz(body))-12],
		"HTTP/1.1 103 Early Hints\r\n\r\ngarbage\r\n\r\n",
		strings.Repeat("HTTP/1.1 103 Early Hints\r\n\r\n", 40),
	} {
		n := g
		if i := strings.Index(g, "max-age=1000\r\n"); i > 0 {
			n = g[i+14:]
		}
		if len(n) > 60 {
			n = n[:60]
		}
		add("garbled: "+n, g, false)
	}
	return
}

type sys struct {
	px    *e2e.Proxy
	o     *e2e.Origin
	mu    sync.Mutex
	ver   map[string]int
	fail  *Fail
	age   bool // answers are stale already
	gate  chan struct{}
	count map[string]int
	down  bool
}

var all = map[bool]*sys{}

func open(strict bool) *sys {
	if x := all[strict]; x != nil {
		return x
	}
	x := &sys{o: e2e.NewOrigin("o")}
	x.o.Keep = false
	x.px = e2e.New(&cache.HttpCacheConfig{Strict: strict, DefaultTTL: "100h"}, e2e.Memory(), e2e.Up{Path: "/", Addr: "http://" + x.o.Addr})
	x.o.Set(func(q *e2e.Req) e2e.Script {
		x.mu.Lock()
		defer x.mu.Unlock()
		x.count[q.Target]++
		if x.fail != nil && q.Target == "/x" {
			f := x.fail
			if f.Stall {
				return e2e.Script{Raw: string(f.Raw), Gate: nil, Pause: f.Pause, Close: true}
			}
			return e2e.Script{Raw: string(f.Raw), Close: true, Reset: f.Reset, Gate: x.gate}
		}
		v := x.ver[q.Target]
		et := fmt.Sprintf("Etag: \"%d\"", v)
		hs := []string{"Date: " + world.Date(world.Now()), "Cache-Control: max-age=1000", et}
		if x.age {
			hs = append(hs, "Age: 2000")
		}
		if q.Method == "GET" && q.Header.Get("If-None-Match") == fmt.Sprintf("\"%d\"", v) {
			return e2e.Script{Raw: "HTTP/1.1 304 Not Modified\r\n" + strings.Join(hs, "\r\n") + "\r\n\r\n"}
		}
		b := fmt.Sprintf("%s version %d", q.Target, v)
		if q.Method == "HEAD" {
			return e2e.Script{Raw: strings.TrimSuffix(e2e.Reply(200, b, hs...), b)}
		}
		return e2e.Script{Raw: e2e.Reply(200, b, hs...)}
	})
	all[strict] = x
	return x
}

func (x *sys) setDown(d bool) {
	if d == x.down {
		return
	}
	x.down = d
	if d {
		x.o.Down()
	} else {
		x.o.Up()
	}
}

// run executes a history. Steps:
//
//	g GET /x     y GET /y     c content of /x changes     n GET /x no-cache   s GET /x, answered already stale
//	capitals fail with F[i] (next of the list): G GET, N GET no-cache, H HEAD, P POST, A three concurrent GETs,
//	R GET with Range, D GET by a client that goes away while the origin stalls
func run(p *lib.Part, r rep) (what string) {
	vsched.SetOffline(0)
	x := open(r.Strict)
	x.setDown(false)
	x.mu.Lock()
	x.ver, x.count, x.fail, x.age, x.gate = map[string]int{}, map[string]int{}, nil, false, nil
	x.mu.Unlock()
	if err := x.px.Provider.Flush(context.Background()); err != nil {
		return err.Error()
	}
	defer x.setDown(false)
	type ent struct {
		v     int
		stale bool
	}
	store := map[string]*ent{}
	size := func() int { return len(x.px.Provider.Keys(context.Background(), "")) }
	fi := 0
	for i, st := range r.Steps {
		p.Ops++
		bad := func(f string, a ...any) string {
			return fmt.Sprintf("step %d (%c) of %s: ", i+1, st, r.Steps) + fmt.Sprintf(f, a...)
		}
		if st == 'c' {
			x.mu.Lock()
			x.ver["/x"]++
			x.mu.Unlock()
			continue
		}
		u, method, lines, bd := "/x", "GET", []string{}, ""
		var f *Fail
		if st >= 'A' && st <= 'Z' {
			f = &r.F[fi%len(r.F)]
			fi++
		}
		switch st {
		case 'y':
			u = "/y"
		case 'n', 'N':
			lines = append(lines, "Cache-Control: no-cache")
		case 'H':
			method = "HEAD"
		case 'P':
			method, bd = "POST", "data"
		case 'R':
			lines = append(lines, "Range: bytes=0-3")
		}
		x.mu.Lock()
		x.fail, x.age = f, st == 's'
		if f != nil && st == 'A' && !f.Down {
			x.gate = make(chan struct{})
		} else {
			x.gate = nil
		}
		before := x.count[u]
		x.mu.Unlock()
		if f != nil && f.Down {
			x.setDown(true)
		}
		keys := size()
		e := store[u]
		hit := e != nil && (method == "GET" || method == "HEAD") && st != 'R' && (!r.Strict || !e.stale && st != 'n' && st != 'N')
		raw := e2e.Raw(method, u, "client", bd, lines...)
		var res []*e2e.Resp
		if st == 'A' {
			ch := make(chan *e2e.Resp, 3)
			for k := 0; k < 3; k++ {
				go func() { ch <- x.px.Alone(raw) }()
				if k == 0 && !f.Down && !hit { // the others arrive while the first is in flight
					for w := 0; w < 1000; w++ {
						x.mu.Lock()
						n := x.count[u]
						x.mu.Unlock()
						if n > before {
							break
						}
						time.Sleep(time.Millisecond)
					}
				}
			}
			if x.gate != nil {
				time.Sleep(2 * time.Millisecond)
				close(x.gate)
			}
			for k := 0; k < 3; k++ {
				res = append(res, <-ch)
			}
		} else {
			res = append(res, x.px.Do(raw))
		}
		if f != nil && f.Down {
			x.setDown(false)
		}
		x.mu.Lock()
		asked := x.count[u] > before
		v := x.ver[u]
		x.fail = nil
		x.mu.Unlock()
		for _, q := range res {
			if hit {
				if want := fmt.Sprintf("%s version %d", u, e.v); asked || q.Err != nil || q.Status != 200 || method == "GET" && (string(q.Body) != want || q.Aborted != nil) {
					return bad("stored version %d must be served without asking the origin (asked: %v), got %v", e.v, asked, q)
				}
				continue
			}
			if f != nil {
				if method == "HEAD" && f.Raw != nil && headComplete(f) {
					continue // the header is all there is to it
				}
				if st == 'R' && strings.Contains(f.Name, "Content-Encoding: gzip") {
					continue // the proxy has not asked for compression and passes it on
				}
				if q.Err == nil && q.Aborted == nil && q.Status < 500 {
					return bad("the origin failed (%s), the client got a complete answer: %v", f.Name, q)
				}
				continue
			}
			want := fmt.Sprintf("%s version %d", u, v)
			if q.Err != nil || q.Aborted != nil || q.Status != 200 || method == "GET" && string(q.Body) != want {
				return bad("the origin works and has version %d, the client got %v", v, q)
			}
			if !asked {
				return bad("answered without asking the origin: %v", q)
			}
		}
		if hit {
			continue
		}
		if f != nil {
			if n := size(); n > keys {
				return bad("the failed exchange (%s) left an entry: %v", f.Name, x.px.Provider.Keys(context.Background(), ""))
			}
			if size() < keys { // an entry may be dropped by HEAD or a stale one in whatever way
				if e != nil && !e.stale && method != "HEAD" && !(method == "POST" && r.Strict && headComplete(f)) { // a write whose status arrived invalidates
					return bad("the failed exchange (%s) removed a fresh entry", f.Name)
				}
				delete(store, u)
			}
			continue
		}
		if st == 'R' || method == "POST" || method == "HEAD" {
			delete(store, u)
			continue
		}
		store[u] = &ent{v, st == 's'}
	}
	return ""
}

// headComplete tells whether the header block of a failing answer arrived in whole: HEAD needs no more.
func headComplete(f *Fail) bool {
	r := string(f.Raw)
	for strings.HasPrefix(r, "HTTP/1.1 103") {
		i := strings.Index(r, "\r\n\r\n")
		if i < 0 {
			return false
		}
		r = r[i+4:]
	}
	return strings.HasPrefix(r, "HTTP/1.1 ") && strings.Contains(r, "\r\n\r\n")
}

// stall: the origin sends some bytes and then nothing. The client waits for the gateway, or leaves.
func stall(strict bool, raw string, leave bool) (what string) {
	o := e2e.NewOrigin("o")
	defer o.Down()
	px := e2e.New(&cache.HttpCacheConfig{Strict: strict, DefaultTTL: "100h"}, e2e.Memory(), e2e.Up{Path: "/", Addr: "http://" + o.Addr})
	defer px.Close()
	ok := func(u, b string) e2e.Script {
		return e2e.Script{Raw: e2e.Reply(200, b+u, "Date: "+world.Date(world.Now()), "Cache-Control: max-age=1000")}
	}
	o.Set(func(q *e2e.Req) e2e.Script { return ok(q.Target, "old ") })
	if r := px.Do(e2e.Raw("GET", "/y", "c", "")); r.Status != 200 {
		return fmt.Sprint("before: ", r)
	}
	o.Set(func(q *e2e.Req) e2e.Script {
		if q.Target == "/x" {
			return e2e.Script{Raw: raw, Pause: 0, Gate: nil, Close: false}
		}
		return ok(q.Target, "new ")
	})
	// part of the answer, then silence: the origin keeps the connection open and waits for the next request.
	n := 2
	ch := make(chan *e2e.Resp, n)
	for i := 0; i < n; i++ {
		go func() {
			if leave {
				px.Leave(e2e.Raw("GET", "/x", "c", ""), 60*time.Millisecond)
				ch <- nil
			} else {
				ch <- px.Alone(e2e.Raw("GET", "/x", "c", ""))
			}
		}()
		time.Sleep(20 * time.Millisecond)
	}
	if r := px.Do(e2e.Raw("GET", "/y", "c", "")); r.Status != 200 || string(r.Body) != "old /y" {
		return fmt.Sprint("a stored entry while another request stalls: ", r)
	}
	for i := 0; i < n; i++ {
		if r := <-ch; r != nil && r.Err == nil && r.Aborted == nil && r.Status < 500 {
			return fmt.Sprint("the origin stalled, the client got a complete answer: ", r)
		}
	}
	o.Set(func(q *e2e.Req) e2e.Script { return ok(q.Target, "new ") })
	for i := 0; i < 2; i++ {
		r := px.AloneFor(e2e.Raw("GET", "/x", "c", ""), 10*time.Second)
		if r.Err != nil || r.Aborted != nil || r.Status != 200 || string(r.Body) != "new /x" {
			return fmt.Sprintf("request %d to the recovered origin: %v", i+1, r)
		}
	}
	return ""
}

func main() {
	lib.Alphabet = "answers framed by length, chunks, connection close, gzip and after early hints, cut or reset at every byte; 28 garbled answers; refused connections; stalls; as plain, no-cache, HEAD, POST, Range and concurrent requests, with and without stored fresh or stale entries, and followed by requests to the recovered origin"
	lib.Assumptions = []string{"real sockets on loopback, virtual clock for ages", "an answer framed by the end of the connection is complete when the connection is closed orderly", "a HEAD answer is complete with its header", "concurrent requests arrive within 2 ms or are independent"}
	lib.Main("C17", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		stalls := []string{"", "HTTP/1.1 200 OK\r\nContent-Le", hdr("Content-Length: 30"), hdr("Content-Length: 30") + body[:9], hdr("Transfer-Encoding: chunked") + "a\r\n" + body[:10], hdr("Transfer-Encoding: chunked") + "a\r\n" + body[:10] + "\r\n"}
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				var w string
				if strings.HasPrefix(r.Steps, "stall") {
					w = stall(r.Strict, string(r.F[0].Raw), r.F[0].Stall)
				} else {
					w = run(p, r)
				}
				if w != "" {
					p.Fail("replay", w, r)
				}
			}
			return
		}
		cnt := 0
		try := func(group string, r rep) bool {
			cnt++
			if cnt%c.Of != c.Shard {
				return true
			}
			if c.Expired(p, group) {
				return false
			}
			w := run(p, r)
			p.Traces++
			p.Scenarios[group]++
			var names []string
			for _, f := range r.F {
				names = append(names, f.Name)
			}
			p.State(r.Strict, r.Steps, fmt.Sprint(names))
			if w == "" {
				return true
			}
			for k := 0; k < 5; k++ {
				if run(p, r) == "" {
					p.Unconf = append(p.Unconf, w)
					return true
				}
			}
			p.Fail(fmt.Sprintf("strict=%v %s %v", r.Strict, r.Steps, names), w, r)
			return len(p.Viols) < 3
		}
		// real time-outs, beside everything else
		var wg sync.WaitGroup
		var mu sync.Mutex
		si := 0
		for _, strict := range []bool{true, false} {
			for _, leave := range []bool{true, false} {
				for _, raw := range stalls {
					si++
					if si%c.Of != c.Shard {
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						w := stall(strict, raw, leave)
						for k := 0; k < 2 && w != "" && leave; k++ {
							w = stall(strict, raw, leave)
						}
						mu.Lock()
						defer mu.Unlock()
						p.Traces++
						p.Scenarios["stalls"]++
						if w != "" {
							p.Fail(fmt.Sprintf("stall strict=%v leave=%v %q", strict, leave, raw), w, rep{Strict: strict, Steps: "stall", F: []Fail{{Raw: []byte(raw), Stall: leave}}})
						}
					}()
				}
			}
		}
		defer wg.Wait()
		vsched.SetOffline(0)
		few, many := failures(true), failures(false)
		lib.Bounds["failures"] = len(many)
		lib.Bounds["failures in longer histories"] = len(few)
		try2 := func(g string, r rep) bool {
			for _, strict := range []bool{true, false} {
				r.Strict = strict
				if !try(g, r) {
					return false
				}
			}
			return true
		}
		for _, f := range many {
			for _, steps := range []string{"Ggg", "ygNgyNg", "scGgg", "HPRgg", "A" + "gg", "gA" + "nNAg"} {
				if len(f.Raw) > 2000 && strings.Contains(steps, "A") && !c.Thorough {
					continue
				}
				if !try2("every failure: "+steps, rep{Steps: steps, F: []Fail{f}}) {
					return
				}
			}
		}
		// every pair of failures in a row
		for _, f := range few {
			for _, f2 := range few {
				for _, steps := range []string{"GGgg", "sGcGg", "gNNg"} {
					if !try2("pairs of failures", rep{Steps: steps, F: []Fail{f, f2}}) {
						return
					}
				}
			}
		}
		// every short history
		depth := 3
		if c.Thorough {
			depth = 5
		}
		lib.Bounds["depth"] = depth
		fs := []Fail{}
		for _, f := range few {
			if strings.HasPrefix(f.Name, "content-length cut") || f.Down || strings.HasPrefix(f.Name, "chunked cut") {
				fs = append(fs, f)
			}
		}
		var rec func(h string) bool
		rec = func(h string) bool {
			if len(h) > 1 && strings.ToLower(h) != h {
				for i, f := range fs {
					if len(h) > 3 && i%5 != 0 {
						continue
					}
					if !try2(fmt.Sprint("histories of length ", len(h)), rep{Steps: h + "g", F: []Fail{f, few[(i*7+3)%len(few)]}}) {
						return false
					}
				}
			}
			if len(h) == depth {
				return true
			}
			for _, a := range "gycnsGNHPRA" {
				if !rec(h + string(a)) {
					return false
				}
			}
			return true
		}
		rec("")
	})
}
