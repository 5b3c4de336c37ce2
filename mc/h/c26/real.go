package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"kverif/lib"

	"github.com/alicebob/miniredis/v2"
)

// The real program: every kind of request is stopped at every step of its protocol, the signals are
// sent, and the requests go on.

// inst is one running program with its upstream.
type inst struct {
	dir    string
	ports  [2]int // listeners
	api    int
	cmd    *exec.Cmd
	out    bytes.Buffer
	done   chan error
	origin *http.Server
	mu     sync.Mutex
	ask    map[string]chan *up // by path
	hold   *hold
	seen   time.Time
}

// up is a request at the upstream.
type up struct {
	w    http.ResponseWriter
	r    *http.Request
	done chan struct{}
}

func (u *up) end() { close(u.done) }

func (u *up) flush() { u.w.(http.Flusher).Flush() }

func (in *inst) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	w.Header()["Date"] = []string{time.Now().UTC().Format(http.TimeFormat)}
	if strings.HasPrefix(r.URL.Path, "/plain") {
		w.Header().Set("Cache-Control", "no-store")
		_, _ = io.WriteString(w, "plain")
		return
	}
	u := &up{w, r, make(chan struct{})}
	select {
	case in.chanOf(r.URL.Path) <- u:
	case <-time.After(2 * time.Second):
		panic(http.ErrAbortHandler)
	}
	select {
	case <-u.done:
	case <-time.After(9 * time.Second):
	}
}

func (in *inst) chanOf(path string) chan *up {
	in.mu.Lock()
	defer in.mu.Unlock()
	if in.ask[path] == nil {
		in.ask[path] = make(chan *up, 8)
	}
	return in.ask[path]
}

// hold is a relay in front of the store which can keep its answers back.
type hold struct {
	mu   sync.Mutex
	cond *sync.Cond
	on   bool
	got  bool // something was asked while holding
	ln   net.Listener
}

func newHold(to string) *hold {
	h := &hold{}
	h.cond = sync.NewCond(&h.mu)
	var err error
	if h.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := h.ln.Accept()
			if err != nil {
				return
			}
			d, err := net.Dial("tcp", to)
			if err != nil {
				c.Close()
				continue
			}
			go func() { _, _ = io.Copy(c, d); c.Close() }()
			go func() {
				defer d.Close()
				b := make([]byte, 1<<16)
				for {
					n, err := c.Read(b)
					if err != nil {
						return
					}
					h.mu.Lock()
					for h.on {
						h.got = true
						h.cond.Wait()
					}
					h.mu.Unlock()
					if _, err := d.Write(b[:n]); err != nil {
						return
					}
				}
			}()
		}
	}()
	return h
}

func (h *hold) set(on bool) {
	h.mu.Lock()
	h.on, h.got = on, false
	h.mu.Unlock()
	h.cond.Broadcast()
}

func (h *hold) asked() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.got
}

// script is a request (or a few) carried out step by step.
type script struct {
	name string
	run  func(s *state)
	slow []int // positions which may cost the program its grace period
	// steps is the number of positions
	steps int
	store bool // needs the shared store
}

// state is a script in progress.
type state struct {
	in       *inst
	lis      int
	path     string
	stop     int // the position to pause at
	pos      int
	arrived  chan struct{}
	gone     chan struct{} // closed when the signals have taken effect
	inflight bool          // the program has the whole request header
	paused   bool
	must     bool // in flight when the signals were sent
	began    time.Time
	took     time.Duration
	err      string
	bad      string // inconclusive
}

// at is a position.
func (s *state) at() {
	if s.pos == s.stop {
		s.must = s.inflight
		s.paused = true
		close(s.arrived)
		<-s.gone
	}
	s.pos++
}

type giveUp struct{}

func (s *state) fail(f string, a ...any) {
	s.err = fmt.Sprintf(f, a...)
	panic(giveUp{})
}

func (s *state) unsure(f string, a ...any) {
	s.bad = fmt.Sprintf(f, a...)
	panic(giveUp{})
}

// lost: the connection failed; fine unless the request was in flight.
func (s *state) lost(f string, a ...any) {
	if !s.paused {
		s.unsure(f, a...)
	}
	if s.must {
		s.fail(f, a...)
	}
	panic(giveUp{})
}

type conn struct {
	net.Conn
	r *bufio.Reader
	s *state
	n *counter
}

type counter struct {
	io.Reader
	n int
}

func (c *counter) Read(b []byte) (int, error) {
	n, err := c.Reader.Read(b)
	c.n += n
	return n, err
}

func (s *state) dial() *conn {
	s.began = time.Now()
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.in.ports[s.lis]), time.Second)
	if err != nil {
		if s.paused {
			panic(giveUp{}) // refused
		}
		s.unsure("connect: %v", err)
	}
	_ = c.SetDeadline(time.Now().Add(9 * time.Second))
	k := &counter{Reader: c}
	return &conn{c, bufio.NewReader(k), s, k}
}

func (c *conn) send(t string) {
	if _, err := io.WriteString(c.Conn, t); err != nil {
		c.s.lost("sending the request: %v", err)
	}
}

// upstream waits for the request to arrive at the upstream.
func (s *state) upstream() *up {
	select {
	case u := <-s.in.chanOf(s.path):
		s.inflight = true
		return u
	case <-time.After(1500 * time.Millisecond):
		if !s.paused {
			s.unsure("the request did not arrive")
		}
		if s.must {
			s.fail("the request did not arrive at the upstream")
		}
		return nil
	}
}

// read takes the response and compares.
func (c *conn) read(method string, status int, body string, lines ...string) {
	s := c.s
	q, _ := http.NewRequest(method, "http://x/", nil)
	before := c.n.n - c.r.Buffered()
	res, err := http.ReadResponse(c.r, q)
	if err != nil {
		if c.n.n == before {
			s.lost("no response: %v", err)
		}
		s.fail("cut response: %v", err)
	}
	b, err := io.ReadAll(res.Body)
	s.took = time.Since(s.began)
	if err != nil {
		s.fail("response cut after %d bytes of its body: %v", len(b), err)
	}
	ok := res.StatusCode == status
	if status == 599 {
		ok = res.StatusCode >= 500
		body = string(b)
	}
	if !ok || string(b) != body {
		s.fail("response %d with a body of %d bytes (%.60q), expected %d with %d bytes", res.StatusCode, len(b), b, status, len(body))
	}
	for i := 0; i+1 < len(lines); i += 2 {
		if res.Header.Get(lines[i]) != lines[i+1] {
			s.fail("response with %s %q, expected %q", lines[i], res.Header.Get(lines[i]), lines[i+1])
		}
	}
}

// quick is a whole exchange beforehand.
func (s *state) before(w func(u *up), body string) {
	c := s.dial()
	defer c.Close()
	c.send("GET " + s.path + " HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n")
	u := s.upstream()
	w(u)
	u.end()
	c.read("GET", 200, body)
	s.inflight = false
}

func (s *state) get(extra string) string {
	return "GET " + s.path + " HTTP/1.1\r\nHost: h\r\n" + extra + "\r\n"
}

func noStore(u *up)   { u.w.Header().Set("Cache-Control", "no-store") }
func cacheable(u *up) { u.w.Header().Set("Cache-Control", "max-age=60") }

var (
	half = strings.Repeat("0123456789", 300)
	huge = strings.Repeat("x123456789abcde\n", 1<<17) // 2 MB
)

// answered: the upstream's ways to answer, with positions in between.
func answered(kind string) func(*state) {
	return func(s *state) {
		s.at()
		c := s.dial()
		defer c.Close()
		s.at()
		t := s.get("")
		if kind == "HTTP/1.0" {
			t = strings.Replace(t, "HTTP/1.1", "HTTP/1.0", 1)
		}
		c.send(t[:12])
		s.at()
		c.send(t[12:])
		u := s.upstream()
		s.at()
		if u == nil {
			c.read("GET", 200, half+half)
			return
		}
		if kind == "failing" || kind == "broken" {
			h, b, err := u.w.(http.Hijacker).Hijack()
			if err != nil {
				panic(err)
			}
			if kind == "broken" {
				_, _ = b.WriteString("HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n")
				b.Flush()
				s.at()
			}
			h.Close()
			u.end()
			defer s.others(func(v *up) { // it may be sent again
				if h, _, err := v.w.(http.Hijacker).Hijack(); err == nil {
					h.Close()
				}
			})()
			c.read("GET", 599, "")
			return
		}
		if kind == "until closed" {
			h, b, err := u.w.(http.Hijacker).Hijack()
			if err != nil {
				panic(err)
			}
			_, _ = b.WriteString("HTTP/1.1 200 OK\r\nCache-Control: no-store\r\nConnection: close\r\n\r\n" + half)
			b.Flush()
			s.at()
			_, _ = b.WriteString(half)
			b.Flush()
			s.at()
			h.Close()
			u.end()
			c.read("GET", 200, half+half)
			return
		}
		noStore(u)
		if kind == "cacheable" {
			cacheable(u)
		}
		if kind != "chunked" {
			u.w.Header().Set("Content-Length", fmt.Sprint(2*len(half)))
		}
		u.w.WriteHeader(200)
		u.flush()
		s.at()
		_, _ = io.WriteString(u.w, half)
		u.flush()
		s.at()
		_, _ = io.WriteString(u.w, half)
		u.end()
		c.read("GET", 200, half+half)
		s.at() // idle connection
		s.again(c)
	}
}

// others answers further requests for the same.
func (s *state) others(reply func(*up)) func() {
	quit := make(chan struct{})
	go func() {
		for {
			select {
			case v := <-s.in.chanOf(s.path):
				reply(v)
				v.end()
			case <-quit:
				return
			}
		}
	}()
	return func() { close(quit) }
}

// again uses a kept connection once more, for an upstream which answers by itself.
func (s *state) again(c *conn) {
	s.inflight, s.must = false, false
	if _, err := io.WriteString(c.Conn, "GET /plain HTTP/1.1\r\nHost: h\r\n\r\n"); err != nil {
		panic(giveUp{})
	}
	c.read("GET", 200, "plain")
}

var scripts = []script{
	{name: "miss", steps: 7, run: answered("length"), slow: []int{1, 2}},
	{name: "miss, stored", steps: 7, run: answered("cacheable"), slow: []int{1, 2}},
	{name: "chunked", steps: 7, run: answered("chunked"), slow: []int{1, 2}},
	{name: "until closed", steps: 6, run: answered("until closed"), slow: []int{1, 2}},
	{name: "HTTP/1.0", steps: 6, run: func(s *state) { answered("HTTP/1.0")(s) }, slow: []int{1, 2}},
	{name: "upstream fails", steps: 4, run: answered("failing"), slow: []int{1, 2}},
	{name: "upstream breaks", steps: 5, run: answered("broken"), slow: []int{1, 2}},
	{name: "POST", steps: 6, slow: []int{1}, run: func(s *state) {
		s.at()
		c := s.dial()
		defer c.Close()
		s.at()
		c.send(fmt.Sprintf("POST %s HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n", s.path, 2*len(half)))
		u := s.upstream()
		s.at()
		c.send(half)
		s.at()
		c.send(half)
		if u == nil {
			c.read("POST", 201, "made")
			return
		}
		if b, err := io.ReadAll(u.r.Body); err != nil || string(b) != half+half {
			s.fail("the upstream got %d bytes of the request's body: %v", len(b), err)
		}
		s.at()
		u.w.WriteHeader(201)
		u.flush()
		s.at()
		_, _ = io.WriteString(u.w, "made")
		u.end()
		c.read("POST", 201, "made")
	}},
	{name: "chunked PUT", steps: 5, run: func(s *state) {
		s.at()
		c := s.dial()
		defer c.Close()
		c.send(fmt.Sprintf("PUT %s HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n", s.path))
		u := s.upstream()
		s.at()
		c.send("5\r\nhello\r\n")
		s.at()
		c.send("6\r\n world\r\n0\r\n\r\n")
		if u == nil {
			c.read("PUT", 200, "")
			return
		}
		if b, err := io.ReadAll(u.r.Body); err != nil || string(b) != "hello world" {
			s.fail("the upstream got %q of the request's body: %v", b, err)
		}
		s.at()
		u.end()
		c.read("PUT", 200, "")
		s.at()
		s.again(c)
	}},
	{name: "HEAD", steps: 4, slow: []int{1}, run: func(s *state) {
		s.at()
		c := s.dial()
		defer c.Close()
		s.at()
		c.send("HEAD " + s.path + " HTTP/1.1\r\nHost: h\r\n\r\n")
		u := s.upstream()
		s.at()
		if u != nil {
			u.w.Header().Set("Content-Length", "77")
			u.w.WriteHeader(200)
			u.end()
		}
		c.read("HEAD", 200, "", "Content-Length", "77")
		s.at()
		s.again(c)
	}},
	{name: "hit", steps: 4, slow: []int{1, 2}, run: func(s *state) {
		s.before(func(u *up) { cacheable(u); _, _ = io.WriteString(u.w, half) }, half)
		s.at()
		c := s.dial()
		defer c.Close()
		s.at()
		t := s.get("")
		c.send(t[:len(t)-2])
		s.at()
		c.send("\r\n")
		if _, err := c.r.Peek(1); err == nil {
			s.inflight = true
		}
		s.at()
		c.read("GET", 200, half)
	}},
	{name: "big hit, slow client", steps: 4, run: func(s *state) {
		s.before(func(u *up) { cacheable(u); _, _ = io.WriteString(u.w, huge) }, huge)
		s.at()
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		if _, err := c.r.Peek(1); err != nil {
			s.lost("no response: %v", err)
		}
		s.inflight = true
		s.at()
		if _, err := c.r.Peek(4000); err != nil {
			s.fail("cut response: %v", err)
		}
		time.Sleep(50 * time.Millisecond)
		s.at()
		c.read("GET", 200, huge)
		s.at()
		s.again(c)
	}},
	{name: "big miss, slow client", steps: 3, run: func(s *state) {
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		noStore(u)
		_, _ = io.WriteString(u.w, huge[:len(huge)/2])
		u.flush()
		s.at()
		_, _ = io.WriteString(u.w, huge[len(huge)/2:])
		u.end()
		if _, err := c.r.Peek(1); err != nil {
			s.fail("no response: %v", err)
		}
		s.at()
		c.read("GET", 200, huge)
		s.at()
		s.again(c)
	}},
	{name: "revalidation", steps: 3, run: func(s *state) {
		s.before(func(u *up) {
			u.w.Header().Set("Cache-Control", "max-age=60, no-cache")
			u.w.Header().Set("Etag", `"1"`)
			_, _ = io.WriteString(u.w, half)
		}, half)
		s.at()
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		s.at()
		if u.r.Header.Get("If-None-Match") != `"1"` {
			s.unsure("no revalidation: %v", u.r.Header)
		}
		u.w.Header().Set("Etag", `"1"`)
		u.w.Header().Set("Cache-Control", "max-age=60")
		u.w.WriteHeader(304)
		u.end()
		c.read("GET", 200, half)
		s.at()
		s.again(c)
	}},
	{name: "coalesced", steps: 6, run: func(s *state) {
		s.at()
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		s.at()
		d := s.dial()
		defer d.Close()
		d.send(s.get(""))
		time.Sleep(40 * time.Millisecond) // nothing shows that it waits
		s.at()
		cacheable(u)
		u.w.WriteHeader(200)
		_, _ = io.WriteString(u.w, half)
		u.flush()
		s.at()
		_, _ = io.WriteString(u.w, half)
		u.end()
		d.read("GET", 200, half+half)
		s.at()
		c.read("GET", 200, half+half)
		s.at()
		s.again(c)
	}},
	{name: "coalesced, first client leaves", steps: 5, run: func(s *state) {
		s.at()
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		s.at()
		d := s.dial()
		defer d.Close()
		d.send(s.get(""))
		time.Sleep(40 * time.Millisecond)
		s.at()
		c.Close()
		time.Sleep(20 * time.Millisecond)
		if s.pos == s.stop {
			select { // the other request may have been sent again
			case v := <-s.in.chanOf(s.path):
				u.end()
				u = v
			case <-time.After(30 * time.Millisecond):
			}
		}
		s.at()
		reply := func(u *up) {
			cacheable(u)
			_, _ = io.WriteString(u.w, half)
		}
		reply(u)
		u.end()
		defer s.others(reply)()
		d.read("GET", 200, half)
		s.at()
		s.again(d)
	}},
	{name: "coalesced, upstream fails", steps: 3, run: func(s *state) {
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		d := s.dial()
		defer d.Close()
		d.send(s.get(""))
		time.Sleep(40 * time.Millisecond)
		s.at()
		reply := func(u *up) {
			if h, _, err := u.w.(http.Hijacker).Hijack(); err == nil {
				h.Close()
			}
		}
		reply(u)
		u.end()
		defer s.others(reply)()
		c.read("GET", 599, "")
		s.at()
		d.read("GET", 599, "")
		s.at()
		s.again(d)
	}},
	{name: "second request of a connection", steps: 4, run: func(s *state) {
		c := s.dial()
		defer c.Close()
		c.send("GET /plain HTTP/1.1\r\nHost: h\r\n\r\n")
		c.read("GET", 200, "plain")
		s.at()
		s.began = time.Now()
		if _, err := io.WriteString(c.Conn, s.get("")); err != nil {
			panic(giveUp{})
		}
		var u *up
		if s.paused { // the connection was idle and may be closed
			select {
			case u = <-s.in.chanOf(s.path):
			case <-time.After(100 * time.Millisecond):
				c.read("GET", 200, half)
				return
			}
		} else {
			u = s.upstream()
		}
		s.at()
		noStore(u)
		u.w.Header().Set("Content-Length", fmt.Sprint(len(half)))
		_, _ = io.WriteString(u.w, half[:10])
		u.flush()
		s.at()
		_, _ = io.WriteString(u.w, half[10:])
		u.end()
		c.read("GET", 200, half)
		s.at()
	}},
	{name: "client leaves", steps: 3, run: func(s *state) {
		c := s.dial()
		c.send(s.get(""))
		u := s.upstream()
		s.at()
		c.Close()
		time.Sleep(20 * time.Millisecond)
		s.at()
		u.end()
		time.Sleep(20 * time.Millisecond)
		s.at()
	}},
	{name: "upstream hangs", steps: 1, slow: []int{0}, run: func(s *state) {
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		s.at()
		_, _ = c.r.ReadByte() // whatever comes of it
		u.end()
	}},
	{name: "store pending", steps: 2, store: true, run: func(s *state) {
		s.before(func(u *up) { cacheable(u); _, _ = io.WriteString(u.w, half) }, half)
		s.in.hold.set(true)
		defer s.in.hold.set(false)
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		for i := 0; !s.in.hold.asked(); i++ {
			if i > 200 {
				s.unsure("the store is not asked")
			}
			time.Sleep(time.Millisecond)
		}
		s.inflight = true
		s.at()
		s.in.hold.set(false)
		c.read("GET", 200, half)
		s.at()
		s.again(c)
	}},
	{name: "store pending for the response", steps: 2, store: true, run: func(s *state) {
		c := s.dial()
		defer c.Close()
		c.send(s.get(""))
		u := s.upstream()
		s.in.hold.set(true)
		defer s.in.hold.set(false)
		cacheable(u)
		_, _ = io.WriteString(u.w, half)
		u.end()
		time.Sleep(30 * time.Millisecond)
		s.at()
		s.in.hold.set(false)
		c.read("GET", 200, half)
		s.at()
		s.again(c)
	}},
}

var signalSets = []struct {
	name string
	sigs []syscall.Signal
	gap  time.Duration
}{
	{"TERM", []syscall.Signal{syscall.SIGTERM}, 0},
	{"INT", []syscall.Signal{syscall.SIGINT}, 0},
	{"TERM TERM", []syscall.Signal{syscall.SIGTERM, syscall.SIGTERM}, 5 * time.Millisecond},
	{"TERM INT HUP", []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}, 3 * time.Millisecond},
	{"HUP TERM", []syscall.Signal{syscall.SIGHUP, syscall.SIGTERM}, 0},
	{"INT HUP INT", []syscall.Signal{syscall.SIGINT, syscall.SIGHUP, syscall.SIGINT}, 0},
}

// kase is a set of scripts paused at positions, and signals.
type kase struct {
	Real bool  `json:"real"`
	Scr  []int `json:"scripts"`
	Pos  []int `json:"positions"`
	Lis  []int `json:"listeners"`
	Sig  int   `json:"signals"`
}

func (k kase) String() string {
	var s []string
	for i, j := range k.Scr {
		s = append(s, fmt.Sprintf("%q at step %d on listener %d", scripts[j].name, k.Pos[i], k.Lis[i]))
	}
	if len(s) == 0 {
		s = []string{"no request"}
	}
	return strings.Join(s, ", ") + "; " + signalSets[k.Sig].name
}

var portBase, portNext int
var portMu sync.Mutex

func port() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		portNext++
		p := portBase + portNext%1999
		if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
			l.Close()
			return p
		}
	}
}

func startReal(store bool) *inst {
	in := &inst{ask: map[string]chan *up{}, ports: [2]int{port(), port()}, api: port(), done: make(chan error, 1)}
	in.dir, _ = os.MkdirTemp(dir, "real")
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	in.origin = &http.Server{Handler: in}
	go func() { _ = in.origin.Serve(ln) }()
	prov := "provider:\n  backend: inmemory\n  inmemory:\n    max_size: 100000000\n    max_item_size: 50000000\n"
	if store {
		in.hold = newHold(redis.Addr())
		prov = fmt.Sprintf("provider:\n  backend: redis\n  redis:\n    endpoint: %s\n    max_item_size: 50000000\n    max_queue_concurrency: 5\n    max_queue_buffer_size: 100\n", in.hold.ln.Addr())
	}
	conf := fmt.Sprintf("listeners:\n  a:\n    addr: 127.0.0.1:%d\n  b:\n    addr: 127.0.0.1:%d\nupstreams:\n- name: u\n  addr: http://%s\n  path: /\n%sapi:\n  port: %d\ncache:\n  strict: true\n", in.ports[0], in.ports[1], ln.Addr(), prov, in.api)
	f := filepath.Join(in.dir, "k.yml")
	_ = os.WriteFile(f, []byte(conf), 0o600)
	in.cmd = exec.Command(os.Getenv("KV_KACHE"), "-config.file", f)
	in.cmd.Dir = in.dir
	in.cmd.Env = append(os.Environ(), "HOME="+in.dir)
	in.cmd.Stdout, in.cmd.Stderr = &in.out, &in.out
	if err := in.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { in.done <- in.cmd.Wait() }()
	for i := 0; i < 2; {
		c := http.Client{Timeout: time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
		res, err := c.Get(fmt.Sprintf("http://127.0.0.1:%d/plain", in.ports[i]))
		if err == nil {
			b, _ := io.ReadAll(res.Body)
			res.Body.Close()
			if string(b) == "plain" {
				i++
				continue
			}
		}
		if in.seen.IsZero() {
			in.seen = time.Now()
		}
		select {
		case err := <-in.done: // a port is taken
			if os.Getenv("KV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "START", err, in.out.String())
			}
			in.end()
			return nil
		default:
		}
		if time.Since(in.seen) > 20*time.Second {
			in.end()
			return nil
		}
		time.Sleep(5 * time.Millisecond)
	}
	return in
}

func (in *inst) end() {
	_ = in.cmd.Process.Kill()
	_ = in.origin.Close()
	if in.hold != nil {
		in.hold.set(false)
		in.hold.ln.Close()
	}
	os.RemoveAll(in.dir)
}

// refused: no listener accepts connections.
func (in *inst) refused() bool {
	for _, p := range in.ports {
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), time.Second); err == nil {
			c.Close()
			return false
		}
	}
	return true
}

// runCase returns what failed and whether the run was conclusive.
func runCase(k kase) (fail string, sure bool) {
	store := false
	for _, s := range k.Scr {
		store = store || scripts[s].store
	}
	in := startReal(store)
	if in == nil {
		return "", false
	}
	defer in.end()
	gone := make(chan struct{})
	var sts []*state
	var wg sync.WaitGroup
	for i, n := range k.Scr {
		s := &state{in: in, lis: k.Lis[i], path: fmt.Sprintf("/s%d", i), stop: k.Pos[i], arrived: make(chan struct{}), gone: gone}
		sts = append(sts, s)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(giveUp); !ok {
						s.bad = fmt.Sprint(e)
					}
				}
				if !s.paused {
					s.bad += " (not reached)"
					close(s.arrived)
				}
			}()
			scripts[n].run(s)
		}()
		<-s.arrived // one after the other
	}
	for _, s := range sts {
		if s.bad != "" || time.Since(s.began) > 600*time.Millisecond && !s.began.IsZero() {
			close(gone)
			wg.Wait()
			return s.bad, false
		}
	}
	sent := time.Now()
	for i, g := range signalSets[k.Sig].sigs {
		if i > 0 {
			time.Sleep(signalSets[k.Sig].gap)
		}
		_ = in.cmd.Process.Signal(g)
	}
	accepting := true
	for time.Since(sent) < 300*time.Millisecond {
		if in.refused() {
			accepting = false
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	early := false // the program ended before the requests in flight did
	select {
	case err := <-in.done:
		in.done <- err
		early = true
	default:
	}
	close(gone)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(12 * time.Second):
		return "a request has no end", true
	}
	sure = true
	for _, s := range sts {
		if s.took > 900*time.Millisecond {
			sure = false // the listener's own time limit is near
		}
		if s.bad != "" {
			return s.bad, false
		}
	}
	// the grace period is 5 s
	limit := 7*time.Second - time.Since(sent)
	if accepting {
		for time.Since(sent) < 2*time.Second {
			if in.refused() {
				accepting = false
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	if accepting {
		return "still accepting connections 2 s after the signal", true
	}
	var err error
	select {
	case err = <-in.done:
	case <-time.After(limit):
		_ = in.cmd.Process.Signal(syscall.SIGQUIT)
		<-in.done
		return fmt.Sprintf("the program has not ended 7 s after the signal\n%.6000s", in.out.String()), true
	}
	for i, s := range sts {
		if s.err != "" {
			w := fmt.Sprintf("request %q: %s", scripts[k.Scr[i]].name, s.err)
			if early {
				w += " (the program ended meanwhile)"
			}
			return w, sure
		}
	}
	if err != nil {
		return fmt.Sprintf("the program ended with %v\n%.3000s", err, in.out.String()), true
	}
	return "", sure
}

var redis *miniredis.Miniredis

func cases(thorough bool) (out []kase) {
	for g := range signalSets {
		out = append(out, kase{Real: true, Sig: g})
	}
	for i, s := range scripts { // one request at every step
		for p := 0; p < s.steps; p++ {
			for g := range signalSets {
				if g > 1 && slices.Contains(s.slow, p) && !thorough {
					continue
				}
				out = append(out, kase{true, []int{i}, []int{p}, []int{g % 2}, g})
				if g == 0 {
					out = append(out, kase{true, []int{i}, []int{p}, []int{1}, g})
				}
			}
		}
	}
	type at struct{ s, p int }
	var ats []at
	for i, s := range scripts {
		for p := 0; p < s.steps; p++ {
			if !slices.Contains(s.slow, p) && !s.store {
				ats = append(ats, at{i, p})
			}
		}
	}
	for n, a := range ats { // two requests
		for m, b := range ats[n:] {
			for g := range signalSets {
				if g != (n+m)%2 && !thorough {
					continue
				}
				out = append(out, kase{true, []int{a.s, b.s}, []int{a.p, b.p}, []int{0, 1}, g})
			}
		}
	}
	if thorough {
		for n, a := range ats { // three requests
			for m, b := range ats[n:] {
				for o, c := range ats[n+m:] {
					if a.p > 0 && b.p > 0 && c.p > 0 {
						out = append(out, kase{true, []int{a.s, b.s, c.s}, []int{a.p, b.p, c.p}, []int{0, 1, o % 2}, (n + m + o) % 2})
					}
				}
			}
		}
	}
	return
}

func capped(p *lib.Part) bool {
	p.Cap("real program: 500 s")
	return true
}

func realPart(c *lib.Check, p *lib.Part) {
	var err error
	if redis, err = miniredis.Run(); err != nil {
		panic(err)
	}
	defer redis.Close()
	portBase = 10000 + c.Shard*2000
	if c.Shard < 0 || c.Shard > 12 {
		portBase = 30000
	}
	var todo []kase
	if c.Replay != nil {
		var k kase
		if json.Unmarshal(c.Replay, &k); !k.Real {
			return
		}
		todo = []kase{k}
	} else {
		for i, k := range cases(c.Thorough) {
			if i%c.Of == c.Shard {
				todo = append(todo, k)
			}
		}
	}
	lib.Doing("real program")
	began := time.Now()
	// the store is shared: those cases run alone
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next == len(todo) || c.Thorough && time.Since(began) > 500*time.Second && capped(p) || c.Expired(p, "real program") {
					mu.Unlock()
					return
				}
				k := todo[next]
				next++
				mu.Unlock()
				fail, runs, sureFails := "", 0, 0
				t0 := time.Now()
				for try := 0; try < 6 && sureFails < 3; try++ { // it must fail every time
					w, sure := runCase(k)
					runs++
					if !sure {
						fail = w
						if os.Getenv("KV_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, "TRY", k, w)
						}
						continue
					}
					if fail = w; w == "" {
						break
					}
					sureFails++
				}
				if d := time.Since(t0); d > 4*time.Second && os.Getenv("KV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SLOW", d, runs, k, fail)
				}
				mu.Lock()
				p.Traces++
				p.Ops += int64(len(k.Scr) + len(signalSets[k.Sig].sigs))
				p.Scenarios[fmt.Sprintf("real program, %d requests", len(k.Scr))]++
				if sureFails == 3 {
					p.Fail(fmt.Sprint("real:", k.Scr, k.Pos, k.Sig), "real program, "+k.String()+": "+fail, k)
				} else if fail != "" || sureFails > 0 {
					p.Extra["real: unsure"]++
					if os.Getenv("KV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "UNSURE", k, fail, runs, sureFails)
					}
				}
				if runs > 1 {
					p.Extra["real: repeated"] += int64(runs - 1)
				}
				p.State(k.Scr, k.Pos, k.Sig)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
