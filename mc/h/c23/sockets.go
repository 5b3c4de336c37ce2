package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/cluster"
	"kverif/lib"
)

// peers listen on every loopback address, on several ports.
type peers struct {
	mu    sync.Mutex
	ports []int
	got   []delivery
	play  func(d *delivery) string
}

type delivery struct {
	node, id, method, uri, host string
	h                           http.Header
	body                        string
	err                         error
}

func newPeers(n int) *peers {
	p := &peers{}
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "0.0.0.0:0")
		if err != nil {
			panic(err)
		}
		p.ports = append(p.ports, ln.Addr().(*net.TCPAddr).Port)
		go http.Serve(ln, p)
		if l6, err := net.Listen("tcp6", fmt.Sprintf("[::1]:%d", p.ports[i])); err == nil {
			go http.Serve(l6, p)
		}
	}
	return p
}

func (p *peers) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	d := delivery{r.Context().Value(http.LocalAddrContextKey).(net.Addr).String(), r.Header.Get("X-Id"), r.Method, r.URL.RequestURI(), r.Host, r.Header.Clone(), string(b), err}
	p.mu.Lock()
	o := "ok"
	if p.play != nil {
		o = p.play(&d)
	}
	p.got = append(p.got, d)
	p.mu.Unlock()
	switch o {
	case "ok":
		w.WriteHeader(200)
		_, _ = io.WriteString(w, "done")
	case "404":
		w.WriteHeader(404)
	case "500":
		w.WriteHeader(500)
		_, _ = io.WriteString(w, strings.Repeat("x", 5000))
	case "503 reset":
		w.Header().Set("Content-Length", "10000")
		w.WriteHeader(503)
		_, _ = io.WriteString(w, "x")
		panic(http.ErrAbortHandler)
	case "reset":
		if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
			_ = c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}
	case "close":
		panic(http.ErrAbortHandler)
	}
}

func (p *peers) take() []delivery {
	p.mu.Lock()
	defer p.mu.Unlock()
	g := p.got
	p.got = nil
	return g
}

func (p *peers) count(id string) (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, d := range p.got {
		if d.id == id {
			n++
		}
	}
	return
}

type sockRep struct {
	Sock     string   `json:"sock"`
	Topology []int    `json:"topology,omitempty"`
	Outcomes []string `json:"outcomes,omitempty"`
	Msg      int      `json:"msg"`
}

var portSets = [][]port{{{"api", 0}}, {{"http", 1}}, {{"http", 1}, {"api", 0}}, {{"api", 0}, {"http", 1}}, {}}
var addrSets = []int{0, 1, 2, 3} // none, one without target, one with, two

// makeSubset builds subset number k of the alphabet in position i (its addresses are distinct).
func makeSubset(p *peers, k, i int) (s subset, want []string) {
	notReady := k%2 == 1
	k /= 2
	ps, as := portSets[k%len(portSets)], addrSets[k/len(portSets)]
	api := 0
	for _, x := range ps {
		x.Port = p.ports[(x.Port+i)%len(p.ports)]
		if x.Name == "api" {
			api = x.Port
		}
		s.Ports = append(s.Ports, x)
	}
	ip := func(j int) string { return fmt.Sprintf("127.0.%d.%d", i+1, j) }
	switch as {
	case 1:
		s.Addresses = []addr{{IP: ip(1)}}
	case 2:
		s.Addresses = []addr{{IP: ip(2), TargetRef: &ref{"Pod", "p"}}}
	case 3:
		s.Addresses = []addr{{IP: ip(3), TargetRef: &ref{"Pod", "p"}}, {IP: ip(4)}}
	}
	if notReady {
		s.NotReady = []addr{{IP: ip(9)}}
	}
	if api != 0 {
		for _, a := range s.Addresses {
			want = append(want, fmt.Sprintf("%s:%d", a.IP, api))
		}
	}
	return
}

var replies = []struct {
	code int
	body string
}{{404, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`}, {500, "x"}, {200, "{"}, {200, "null"}, {200, "{}"}, {200, `{"subsets":[null]}`}, {200, `{"kind":"Endpoints","apiVersion":"v1","subsets":[{"addresses":[null],"ports":[null]}]}`}}

var sockMsgs = []message{
	{method: "PUT", path: "/api/cache/config/update", body: body, remote: "192.0.2.1:999"},
	{method: "DELETE", path: "/api/cache/invalidate", remote: "[2001:db8::1]:999"},
	{method: "PUT", path: "/other/cache/config/update", body: strings.Repeat("0123456789", 30000), remote: "bogus"},
	{method: "DELETE", path: "/x", body: "b", remote: ""},
}

var seqNo int

func sockets(c *lib.Check, p *lib.Part) {
	var r sockRep
	if c.Replay != nil {
		if _ = json.Unmarshal(c.Replay, &r); r.Sock == "" {
			return
		}
	}
	ps := newPeers(2)
	var conn cluster.Connection
	used := 0
	one := func(r sockRep) string {
		lib.Doing(fmt.Sprint("broadcast ", r))
		if used++; used%8 == 1 { // the API client lets ten calls through at once, then five a second
			if conn != nil {
				conn.Close()
			}
			var err error
			if conn, err = cluster.NewKubernetesClient("ns", "svc"); err != nil {
				panic(err)
			}
		}
		var ss []subset
		var want []string
		code, reply := 200, ""
		if r.Sock == "reply" {
			code, reply = replies[r.Topology[0]].code, replies[r.Topology[0]].body
		} else {
			for i, k := range r.Topology {
				s, w := makeSubset(ps, k, i)
				ss = append(ss, s)
				want = append(want, w...)
			}
			reply = endpoints(ss)
			if r.Sock == "v6" {
				s := subset{Addresses: []addr{{IP: "::1"}}, Ports: []port{{"api", ps.ports[0]}}}
				reply = endpoints([]subset{s})
				want = []string{fmt.Sprintf("[::1]:%d", ps.ports[0])}
			}
		}
		theKube.reply = func() (int, string) { return code, reply }
		m := sockMsgs[r.Msg]
		seqNo++
		m.id = fmt.Sprintf("s%d-%d", c.Shard, seqNo)
		m.header = http.Header{"X-Purge-Key": {"kache-http://o/a*"}, "X-Multi": {"a", "b"}}
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			conn.Broadcast(m.request(), "api", m.method, m.path)
		}()
		select {
		case e := <-done:
			if e != nil {
				return fmt.Sprint("panic: ", e)
			}
		case <-time.After(30 * time.Second):
			return "the broadcast does not end"
		}
		for i := 0; i < 3000 && ps.count(m.id) < len(want); i++ {
			time.Sleep(time.Millisecond * time.Duration(1+i/100))
		}
		var got []string
		for _, d := range ps.take() {
			if d.id != m.id {
				return fmt.Sprintf("unexpected late delivery of %s to %s", d.id, d.node)
			}
			got = append(got, d.node)
			if w := m.intact(d.method, d.uri, d.host, d.h, d.body); w != "" {
				return d.node + ": " + w
			}
			if d.err != nil {
				return fmt.Sprintf("%s: body: %v", d.node, d.err)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		p.Traces++
		p.Ops += int64(len(got)) + 1
		p.State("topology", fmt.Sprint(r.Topology), r.Msg, r.Sock)
		p.Outcome(fmt.Sprint("delivered ", len(got)))
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return fmt.Sprintf("endpoints %s: delivered to %v, ready are %v", reply, got, want)
		}
		return ""
	}
	again := false // something was tried again and may arrive late
	try := func(r sockRep) bool {
		w := one(r)
		for i := 0; i < 2 && w != ""; i++ {
			again = true
			time.Sleep(50 * time.Millisecond)
			ps.take()
			w = one(r)
		}
		if w != "" {
			p.Fail("sockets", w, r)
			return false
		}
		return true
	}
	if c.Replay != nil {
		if r.Sock == "outcomes" {
			if w := outcomes(p, ps, r, c.Shard); w != "" {
				p.Fail("sockets", w, r)
			}
		} else {
			try(r)
		}
		return
	}
	n := len(portSets) * len(addrSets) * 2
	idx := 0
	mine := func() bool { idx++; return idx%c.Of == c.Shard }
	ok := true
	for i := range replies {
		for m := range sockMsgs {
			if ok && mine() {
				ok = try(sockRep{"reply", []int{i}, nil, m})
			}
		}
	}
	for m := range sockMsgs {
		if ok && mine() {
			ok = try(sockRep{"v6", nil, nil, m})
		}
		if ok && mine() {
			ok = try(sockRep{"list", nil, nil, m})
		}
		for a := 0; a < n && ok; a++ {
			if mine() {
				ok = try(sockRep{"list", []int{a}, nil, m})
			}
		}
	}
	for a := 0; a < n && ok; a++ {
		for b := 0; b < n && ok; b++ {
			if mine() {
				ok = try(sockRep{"list", []int{a, b}, nil, (a + b) % len(sockMsgs)})
			}
			if c.Thorough && b%3 == 0 {
				for d := 0; d < n && ok; d += 3 {
					if mine() {
						ok = try(sockRep{"list", []int{a, b, d}, nil, d % len(sockMsgs)})
					}
				}
			}
			if c.Expired(p, "endpoint lists") {
				ok = false
			}
		}
	}
	// nothing arrives later
	time.Sleep(150 * time.Millisecond)
	if g := ps.take(); len(g) > 0 && !again {
		p.Fail("sockets late", fmt.Sprintf("unexpected late delivery of %s to %s", g[0].id, g[0].node), sockRep{Sock: "late"})
	}
	// outcome sequences over real connections
	os := []string{"ok", "404", "500", "503 reset", "reset", "close"}
	ok = true
	depth := 3
	if c.Thorough {
		depth = 5
	}
	var gen func(seq []string)
	gen = func(seq []string) {
		if !ok {
			return
		}
		if len(seq) == depth || len(seq) > 0 && seq[len(seq)-1] == "ok" {
			for m := range sockMsgs[:3] {
				if !mine() || c.Expired(p, "outcome sequences") {
					continue
				}
				r := sockRep{"outcomes", nil, append([]string{}, seq...), m}
				w := outcomes(p, ps, r, c.Shard)
				for i := 0; i < 2 && w != ""; i++ {
					w = outcomes(p, ps, r, c.Shard)
				}
				if w != "" {
					p.Fail("sockets", w, r)
					ok = false
				}
			}
			return
		}
		for _, o := range os {
			gen(append(seq, o))
		}
	}
	gen(nil)
	p.Scenarios["sockets"] += p.Traces
}

// outcomes: a queue with a short backoff; a real peer plays a sequence of outcomes.
func outcomes(p *lib.Part, ps *peers, r sockRep, shard int) string {
	lib.Doing(fmt.Sprint("outcomes ", r))
	ps.take()
	limit := len(r.Outcomes)
	q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: 3, MaxWorkers: 2, MaxRetries: limit, Backoff: 2 * time.Millisecond})
	m := sockMsgs[r.Msg]
	m.direct = true
	seqNo++
	m.id = fmt.Sprintf("o%d-%d", shard, seqNo)
	m.header = http.Header{"X-Multi": {"a", "b"}, "X-Kache-Cluster": {"Broadcast"}}
	k := 0
	id := m.id
	ps.mu.Lock()
	ps.play = func(d *delivery) string {
		if d.id != id || k >= len(r.Outcomes) {
			return "ok"
		}
		k++
		return r.Outcomes[k-1]
	}
	ps.mu.Unlock()
	req, _ := http.NewRequest(m.method, fmt.Sprintf("http://127.0.0.1:%d%s", ps.ports[0], m.path), strings.NewReader(m.body))
	req.Header = m.header.Clone()
	req.Header.Set("X-Id", id)
	q.Queue <- cluster.Message{Request: req}
	for i := 0; i < 2000 && ps.count(id) < limit; i++ {
		time.Sleep(time.Millisecond * time.Duration(1+i/100))
	}
	time.Sleep(8 * time.Millisecond)
	done := make(chan bool)
	go func() { q.Stop(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		return "stopping the queue does not end"
	}
	g := ps.take()
	p.Traces++
	p.Ops += int64(len(g))
	p.Outcome(fmt.Sprint("attempts ", len(g)))
	p.State("outcomes", strings.Join(r.Outcomes, " "), r.Msg)
	// a broken connection may be retried by net/http itself when it was reused: only count distinct needs
	if len(g) != limit {
		return fmt.Sprintf("outcomes %v: %d attempts, expected %d", r.Outcomes, len(g), limit)
	}
	for i, d := range g {
		if d.err != nil {
			return fmt.Sprintf("outcomes %v, attempt %d: body: %v", r.Outcomes, i+1, d.err)
		}
		if w := m.intact(d.method, d.uri, d.host, d.h, d.body); w != "" {
			return fmt.Sprintf("outcomes %v, attempt %d: %s", r.Outcomes, i+1, w)
		}
	}
	return ""
}
