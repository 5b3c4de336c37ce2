package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"

	"kverif/e2e"
	"kverif/lib"
	"kverif/world"
)

// nrep is a history between sockets, repeated.
type nrep struct {
	Steps []nstep `json:"steps"`
}

type nstep struct {
	Req  string `json:"req"`
	Ans  string `json:"ans"`
	Cli  string `json:"cli"`
	Twin bool   `json:"twin,omitempty"` // a second client asks at the same time
}

// srv is a raw origin that knows its connections.
type srv struct {
	ln    net.Listener
	mu    sync.Mutex
	conns map[net.Conn]bool
	ans   string
	hold  chan struct{}
}

func newSrv() *srv {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	o := &srv{ln: ln, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			o.mu.Lock()
			o.conns[c] = true
			o.mu.Unlock()
			go o.serve(c)
		}
	}()
	return o
}

func (o *srv) open() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return len(o.conns)
}

func (o *srv) set(a string) {
	o.mu.Lock()
	o.ans = a
	o.mu.Unlock()
}

var large = strings.Repeat("0123456789abcdef", 1<<17) // 2 MiB

func (o *srv) serve(c net.Conn) {
	defer func() {
		o.mu.Lock()
		delete(o.conns, c)
		o.mu.Unlock()
		c.Close()
	}()
	r := bufio.NewReader(c)
	for {
		q, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		_, _ = io.Copy(io.Discard, q.Body)
		o.mu.Lock()
		a := o.ans
		o.mu.Unlock()
		now := "Date: " + time.Now().UTC().Format(http.TimeFormat)
		out := ""
		switch a {
		case "fresh":
			out = world.Raw(200, text, now, "Cache-Control: max-age=100", `Etag: "a"`)
		case "no-store":
			out = world.Raw(200, text, now, "Cache-Control: no-store")
		case "chunked":
			out = world.Chunked(200, text, 7, now, "Cache-Control: max-age=100", `Etag: "a"`)
		case "chunked trailer":
			out = strings.TrimSuffix(world.Chunked(200, text, 7, now, "Cache-Control: no-store", "Trailer: X-T"), "\r\n") + "X-T: 1\r\n\r\n"
		case "large":
			out = world.Raw(200, large, now, "Cache-Control: max-age=100", `Etag: "a"`)
		case "large, no-store":
			out = world.Raw(200, large, now, "Cache-Control: no-store")
		case "304":
			out = world.Raw(304, "", now, "Cache-Control: max-age=100", `Etag: "a"`)
		case "304 mismatch":
			out = world.Raw(304, "", now, "Cache-Control: max-age=100", `Etag: "b"`)
		case "500":
			out = world.Raw(500, text, now)
		case "private":
			out = world.Raw(200, text, now, "Cache-Control: private")
		case "cut":
			out = world.Raw(200, text, now, "Cache-Control: max-age=100")
			_, _ = io.WriteString(c, out[:len(out)-5])
			return
		case "drop":
			return
		case "stall": // until the proxy gives up
			_ = c.SetReadDeadline(time.Now().Add(90 * time.Second))
			_, _ = r.Peek(1)
			return
		case "half, stall":
			out = world.Raw(200, large, now, "Cache-Control: max-age=100")
			_, _ = io.WriteString(c, out[:len(out)/2])
			_ = c.SetReadDeadline(time.Now().Add(90 * time.Second))
			_, _ = r.Peek(1)
			return
		}
		if q.Method == "HEAD" {
			out = out[:strings.Index(out, "\r\n\r\n")+4]
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

// busy counts goroutines inside the proxy.
func busy() (n int, where string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "kacheio/kache/pkg/server") || strings.Contains(g, "kacheio/kache/pkg/cache") {
			n++
			where = g
		}
	}
	return
}

var (
	theSrv *srv
	theNet *e2e.Proxy
	netN   int
)

// network plays the history several times on one proxy; then everything is released: nothing runs
// in the proxy and no more connections are open than the pool keeps.
func network(p *lib.Part, r nrep) string {
	if theSrv == nil {
		theSrv = newSrv()
		theNet = e2e.New(config(true), nil, e2e.Up{Path: "/", Addr: "http://" + theSrv.ln.Addr().String()})
	}
	for round := 0; round < 4; round++ {
		netN++
		for _, t := range r.Steps {
			p.Ops++
			theSrv.set(t.Ans)
			q := reqs[0]
			for _, k := range reqs {
				if k.name == t.Req {
					q = k
				}
			}
			m := q.method
			if m == "" {
				m = "GET"
			}
			hs := []string{"Connection: close"}
			for k, vv := range q.h {
				for _, v := range vv {
					hs = append(hs, k+": "+v)
				}
			}
			raw := e2e.Raw(m, fmt.Sprintf("%s/%d", q.path, netN), "c", q.body, hs...)
			one := func() {
				switch t.Cli {
				case "reads":
					theNet.AloneFor(raw, 5*time.Second)
				case "leaves":
					theNet.Leave(raw, 2*time.Millisecond)
				case "leaves at once":
					theNet.Leave(raw, 0)
				}
			}
			if t.Twin {
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); one() }()
				one()
				wg.Wait()
			} else {
				one()
			}
		}
	}
	for i := 0; ; i++ {
		n, where := busy()
		open := theSrv.open()
		if n == 0 && open <= 2 {
			return ""
		}
		if i > 400 { // 20 s
			if n > 0 {
				if j := strings.Index(where, "\n"); j > 0 && len(where) > 1500 {
					where = where[:1500]
				}
				return fmt.Sprintf("20 s after the last client has gone %d goroutines are still in the proxy, %d connections to the origin are open:\n%s", n, open, where)
			}
			return fmt.Sprintf("20 s after the last client has gone %d connections to the origin are open, the pool keeps 2", open)
		}
		if i < 20 {
			time.Sleep(500 * time.Microsecond)
		} else {
			time.Sleep(50 * time.Millisecond)
		}
	}
}

func nsteps() (out []nstep) {
	for _, q := range []string{"GET", "no-cache", "HEAD", "POST", "authorization", "excluded path"} {
		for _, a := range []string{"fresh", "no-store", "chunked", "chunked trailer", "large", "large, no-store", "304", "304 mismatch", "500", "private", "cut", "drop", "stall", "half, stall"} {
			for _, cl := range []string{"reads", "leaves", "leaves at once"} {
				for _, tw := range []bool{false, true} {
					if strings.Contains(a, "stall") && cl == "reads" || tw && q != "GET" && q != "no-cache" || (q == "authorization" || q == "POST") && cl == "leaves at once" {
						continue
					}
					out = append(out, nstep{q, a, cl, tw})
				}
			}
		}
	}
	return
}

func networks(c *lib.Check, p *lib.Part) {
	ns := nsteps()
	firsts := []nstep{{}, {Req: "GET", Ans: "fresh", Cli: "reads"}, {Req: "GET", Ans: "large", Cli: "reads"}}
	k := 0
	for _, f := range firsts {
		for _, t := range ns {
			if k++; k%c.Of != c.Shard {
				continue
			}
			if c.Expired(p, "sockets") {
				return
			}
			r := nrep{Steps: []nstep{t}}
			if f.Req != "" {
				r.Steps = []nstep{f, t}
			}
			lib.Doing(fmt.Sprintf("sockets %+v", r))
			w := network(p, r)
			p.Traces++
			p.Scenarios["sockets"]++
			if w != "" {
				again := func() string { theNet, theSrv = nil, nil; return network(p, r) }
				if p.Sure(2, w, again) {
					p.Fail(fmt.Sprintf("sockets %+v", r), w, rep{Store: "memory", Net: &r}, strings.Split(w, "\n")...)
					return
				}
			}
		}
	}
}
