// Package e2e runs the complete proxy in this process between real sockets: raw scripted origins
// on loopback, the server's handler behind a net/http server, and a client that sends raw requests.
package e2e

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
)

// Req is a request as it arrived at an origin.
type Req struct {
	Method, Target string
	Lines          []string // header lines as sent
	Header         http.Header
	Body           []byte
	Err            error // reading the body failed
	Origin         *Origin
}

// Script is what the origin does with a request.
type Script struct {
	Raw   string        // bytes sent
	Pause time.Duration // before sending
	Gate  chan struct{} // wait for it before sending
	Close bool          // close afterwards
	Reset bool          // reset afterwards
}

// Origin is a scripted origin.
type Origin struct {
	Name   string
	Addr   string
	ln     net.Listener
	mu     sync.Mutex
	Handle func(*Req) Script
	reqs   []*Req
	conns  map[net.Conn]bool
	Keep   bool // remember requests
}

// NewOrigin starts an origin.
func NewOrigin(name string) *Origin {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	o := &Origin{Name: name, Addr: ln.Addr().String(), ln: ln, Keep: true, conns: map[net.Conn]bool{}}
	go o.serve(ln)
	return o
}

func (o *Origin) serve(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		o.mu.Lock()
		o.conns[c] = true
		o.mu.Unlock()
		go func() {
			o.conn(c)
			o.mu.Lock()
			delete(o.conns, c)
			o.mu.Unlock()
		}()
	}
}

// Down stops accepting and drops every connection; Up starts again on the same address.
func (o *Origin) Down() {
	o.ln.Close()
	o.mu.Lock()
	for c := range o.conns {
		c.Close()
	}
	o.mu.Unlock()
}

// Up undoes Down.
func (o *Origin) Up() {
	for i := 0; ; i++ {
		ln, err := net.Listen("tcp", o.Addr)
		if err == nil {
			o.ln = ln
			go o.serve(ln)
			return
		}
		if i > 100 {
			panic(err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func readLine(r *bufio.Reader) (string, error) {
	l, err := r.ReadString('\n')
	return strings.TrimRight(l, "\r\n"), err
}

func (o *Origin) conn(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		first, err := readLine(r)
		if err != nil {
			return
		}
		p := strings.SplitN(first, " ", 3)
		if len(p) < 3 {
			return
		}
		q := &Req{Method: p[0], Target: p[1], Header: http.Header{}, Origin: o}
		n, chunked := 0, false
		for {
			l, err := readLine(r)
			if err != nil {
				return
			}
			if l == "" {
				break
			}
			q.Lines = append(q.Lines, l)
			k, v, _ := strings.Cut(l, ":")
			v = strings.TrimSpace(v)
			q.Header.Add(k, v)
			switch strings.ToLower(k) {
			case "content-length":
				n, _ = strconv.Atoi(v)
			case "transfer-encoding":
				chunked = true
			}
		}
		if chunked {
			for {
				l, err := readLine(r)
				if err != nil {
					q.Err = err
					break
				}
				k, _ := strconv.ParseInt(strings.SplitN(l, ";", 2)[0], 16, 64)
				b := make([]byte, k)
				if _, err := io.ReadFull(r, b); err != nil {
					q.Err = err
					break
				}
				q.Body = append(q.Body, b...)
				if _, err := readLine(r); err != nil || k == 0 {
					break
				}
			}
		} else if n > 0 {
			q.Body = make([]byte, n)
			_, q.Err = io.ReadFull(r, q.Body)
		}
		o.mu.Lock()
		if o.Keep {
			o.reqs = append(o.reqs, q)
		}
		h := o.Handle
		o.mu.Unlock()
		s := h(q)
		if s.Gate != nil {
			<-s.Gate
		}
		if s.Pause > 0 {
			time.Sleep(s.Pause)
		}
		if _, err := io.WriteString(c, s.Raw); err != nil {
			return
		}
		if s.Reset {
			_ = c.(*net.TCPConn).SetLinger(0)
			return
		}
		if s.Close {
			return
		}
	}
}

// Take returns and forgets the requests that arrived.
func (o *Origin) Take() []*Req {
	o.mu.Lock()
	defer o.mu.Unlock()
	r := o.reqs
	o.reqs = nil
	return r
}

// Count tells how many requests arrived since the last Take.
func (o *Origin) Count() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return len(o.reqs)
}

// Set changes the script.
func (o *Origin) Set(h func(*Req) Script) {
	o.mu.Lock()
	o.Handle = h
	o.mu.Unlock()
}

// Proxy is the system under test.
type Proxy struct {
	Srv      *server.Server
	Cache    *cache.HttpCache
	Provider provider.Provider
	HTTP     *httptest.Server
	Addr     string
	conn     net.Conn
	r        *bufio.Reader
	// Recorded mode: requests are handed to the handler directly.
}

// Up describes an upstream.
type Up struct{ Path, Addr string }

// Memory makes an in-memory store.
func Memory() provider.Provider {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 28, MaxItemSize: 1 << 26, DefaultTTL: "1000h"})
	if err != nil {
		panic(err)
	}
	return p
}

// New starts a proxy.
func New(hc *cache.HttpCacheConfig, pdr provider.Provider, ups ...Up) *Proxy {
	if pdr == nil {
		pdr = Memory()
	}
	c, err := cache.NewHttpCache(hc, pdr)
	if err != nil {
		panic(err)
	}
	cfg := &config.Configuration{}
	for i, u := range ups {
		cfg.Upstreams = append(cfg.Upstreams, &config.Upstream{Name: fmt.Sprint("u", i), Addr: u.Addr, Path: u.Path})
	}
	s, err := server.NewServer(cfg, pdr, c, nil)
	if err != nil {
		panic(err)
	}
	h := httptest.NewServer(s)
	h.Config.ErrorLog = nil
	return &Proxy{Srv: s, Cache: c, Provider: pdr, HTTP: h, Addr: h.Listener.Addr().String()}
}

// Resp is what the client received.
type Resp struct {
	Err     error // no response at all
	Status  int
	Header  http.Header
	Body    []byte
	Aborted error // the body was visibly cut short
	CL      int64
}

func (r *Resp) String() string {
	if r.Err != nil {
		return "no response: " + r.Err.Error()
	}
	b := r.Body
	if len(b) > 80 {
		b = b[:80]
	}
	return fmt.Sprintf("%d %v body(%d)=%q aborted=%v", r.Status, r.Header, len(r.Body), b, r.Aborted)
}

// Raw composes a request.
func Raw(method, target, host string, body string, lines ...string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, target, host)
	for _, l := range lines {
		b.WriteString(l + "\r\n")
	}
	if body != "" || method == "POST" || method == "PUT" {
		has := false
		for _, l := range lines {
			has = has || strings.HasPrefix(strings.ToLower(l), "transfer-encoding:")
		}
		if !has {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
		}
	}
	b.WriteString("\r\n" + body)
	return b.String()
}

// Do sends a raw request on a kept connection and reads the response.
func (p *Proxy) Do(raw string) *Resp {
	for try := 0; ; try++ {
		fresh := p.conn == nil
		if fresh {
			c, err := net.Dial("tcp", p.Addr)
			if err != nil {
				return &Resp{Err: err}
			}
			p.conn, p.r = c, bufio.NewReader(c)
		}
		_ = p.conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, err := io.WriteString(p.conn, raw)
		res := Read(p.r, strings.SplitN(raw, " ", 2)[0])
		if err != nil || res.Err != nil || res.Aborted != nil || res.Header.Get("Connection") == "close" {
			p.conn.Close()
			p.conn = nil
			if res.Err != nil && !fresh && try == 0 && errors.Is(res.Err, io.EOF) {
				continue
			}
		}
		return res
	}
}

// Alone sends a raw request on a connection of its own.
func (p *Proxy) Alone(raw string) *Resp {
	c, err := net.Dial("tcp", p.Addr)
	if err != nil {
		return &Resp{Err: err}
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.WriteString(c, raw); err != nil {
		return &Resp{Err: err}
	}
	return Read(bufio.NewReader(c), strings.SplitN(raw, " ", 2)[0])
}

// Read reads a response.
func Read(r *bufio.Reader, method string) *Resp {
	for {
		res, err := http.ReadResponse(r, &http.Request{Method: method})
		if err != nil {
			if errors.Is(err, io.ErrUnexpectedEOF) {
				err = io.EOF
			}
			return &Resp{Err: err}
		}
		if res.StatusCode >= 100 && res.StatusCode < 200 && res.StatusCode != 101 {
			continue
		}
		out := &Resp{Status: res.StatusCode, Header: res.Header, CL: res.ContentLength}
		out.Body, out.Aborted = io.ReadAll(res.Body)
		if res.Close {
			out.Header.Set("Connection", "close")
		}
		return out
	}
}

// Close stops everything.
func (p *Proxy) Close() {
	if p.conn != nil {
		p.conn.Close()
	}
	p.HTTP.CloseClientConnections()
	p.HTTP.Close()
}

// Lines renders header lines without the hop-by-hop and transport ones.
func Lines(h http.Header, drop ...string) http.Header {
	out := h.Clone()
	for _, d := range append([]string{"Connection", "Keep-Alive", "Transfer-Encoding", "Proxy-Connection", "Te", "Trailer", "Upgrade"}, drop...) {
		out.Del(d)
	}
	return out
}

// Eq compares headers.
func Eq(a, b http.Header) string {
	for k, v := range a {
		if fmt.Sprint(v) != fmt.Sprint(b[k]) || len(v) != len(b[k]) {
			return fmt.Sprintf("%s: %q, not %q", k, b[k], v)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("additional %s: %q", k, v)
		}
	}
	return ""
}

// Reply composes an origin answer with Content-Length.
func Reply(status int, body string, lines ...string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %03d X\r\n", status)
	for _, l := range lines {
		b.WriteString(l + "\r\n")
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	return b.String()
}

// AloneFor is Alone with a deadline.
func (p *Proxy) AloneFor(raw string, d time.Duration) *Resp {
	c, err := net.Dial("tcp", p.Addr)
	if err != nil {
		return &Resp{Err: err}
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(d))
	if _, err := io.WriteString(c, raw); err != nil {
		return &Resp{Err: err}
	}
	return Read(bufio.NewReader(c), strings.SplitN(raw, " ", 2)[0])
}

// Leave sends a raw request and goes away without waiting for the answer.
func (p *Proxy) Leave(raw string, after time.Duration) {
	c, err := net.Dial("tcp", p.Addr)
	if err != nil {
		return
	}
	_, _ = io.WriteString(c, raw)
	time.Sleep(after)
	c.Close()
}
