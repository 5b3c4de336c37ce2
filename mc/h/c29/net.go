package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/e2e"
	"kverif/lib"
	"kverif/world"
)

// exch is a write between sockets, through the complete proxy.
type exch struct {
	Layered bool   `json:"layered"`
	Method  string `json:"method"`
	Status  int    `json:"status"`
	Send    string `json:"send"` // how the request is sent
	Ans     string `json:"ans"`  // how it is answered
	Prior   string `json:"prior"`
	Target  string `json:"target"`
}

type netRep struct {
	Net *exch `json:"net"`
}

type net struct {
	o   [2]*e2e.Origin
	px  *e2e.Proxy
	ver map[string]int
	x   *exch
}

var nets = map[bool]*net{}

func getNet(layered bool) *net {
	if n := nets[layered]; n != nil {
		return n
	}
	n := &net{ver: map[string]int{}}
	for i := range n.o {
		n.o[i] = e2e.NewOrigin(fmt.Sprint("o", i))
		n.o[i].Set(n.answer)
	}
	n.px = e2e.New(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "100h"}, store(layered), e2e.Up{Path: "/", Addr: "http://" + n.o[0].Addr}, e2e.Up{Path: "/api/", Addr: "http://" + n.o[1].Addr})
	nets[layered] = n
	return n
}

func (n *net) answer(q *e2e.Req) e2e.Script {
	hs := []string{"Date: " + world.Date(world.Now()), "Cache-Control: max-age=1000", `Etag: "e"`}
	if q.Method == "GET" {
		return e2e.Script{Raw: e2e.Reply(200, fmt.Sprintf("%s version %d", q.Target, n.ver[q.Target]), hs...)}
	}
	x := n.x
	if x.Status < 400 {
		n.ver[q.Target]++
	}
	body := "done"
	raw := e2e.Reply(x.Status, body, "Date: "+world.Date(world.Now()), "Content-Location: /y")
	if x.Status == 204 || x.Status == 304 {
		raw = fmt.Sprintf("HTTP/1.1 %d X\r\nDate: %s\r\n\r\n", x.Status, world.Date(world.Now()))
	}
	switch x.Ans {
	case "early hints":
		raw = "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n" + raw
	case "closed":
		raw = strings.Replace(raw, fmt.Sprintf("Content-Length: %d", len(body)), "Connection: close", 1)
		return e2e.Script{Raw: raw, Close: true}
	case "chunked":
		raw = strings.Replace(raw, fmt.Sprintf("Content-Length: %d", len(body)), "Transfer-Encoding: chunked", 1)
		raw = strings.Replace(raw, "\r\n\r\n"+body, "\r\n\r\n4\r\n"+body+"\r\n0\r\n\r\n", 1)
	case "stored":
		raw = strings.Replace(raw, "Content-Location: /y", "Cache-Control: max-age=100", 1)
	case "cut":
		raw = raw[:len(raw)-2]
		return e2e.Script{Raw: raw, Close: true}
	case "reset":
		return e2e.Script{Reset: true}
	}
	return e2e.Script{Raw: raw}
}

func (n *net) get(target string, lines ...string) (string, bool) {
	o := n.o[0].Count() + n.o[1].Count()
	r := n.px.Do(e2e.Raw("GET", target, "c", "", lines...))
	if r.Err != nil || r.Aborted != nil || r.Status != 200 {
		return r.String(), false
	}
	return string(r.Body), n.o[0].Count()+n.o[1].Count() > o
}

func (n *net) run(p *lib.Part, x exch) string {
	n.x = &x
	n.ver = map[string]int{}
	if x.Layered {
		store(true)
	}
	if err := n.px.Provider.Flush(ctx); err != nil {
		return err.Error()
	}
	nb := "/y"
	want := func(t string) string { return fmt.Sprintf("%s version %d", t, n.ver[t]) }
	read := func(t string, asked bool, what string) string {
		p.Ops++
		b, a := n.get(t)
		if b != want(t) || a != asked {
			return fmt.Sprintf("%s: GET %s got %q (origin asked: %v), want %q (%v)", what, t, b, a, want(t), asked)
		}
		return ""
	}
	if w := read(nb, true, "first"); w != "" {
		return w
	}
	if x.Prior == "stored" {
		if w := read(x.Target, true, "first"); w != "" {
			return w
		}
		if w := read(x.Target, false, "stored"); w != "" {
			return w
		}
	}
	hs := []string{"Content-Type: a/b"}
	body := "data"
	switch x.Send {
	case "chunked":
		hs, body = append(hs, "Transfer-Encoding: chunked"), "4\r\ndata\r\n0\r\n\r\n"
	case "empty":
		body = ""
	case "authorized":
		hs = append(hs, "Authorization: x")
	case "conditional":
		hs = append(hs, `If-Match: "e"`)
	case "no-store":
		hs = append(hs, "Cache-Control: no-store")
	case "close":
		hs = append(hs, "Connection: close")
	}
	if x.Method == "DELETE" && body == "data" {
		body = ""
	}
	t := x.Target
	if x.Send == "absolute" {
		t = "http://c" + t
	}
	raw := e2e.Raw(x.Method, t, "c", body, hs...)
	before := n.ver[x.Target]
	r := n.px.Do(raw)
	if x.Ans != "cut" && x.Ans != "reset" && (r.Err != nil || r.Status != x.Status) {
		return fmt.Sprintf("the write is answered %v", r)
	}
	written := x.Status < 400 && x.Ans != "reset" && n.ver[x.Target] > before
	if x.Ans == "cut" && (x.Status == 204 || x.Status == 304) {
		written = false // the head itself was cut
	}
	if !written && x.Ans == "reset" || x.Ans == "cut" && !written {
		n.ver[x.Target] = before // whether it took effect is not known to the proxy
	}
	asked := written || x.Prior != "stored"
	if w := read(x.Target, asked, "after the write"); w != "" {
		return w
	}
	if w := read(x.Target, false, "again"); w != "" {
		return w
	}
	return read(nb, false, "neighbour")
}

func networks(c *lib.Check, p *lib.Part) {
	if c.Replay != nil {
		var r netRep
		if json.Unmarshal(c.Replay, &r) == nil && r.Net != nil {
			if w := getNet(r.Net.Layered).run(p, *r.Net); w != "" {
				p.Fail(fmt.Sprintf("sockets %+v", *r.Net), w, r)
			}
		}
		return
	}
	k := 0
	for _, layered := range []bool{false, true} {
		for _, target := range []string{"/x", "/x?q=1", "/api/x"} {
			for _, prior := range []string{"stored", "nothing"} {
				for _, m := range must {
					for _, st := range []int{200, 201, 202, 204, 301, 303, 304, 400, 404, 409, 500, 503} {
						for _, send := range []string{"plain", "chunked", "empty", "authorized", "conditional", "no-store", "close", "absolute"} {
							for _, ans := range []string{"plain", "early hints", "chunked", "closed", "stored", "cut", "reset"} {
								if !c.Thorough && send != "plain" && ans != "plain" && (st+len(send)+len(ans))%3 != 0 {
									continue
								}
								if k++; k%c.Of != c.Shard {
									continue
								}
								if c.Expired(p, "sockets") {
									return
								}
								x := exch{layered, m, st, send, ans, prior, target}
								lib.Doing(fmt.Sprintf("sockets %+v", x))
								w := getNet(layered).run(p, x)
								p.Traces++
								p.Scenarios["sockets"]++
								if w != "" && p.Sure(2, w, func() string { return getNet(layered).run(p, x) }) {
									p.Fail(fmt.Sprintf("sockets %+v", x), w, netRep{&x}, w)
									return
								}
							}
						}
					}
				}
			}
		}
	}
}
