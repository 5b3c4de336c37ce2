// C23: cluster broadcasts reach every node despite transient failures.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cluster"
	"kverif/lib"
	"kverif/vsched"
)

// kube is the cluster's API: it serves the endpoints of the service.
type kube struct {
	ln    net.Listener
	reply func() (int, string)
}

func newKube() *kube {
	k := &kube{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	k.ln = ln
	go http.Serve(ln, k)
	dir, err := os.MkdirTemp("", "c23")
	if err != nil {
		panic(err)
	}
	home = dir
	_ = os.Mkdir(filepath.Join(dir, ".kube"), 0o700)
	conf := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster: {server: \"http://%s\"}\ncontexts:\n- name: x\n  context: {cluster: c, user: u}\ncurrent-context: x\nusers:\n- name: u\n  user: {}\n", ln.Addr())
	if err := os.WriteFile(filepath.Join(dir, ".kube", "config"), []byte(conf), 0o600); err != nil {
		panic(err)
	}
	os.Setenv("HOME", dir)
	os.Unsetenv("KUBERNETES_SERVICE_HOST")
	os.Unsetenv("KUBECONFIG")
	return k
}

var home string

func (k *kube) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path != "/api/v1/namespaces/ns/endpoints/svc" {
		http.Error(w, "unexpected "+r.URL.Path, 404)
		return
	}
	code, body := k.reply()
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_, _ = io.WriteString(w, body)
}

type port struct {
	Name string `json:"name,omitempty"`
	Port int    `json:"port"`
}
type ref struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
}
type addr struct {
	IP        string `json:"ip"`
	TargetRef *ref   `json:"targetRef,omitempty"`
}
type subset struct {
	Addresses []addr `json:"addresses,omitempty"`
	NotReady  []addr `json:"notReadyAddresses,omitempty"`
	Ports     []port `json:"ports,omitempty"`
}

func endpoints(ss []subset) string {
	b, _ := json.Marshal(map[string]any{"kind": "Endpoints", "apiVersion": "v1", "metadata": map[string]any{"name": "svc", "namespace": "ns"}, "subsets": ss})
	return string(b)
}

// message is a broadcast.
type message struct {
	id, method, path, body string
	remote                 string
	direct                 bool // put into the queue as it is
	header                 http.Header
}

func (m message) request() *http.Request {
	r := httptest.NewRequest(m.method, "http://kache.example:8080"+m.path, strings.NewReader(m.body))
	for k, v := range m.header {
		r.Header[k] = append([]string{}, v...)
	}
	r.Header.Set("X-Id", m.id)
	r.RemoteAddr = m.remote
	return r
}

// intact compares a delivery with the message.
func (m message) intact(method, uri, host string, h http.Header, body string) string {
	if method != m.method || uri != m.path || body != m.body {
		return fmt.Sprintf("delivered as %s %s with body %.60q (%d bytes), sent was %s %s with %.60q (%d bytes)", method, uri, body, len(body), m.method, m.path, m.body, len(m.body))
	}
	if !m.direct && host != "kache.example:8080" {
		return fmt.Sprintf("delivered with the Host %q, sent was kache.example:8080", host)
	}
	for k, v := range m.header {
		if strings.Join(h[k], "\x00") != strings.Join(v, "\x00") {
			return fmt.Sprintf("header %s delivered as %q, sent was %q", k, h[k], v)
		}
	}
	if len(h["X-Kache-Cluster"]) == 0 {
		return "delivered without the mark of a broadcast"
	}
	return ""
}

// attempt is one delivery attempt seen by a peer.
type attempt struct {
	node, id   string
	begin, end time.Duration
	outcome    string
}

// net under the scheduler: http.DefaultTransport.
type fake struct {
	x        *vsched.X
	k        *kube
	msgs     map[string]message
	decide   func(node, id string, n int) string
	attempts []*attempt
	stopped  bool
	used     bool
	points   int
}

func now() time.Duration { return time.Duration(vsched.NowNanos()) }

func (f *fake) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.URL.Host == f.k.ln.Addr().String() {
		w := httptest.NewRecorder()
		f.k.ServeHTTP(w, req)
		return w.Result(), nil
	}
	f.used = true
	id := req.Header.Get("X-Id")
	a := &attempt{node: req.URL.Host, id: id, begin: now(), end: -1}
	n := 0
	for _, b := range f.attempts {
		if b.node == a.node && b.id == id {
			n++
			if b.end < 0 {
				f.x.Fail("message %s is delivered to %s twice at the same time", id, a.node)
			}
		}
	}
	f.attempts = append(f.attempts, a)
	if f.stopped {
		f.x.Fail("delivery of %s to %s begins after the connection was closed", id, a.node)
	}
	body := ""
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			f.x.Fail("delivery of %s, attempt %d: reading the body: %v", id, n+1, err)
		}
		body = string(b)
		req.Body.Close()
	}
	m, ok := f.msgs[id]
	if !ok {
		f.x.Fail("unknown message %q delivered", id)
	}
	if w := m.intact(req.Method, req.URL.RequestURI(), req.Host, req.Header, body); w != "" {
		f.x.Fail("message %s to %s, attempt %d: %s", id, a.node, n+1, w)
	}
	a.outcome = f.decide(a.node, id, n)
	for i := 0; i < f.points; i++ {
		vsched.Op("exchange")
	}
	defer func() { a.end = now() }()
	switch a.outcome {
	case "ok":
		return answer(req, 200), nil
	case "refused":
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
	case "eof":
		return nil, io.ErrUnexpectedEOF
	case "hang":
		d, ok := req.Context().Deadline()
		if !ok {
			vsched.Block("peer that does not answer", func() bool { return false })
		}
		vsched.Sleep(time.Until(d).Round(time.Second))
		return nil, context.DeadlineExceeded
	}
	code, err := strconv.Atoi(a.outcome)
	if err != nil {
		panic("outcome " + a.outcome)
	}
	return answer(req, code), nil
}

func answer(req *http.Request, code int) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("x")), ContentLength: 1, Request: req}
}

// switched stands in http.DefaultTransport from start to end.
type switched struct{ rt http.RoundTripper }

var theSwitch switched

//go:norace
func (s *switched) RoundTrip(r *http.Request) (*http.Response, error) { return s.rt.RoundTrip(r) }

//go:norace
func setTransport(rt http.RoundTripper) { theSwitch.rt = rt }

// settle: the workers are waiting when the first message comes. pool: idle workers are alike whatever
// they did before.
var settle, pool = true, true

func failed(o string) bool { return o != "ok" && o[0] != '2' }

var theKube *kube

const (
	retries = 5
	backoff = 7 * time.Second
)

func nodes(n int) []subset {
	s := subset{Ports: []port{{"api", 1338}}}
	for i := 0; i < n; i++ {
		s.Addresses = append(s.Addresses, addr{IP: fmt.Sprintf("10.0.0.%d", i+1), TargetRef: &ref{"Pod", fmt.Sprint("p", i)}})
	}
	return []subset{s}
}

var body = strings.Repeat("strict: true # ", 40)

func msg(i int) message {
	m := []message{
		{method: "PUT", path: "/api/cache/config/update", body: body, remote: "192.0.2.1:999"},
		{method: "DELETE", path: "/api/cache/invalidate", remote: "[2001:db8::1]:999"},
		{method: "PUT", path: "/api/cache/config/update", body: "x_header: true\n", remote: "192.0.2.2:1"},
	}[i%3]
	m.id = fmt.Sprint("m", i)
	m.header = http.Header{"X-Purge-Key": {"kache-http://o/a*"}, "X-Multi": {"a", "b"}}
	return m
}

// fallback reports that the deliveries do not go through http.DefaultTransport.
var foreign bool

// sched: nb threads broadcast one message each to nn nodes; outcomes decides per node, message and attempt.
func sched(name string, nb, nn int, decide func(x *vsched.X) func(node, id string, n int) string, stop bool, points, bound int, plain, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s broadcasts=%d nodes=%d points=%d bound=%d plain=%v", name, nb, nn, points, bound, plain), Race: race, Plain: plain, Cfg: vsched.Config{Bound: bound, MaxSteps: 200000, MaxFires: 1000}, Body: func(x *vsched.X) {
		f := &fake{x: x, k: theKube, msgs: map[string]message{}, points: points}
		f.decide = decide(x)
		setTransport(f)
		theKube.reply = func() (int, string) { return 200, endpoints(nodes(nn)) }
		c, err := cluster.NewKubernetesClient("ns", "svc")
		if err != nil {
			panic(err)
		}
		if settle {
			x.Settle()
		}
		if pool {
			x.Pool()
		} else {
			x.Symmetric()
		}
		for i := 0; i < nb; i++ {
			m := msg(i)
			f.msgs[m.id] = m
		}
		for i := 0; i < nb; i++ {
			m := f.msgs[fmt.Sprint("m", i)]
			x.Go("broadcast "+m.id, func() { c.Broadcast(m.request(), "api", m.method, m.path) })
		}
		closed := false
		if stop {
			x.Go("close", func() {
				c.Close()
				closed = true
				f.stopped = true
			})
		}
		x.Wait()
		// everything that is due happens
		x.Explore(func() {
			if !stop {
				vsched.Block("deliveries", func() bool {
					done := 0
					cnt := map[string]int{}
					for _, a := range f.attempts {
						if a.end < 0 {
							return false
						}
						k := a.node + " " + a.id
						cnt[k]++
						if !failed(a.outcome) || cnt[k] >= retries {
							done++
						}
					}
					return done >= nb*nn
				})
			}
		})
		x.SettleTime(40)
		if stop {
			if !closed {
				x.Fail("closing the connection never ends")
			}
			if n := x.Live(); n > 0 {
				x.Fail("%d threads are left after closing the connection", n)
			}
		}
		var out []string
		for i := 0; i < nb; i++ {
			for k := 0; k < nn; k++ {
				node, id := fmt.Sprintf("10.0.0.%d:1338", k+1), fmt.Sprint("m", i)
				var as []*attempt
				for _, a := range f.attempts {
					if a.node == node && a.id == id {
						as = append(as, a)
					}
				}
				d := ""
				for j, a := range as {
					d += a.outcome + " "
					if a.end < 0 {
						x.Fail("attempt %d of %s to %s never ends", j+1, id, node)
					}
					if j > 0 && !failed(as[j-1].outcome) {
						x.Fail("%s delivered to %s again after it was answered %s", id, node, as[j-1].outcome)
					}
					if j > 0 && a.begin-as[j-1].end < backoff {
						x.Fail("attempt %d of %s to %s comes %v after the failure of the previous one", j+1, id, node, a.begin-as[j-1].end)
					}
					if j > 0 && a.begin-as[j-1].end > backoff+11*time.Second {
						x.Fail("attempt %d of %s to %s comes %v after the failure of the previous one", j+1, id, node, a.begin-as[j-1].end)
					}
				}
				if len(as) > retries {
					x.Fail("%d attempts for %s to %s", len(as), id, node)
				}
				if !stop && (len(as) == 0 || failed(as[len(as)-1].outcome) && len(as) < retries) {
					x.Fail("%s was not delivered to %s (attempts: %s)", id, node, d)
				}
				if len(as) > 0 && as[0].begin-as[0].begin > 0 {
					x.Fail("late")
				}
				out = append(out, d)
			}
		}
		for _, a := range f.attempts {
			if !strings.HasPrefix(a.node, "10.0.0.") || !strings.HasSuffix(a.node, ":1338") {
				x.Fail("delivery to %s", a.node)
			}
		}
		if !stop {
			done := false
			x.Go("close", func() { c.Close(); done = true; f.stopped = true })
			x.Settle()
			x.SettleTime(20)
			if !done || x.Live() > 0 {
				x.Fail("closing the idle connection: ended %v, %d threads left", done, x.Live())
			}
		}
		sort.Strings(out)
		x.Outcome("%s", strings.Join(out, "|"))
	}}
}

// free outcomes for the first node and message m0 (every sequence); the others are fine.
func choices(os ...string) func(x *vsched.X) func(string, string, int) string {
	return func(x *vsched.X) func(string, string, int) string {
		return func(node, id string, n int) string {
			if node == "10.0.0.1:1338" && id == "m0" {
				return os[vsched.Choose(len(os))]
			}
			return "ok"
		}
	}
}

// all: every delivery has any outcome.
func all(os ...string) func(x *vsched.X) func(string, string, int) string {
	return func(x *vsched.X) func(string, string, int) string {
		return func(node, id string, n int) string { return os[vsched.Choose(len(os))] }
	}
}

// statuses: any status first, then success.
func statuses() func(x *vsched.X) func(string, string, int) string {
	var os []string
	for code := 200; code < 600; code++ {
		if code < 210 || code >= 400 {
			os = append(os, fmt.Sprint(code))
		}
	}
	return func(x *vsched.X) func(string, string, int) string {
		return func(node, id string, n int) string {
			if n > 0 {
				return "ok"
			}
			return os[vsched.Choose(len(os))]
		}
	}
}

// fixed sequences for every node but the last, which is fine.
func fixed(nn int, os ...string) func(x *vsched.X) func(string, string, int) string {
	return func(x *vsched.X) func(string, string, int) string {
		return func(node, id string, n int) string {
			if node == fmt.Sprintf("10.0.0.%d:1338", nn) || n >= len(os) {
				return "ok"
			}
			return os[n]
		}
	}
}

// fortieth: the fortieth node fails at first.
func fortieth(os ...string) func(x *vsched.X) func(string, string, int) string {
	return func(x *vsched.X) func(string, string, int) string {
		return func(node, id string, n int) string {
			var i int
			if _, err := fmt.Sscanf(node, "10.0.0.%d:", &i); err != nil || i%40 > 0 || n >= len(os) {
				return "ok"
			}
			return os[n]
		}
	}
}

// prompt: while one node does not answer, the other is reached at once.
func prompt(bad string, bound int) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("prompt despite %s bound=%d", bad, bound), Cfg: vsched.Config{Bound: bound, MaxSteps: 200000, MaxFires: 1000}, Body: func(x *vsched.X) {
		f := &fake{x: x, k: theKube, msgs: map[string]message{"m0": msg(0), "m1": msg(1)}, points: 1}
		f.decide = func(node, id string, n int) string {
			if node == "10.0.0.1:1338" {
				return bad
			}
			return "ok"
		}
		setTransport(f)
		theKube.reply = func() (int, string) { return 200, endpoints(nodes(3)) }
		c, err := cluster.NewKubernetesClient("ns", "svc")
		if err != nil {
			panic(err)
		}
		x.Settle()
		if pool {
			x.Pool()
		} else {
			x.Symmetric()
		}
		t0 := now()
		for i := 0; i < 2; i++ {
			x.Go("broadcast", func() { m := msg(i); c.Broadcast(m.request(), "api", m.method, m.path) })
		}
		x.Wait()
		x.Explore(func() {
			vsched.Block("deliveries", func() bool {
				n := 0
				for _, a := range f.attempts {
					if a.end >= 0 && a.outcome == "ok" {
						n++
					}
				}
				return n == 4
			})
		})
		if now() != t0 {
			x.Fail("deliveries to nodes in order take %v when another node fails (%s)", now()-t0, bad)
		}
		x.SettleTime(60)
		n := 0
		for _, a := range f.attempts {
			if a.node == "10.0.0.1:1338" {
				n++
			}
		}
		if n != 2*retries {
			x.Fail("%d attempts for two messages to a node that fails, expected %d", n, 2*retries)
		}
		x.Outcome("%d", len(f.attempts))
	}}
}

// queue: the request queue by itself, with few places and workers, stopped at any moment (or not).
func queue(size, workers, msgs int, stop bool, bound int) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("queue size=%d workers=%d messages=%d stop=%v bound=%d", size, workers, msgs, stop, bound), Race: true, Cfg: vsched.Config{Bound: bound, MaxSteps: 200000, MaxFires: 1000}, Body: func(x *vsched.X) {
		f := &fake{x: x, k: theKube, msgs: map[string]message{}, points: 0}
		f.decide = func(node, id string, n int) string {
			if n < 2 {
				return "500"
			}
			return "ok"
		}
		setTransport(f)
		q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: size, MaxWorkers: workers, MaxRetries: 3, Backoff: backoff})
		x.Settle()
		if pool {
			x.Pool()
		}
		x.Go("send", func() {
			for i := 0; i < msgs; i++ {
				m := msg(i)
				m.direct = true
				f.msgs[m.id] = m
				r := m.request()
				r.RequestURI = ""
				r.Header.Set("X-Kache-Cluster", "Broadcast")
				b := m.body
				r, _ = http.NewRequest(m.method, "http://10.0.0.1:1338"+m.path, strings.NewReader(b))
				for k, v := range m.header {
					r.Header[k] = v
				}
				r.Header.Set("X-Id", m.id)
				r.Header.Set("X-Kache-Cluster", "Broadcast")
				vsched.Op("next")
				if stop && len(q.Queue) == cap(q.Queue) {
					return // after the end nobody would make room
				}
				vsched.Select(false, vsched.NewSend(q.Queue).Of(cluster.Message{Request: r}))
			}
		})
		if stop {
			done := false
			x.Go("stop", func() { q.Stop(); done = true; f.stopped = true })
			x.Wait()
			x.SettleTime(40)
			if n := x.Live(); n > 0 || !done {
				x.Fail("%d threads are left after stopping the queue (stopped: %v)", n, done)
			}
		} else {
			x.Wait()
			x.SettleTime(60)
			n := 0
			for _, a := range f.attempts {
				if !failed(a.outcome) {
					n++
				}
			}
			if n != msgs || len(f.attempts) != 3*msgs {
				x.Fail("%d messages delivered in %d attempts, expected %d in %d", n, len(f.attempts), msgs, 3*msgs)
			}
		}
		x.Outcome("%d attempts", len(f.attempts))
	}}
}

func main() {
	lib.Alphabet = "1-3 broadcasts to 1-3 nodes; outcomes per attempt: success, 404, 500, 599 (and every status once), refused, interrupted, no answer; all outcome sequences to the retry limit; closing at any moment; all schedules to the preemption bound; endpoint lists of 0-3 subsets over 40 subsets; real peers over loopback sockets"
	lib.Assumptions = []string{"under the scheduler the worker's exchanges are replaced at http.DefaultTransport; the same outcomes are played by real peers over sockets", "virtual time stands still while a thread can run"}
	lib.Main("C23", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		theKube = newKube()
		defer os.RemoveAll(home)
		orig := http.DefaultTransport
		sw := &theSwitch
		sw.rt = orig
		http.DefaultTransport = sw
		d := 0
		if c.Thorough {
			d = 1
		}
		if !vsched.RaceMode {
			sockets(c, p)
			setTransport(orig)
			if c.Replay == nil && !usesDefault() {
				p.Cap("deliveries do not go through http.DefaultTransport: schedules are not explored")
				return
			}
		}
		outs := []string{"ok", "500", "refused", "hang"}
		scs := []lib.Scenario{
			queue(1, 1, 3, true, 1+d), queue(1, 2, 3, false, d), queue(2, 1, 3, false, d),
			prompt("500", d), prompt("hang", d), prompt("refused", d),
			sched("by statement", 1, 1, fixed(2, "500"), false, 0, 1+d, true, false),
			sched("close by statement", 1, 1, fixed(2, "500"), true, 0, 1+d, true, false),
			sched("two messages", 2, 1, fixed(2, "500"), false, 1, 1+d, false, true),
			sched("two messages, refused", 2, 2, fixed(2, "refused"), false, 1, d, false, true),
			sched("retries", 1, 2, fixed(2, "500", "refused", "404"), false, 0, 1+d, false, true),
			sched("no answer", 1, 2, fixed(2, "hang"), false, 0, 1+d, false, false),
			sched("close, two nodes", 1, 2, fixed(2, "refused", "500"), true, 1, 1+d, false, true),
			sched("close, no answer", 1, 2, fixed(2, "hang"), true, 0, 1+d, false, false),
			sched("close", 1, 1, all("ok", "500"), true, 1, 1+d, false, true),
			sched("close, two messages", 2, 1, fixed(2, "500"), true, 0, d, false, false),
			sched("many nodes", 1, 45, fixed(46, "ok"), false, 0, 0, false, false),
			sched("many nodes, one failing", 1, 45, fortieth("500"), false, 0, 0, false, false),
			sched("many messages", 3, 14, fixed(15, "ok"), false, 0, 0, false, false),
			sched("every status", 1, 1, statuses(), false, 0, 0, false, false),
			sched("every outcome, two nodes", 1, 2, choices(outs...), false, 0, 0, false, false),
			sched("every outcome", 1, 1, choices("ok", "204", "404", "500", "599", "refused", "eof", "hang"), false, 0, 0, false, false),
			sched("many nodes, close", 1, 45, fortieth("500"), true, 0, 0, false, false),
		}
		if c.Thorough {
			scs = append(scs, sched("three messages", 3, 2, fixed(3, "eof"), false, 0, 0, false, false))
			scs = append(scs, sched("any outcome anywhere", 1, 2, all(outs...), false, 0, 0, false, false))
		}
		c.RunScenarios(p, scs)
	})
}

// usesDefault tries whether deliveries go through http.DefaultTransport.
func usesDefault() bool {
	f := &probeRT{}
	setTransport(f)
	q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: 1, MaxWorkers: 1, MaxRetries: 1, Backoff: time.Millisecond})
	r, _ := http.NewRequest("PUT", "http://127.0.0.1:9/", bytes.NewReader(nil))
	q.Queue <- cluster.Message{Request: r}
	time.Sleep(200 * time.Millisecond)
	q.Stop()
	return f.n > 0
}

type probeRT struct{ n int }

func (f *probeRT) RoundTrip(r *http.Request) (*http.Response, error) {
	f.n++
	return answer(r, 200), nil
}
