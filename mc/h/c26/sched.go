package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/kache"
	"kverif/lib"
	"kverif/vsched"
	"kverif/vsignal"
	"kverif/world"
)

// The whole program under the scheduler, with virtual signals, time, listeners and upstream; net/http's
// server is replaced by its documented behaviour at Serve, Shutdown and Close (bound to the real one by
// the runs of the real program).

// srv is a serving http.Server.
type srv struct {
	s      *http.Server
	down   bool // Shutdown or Close
	ls     []*lis
	active int
	cut    []context.CancelFunc // ends the connections
	closed bool                 // Close: connections are cut
	sync   int
}

type lis struct {
	addr   string
	closed bool
	of     *srv
}

func (l *lis) Accept() (net.Conn, error) {
	vsched.Block("accept", func() bool { return l.closed })
	return nil, net.ErrClosed
}
func (l *lis) Close() error   { l.closed = true; return nil }
func (l *lis) Addr() net.Addr { return addr(l.addr) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// sim is one execution.
type sim struct {
	x      *vsched.X
	file   string
	k      *kache.Kache
	err    error
	ran    bool // Run returned: the process ends
	ranAt  time.Duration
	ls     []*lis
	srvs   map[*http.Server]*srv
	sent   time.Duration // when the first signal to end was sent
	asked  bool          // a signal to end was sent
	upFor  time.Duration // how long the upstream takes
	reqs   []*reqst
	ups    int
	kube   func(*http.Request) (*http.Response, error)
	events []string
}

// reqst is a request.
type reqst struct {
	name    string
	taken   bool // by a listener
	takenAt time.Duration
	done    bool
	ok      bool
	what    string
	cut     bool // its connection was closed by the server
}

var cur *sim

func (s *sim) server(h *http.Server) *srv {
	if s.srvs[h] == nil {
		s.srvs[h] = &srv{s: h}
	}
	return s.srvs[h]
}

func hooks() {
	net.VerifListen = func(network, address string) (net.Listener, error) {
		if !vsched.Active() {
			return nil, nil
		}
		l := &lis{addr: address}
		cur.ls = append(cur.ls, l)
		return l, nil
	}
	http.VerifServe = func(h *http.Server, l net.Listener) (error, bool) {
		if !vsched.Active() {
			return nil, false
		}
		vsched.Op("serve")
		v := cur.server(h)
		defer l.Close()
		if v.down {
			return http.ErrServerClosed, true
		}
		li := l.(*lis)
		li.of = v
		v.ls = append(v.ls, li)
		vsched.RaceReleaseMerge(unsafe.Pointer(&v.sync))
		vsched.Block("serve", func() bool { return v.down || li.closed })
		vsched.RaceAcquire(unsafe.Pointer(&v.sync))
		if !v.down {
			return net.ErrClosed, true
		}
		return http.ErrServerClosed, true
	}
	http.VerifShutdown = func(h *http.Server, ctx context.Context) (error, bool) {
		if !vsched.Active() {
			return nil, false
		}
		vsched.Op("shutdown")
		v := cur.server(h)
		v.down = true
		for _, l := range v.ls {
			l.closed = true
		}
		vsched.RaceReleaseMerge(unsafe.Pointer(&v.sync))
		vsched.Block("drain", func() bool { return v.active == 0 || ctx.Err() != nil })
		vsched.RaceAcquire(unsafe.Pointer(&v.sync))
		if v.active == 0 {
			return nil, true
		}
		return ctx.Err(), true
	}
	http.VerifClose = func(h *http.Server) (error, bool) {
		if !vsched.Active() {
			return nil, false
		}
		vsched.Op("close")
		v := cur.server(h)
		v.down, v.closed = true, true
		for _, l := range v.ls {
			l.closed = true
		}
		for _, f := range v.cut {
			f()
		}
		return nil, true
	}
	http.VerifTimeout = func(h http.Handler, d time.Duration, w http.ResponseWriter, r *http.Request) bool {
		if !vsched.Active() {
			return false
		}
		h.ServeHTTP(w, r)
		return true
	}
	http.VerifSend = func(t *http.Transport, r *http.Request) (*http.Response, error, bool) {
		if !vsched.Active() {
			return nil, nil, false
		}
		res, err := cur.send(r)
		return res, err, true
	}
}

const conf0 = "listeners:\n  a:\n    addr: a:1\n  b:\n    addr: b:2\nupstreams:\n- name: u\n  addr: http://o\n  path: /\nprovider:\n  backend: inmemory\n  inmemory:\n    max_size: 1000000\n    max_item_size: 100000\napi:\n  port: 9\n"

// send is the upstream, and the rest of the cluster.
func (s *sim) send(r *http.Request) (*http.Response, error) {
	if r.URL.Host != "o" {
		return s.kube(r)
	}
	s.ups++
	n := s.ups
	if r.Body != nil {
		_, _ = io.Copy(io.Discard, r.Body)
		r.Body.Close()
	}
	vsched.Op("upstream")
	if strings.HasPrefix(r.URL.Path, "/hang") {
		vsched.Block("upstream hangs", func() bool { return r.Context().Err() != nil })
		return nil, r.Context().Err()
	}
	if strings.HasPrefix(r.URL.Path, "/fail") {
		return nil, &net.OpError{Op: "read", Err: errors.New("broken")}
	}
	if d := s.upFor; d > 0 && !strings.HasPrefix(r.URL.Path, "/fast") {
		due := world.Now() + d
		woke := false
		vsched.AddTimer(d, 0, func(int64) { woke = true })
		vsched.Block("upstream takes long", func() bool { return woke || r.Context().Err() != nil })
		if !woke && world.Now() < due {
			return nil, r.Context().Err()
		}
	}
	body := fmt.Sprintf("%s %d", r.URL.Path, n)
	if r.Method == "HEAD" {
		body = ""
	}
	cc := "Cache-Control: max-age=60"
	if strings.Contains(r.URL.Path, "nostore") {
		cc = "Cache-Control: no-store"
	}
	return world.Parse(world.Raw(200, body, cc, "Content-Type: text/plain", "Date: "+world.Date(world.Now())), r)
}

func start(x *vsched.X, section, args string, watch bool) *sim {
	vsignal.Reset()
	s := &sim{x: x, file: filepath.Join(dir, "k.yml"), srvs: map[*http.Server]*srv{}}
	cur = s
	s.kube = func(r *http.Request) (*http.Response, error) { return nil, errors.New("no cluster") }
	s.write(section)
	if args != "" {
		f, _ := os.ReadFile(s.file)
		_ = os.WriteFile(s.file, append(f, args...), 0o600)
	}
	return s
}

func (s *sim) write(section string) {
	if err := os.WriteFile(s.file, []byte(conf0+section), 0o600); err != nil {
		panic(err)
	}
}

func (s *sim) load(watch bool) *sim {
	l, err := config.NewLoader(s.file, watch, 10*time.Second)
	if err != nil {
		panic(err)
	}
	if s.k, err = kache.New(l, nil); err != nil {
		panic(err)
	}
	return s
}

func (s *sim) run() {
	s.err = s.k.Run()
	s.ran, s.ranAt = true, world.Now()
	for _, r := range s.reqs {
		if r.taken && !r.done {
			r.what = "the program ended before it was answered"
		}
	}
}

// do sends a request to a listener.
func (s *sim) do(li int, method, path, body string) *reqst {
	q := &reqst{name: method + " " + path}
	s.reqs = append(s.reqs, q)
	vsched.Op("connect")
	name := []string{"a:1", "b:2"}[li]
	var l *lis
	for _, k := range s.ls {
		if k.addr == name {
			l = k
		}
	}
	if s.ran || l == nil || l.closed {
		if !s.asked {
			s.x.Fail("%s is refused before any signal", q.name)
		}
		q.what = "refused"
		return q
	}
	if l.of == nil { // not served yet: the connection waits
		vsched.Block("connected", func() bool { return l.of != nil || l.closed || s.ran })
		if l.closed || l.of == nil {
			q.what = "refused"
			return q
		}
	}
	v := l.of
	vsched.RaceAcquire(unsafe.Pointer(&v.sync))
	v.active++
	q.taken, q.takenAt = true, world.Now()
	ctx, cancel := context.WithCancel(context.Background())
	v.cut = append(v.cut, cancel)
	w := httptest.NewRecorder()
	r := httptest.NewRequest(method, "http://h"+path, strings.NewReader(body)).WithContext(ctx)
	if body == "" {
		r.Body = http.NoBody
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				q.what = fmt.Sprintf("aborted: %v", e)
			}
		}()
		v.s.Handler.ServeHTTP(w, r)
	}()
	q.cut = v.closed
	vsched.Op("answered")
	cancel()
	q.done = true
	if q.what == "" {
		want := 200
		if strings.HasPrefix(path, "/fail") {
			want = 503
		}
		b := w.Body.String()
		q.ok = w.Code == want && (want != 200 || method == "HEAD" || strings.HasPrefix(b, path+" "))
		q.what = fmt.Sprintf("%d %.80q", w.Code, b)
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&v.sync))
	v.active--
	return q
}

func (s *sim) signal(g syscall.Signal) {
	vsched.Block("until the signal is expected", func() bool { return vsignal.Heard(g) })
	if g != syscall.SIGHUP && !s.asked {
		s.asked, s.sent = true, world.Now()
	}
	vsignal.Send(g)
}

func (s *sim) api(m, p, body string) {
	for _, l := range s.ls {
		if l.addr == ":9" && l.of != nil && !s.ran {
			vsched.RaceAcquire(unsafe.Pointer(&l.of.sync))
			w := httptest.NewRecorder()
			l.of.s.Handler.ServeHTTP(w, httptest.NewRequest(m, "http://k"+p, strings.NewReader(body)))
			if w.Code != 200 && !s.ran {
				s.x.Fail("%s %s answers %d", m, p, w.Code)
			}
		}
	}
}

// judge: everything has come to its end.
func (s *sim) judge() {
	for i := 0; i < 60 && !s.ran; i++ {
		s.x.SettleTime(1)
	}
	if !s.ran {
		s.x.Fail("the program does not end")
		return
	}
	if s.err != nil {
		s.x.Fail("the program ends with %v", s.err)
	}
	took := s.ranAt - s.sent
	for _, l := range s.ls {
		if l.addr != ":9" && !l.closed {
			s.x.Fail("listener %s is open when the program ends", l.addr)
		}
	}
	if took > 5200*time.Millisecond {
		s.x.Fail("the program ends %v after the signal", took)
	}
	answered, refused, cut := 0, 0, 0
	for _, q := range s.reqs {
		switch {
		case q.ok:
			answered++
		case !q.taken:
			refused++
		case (q.cut || !q.done) && took >= 4900*time.Millisecond: // beyond the grace period
			cut++
		default:
			s.x.Fail("%s, accepted %v after the start, is not answered: %s (signal at %v, end at %v)", q.name, q.takenAt, q.what, s.sent, s.ranAt)
		}
	}
	s.x.Outcome("answered %d refused %d cut %d, %v after the signal", answered, refused, cut, took.Round(100*time.Millisecond))
}

// step is one action of a thread.
type step struct {
	kind string // a method, a signal name or API
	lis  int
	path string
}

func g(path string, li int) step { return step{"GET", li, path} }

var (
	term  = step{kind: "TERM"}
	intr  = step{kind: "INT"}
	hup   = step{kind: "HUP"}
	rel   = step{kind: "reload"}
	put   = step{kind: "PUT config"}
	purge = step{kind: "purge"}
	write = step{kind: "write"}
	later = step{kind: "later"}
	tick  = step{kind: "tick"}
)

func (s *sim) do1(t step) {
	switch t.kind {
	case "TERM":
		s.signal(syscall.SIGTERM)
	case "INT":
		s.signal(syscall.SIGINT)
	case "HUP":
		s.signal(syscall.SIGHUP)
	case "reload":
		s.api("POST", "/api/cache/config/reload", "")
	case "PUT config":
		s.api("PUT", "/api/cache/config/update", "x_header: true\n")
	case "purge":
		s.api("DELETE", "/api/cache/invalidate?pattern=*", "")
	case "write":
		s.write("cache:\n  strict: false\n")
	case "later":
		vsched.Sleep(100 * time.Millisecond)
	case "tick": // when the file is looked at
		vsched.Sleep(10*time.Second - world.Now())
	case "POST":
		s.do(t.lis, t.kind, t.path, "body")
	default:
		s.do(t.lis, t.kind, t.path, "")
	}
}

type drain struct {
	name    string
	watch   bool
	startup bool // explored from the start
	upFor   time.Duration
	before  []string // stored beforehand
	cluster int      // 1 nodes answer, 2 nodes do not answer, 3 nodes answer late
	threads [][]step
	bound   int
	plain   bool
}

func (d drain) scenario() lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s delays=%d plain=%v", d.name, d.bound, d.plain), Plain: d.plain, Cfg: vsched.Config{Bound: d.bound, Delay: true, MaxSteps: 100000, MaxFires: 100}, Body: func(x *vsched.X) {
		args := ""
		if d.cluster > 0 {
			args = "cluster:\n  discovery: kubernetes\n  namespace: ns\n  service: svc\n"
		}
		s := start(x, "cache:\n  strict: true\n", args, d.watch)
		if d.cluster > 0 {
			s.kube = func(r *http.Request) (*http.Response, error) {
				if r.URL.Host == "kube.invalid" {
					return answer(r, 200, endpoints), nil
				}
				vsched.Op("node")
				switch d.cluster {
				case 2:
					return nil, &net.OpError{Op: "dial", Err: errors.New("refused")}
				case 3:
					vsched.Sleep(3 * time.Second)
				}
				return answer(r, 200, ""), nil
			}
		}
		s.load(d.watch)
		if d.startup {
			x.Go("program", s.run)
		} else {
			vsched.GoQuiet("program", s.run)
			x.SettleTime(1)
		}
		for _, p := range d.before {
			if q := s.do(0, "GET", p, ""); !q.ok {
				x.Fail("request beforehand: %s", q.what)
			}
		}
		s.upFor = d.upFor
		if d.cluster > 0 {
			x.Pool()
		}
		for i, th := range d.threads {
			x.Go(fmt.Sprint("t", i), func() {
				for _, t := range th {
					s.do1(t)
				}
			})
		}
		x.Wait()
		s.judge()
	}}
}

func answer(req *http.Request, code int, body string) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

const endpoints = `{"kind":"Endpoints","apiVersion":"v1","metadata":{"name":"svc","namespace":"ns"},"subsets":[{"addresses":[{"ip":"10.0.0.1","targetRef":{"kind":"Pod","name":"p0"}},{"ip":"10.0.0.2","targetRef":{"kind":"Pod","name":"p1"}}],"ports":[{"name":"api","port":9}]}]}`

func newKube() {
	_ = os.Mkdir(filepath.Join(dir, ".kube"), 0o700)
	conf := "apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster: {server: \"http://kube.invalid\"}\ncontexts:\n- name: x\n  context: {cluster: c, user: u}\ncurrent-context: x\nusers:\n- name: u\n  user: {}\n"
	if err := os.WriteFile(filepath.Join(dir, ".kube", "config"), []byte(conf), 0o600); err != nil {
		panic(err)
	}
	os.Setenv("HOME", dir)
	os.Unsetenv("KUBERNETES_SERVICE_HOST")
	os.Unsetenv("KUBECONFIG")
}

func scenarios(thorough bool) (out []lib.Scenario) {
	d := 0
	if thorough {
		d = 1
	}
	for _, c := range []drain{
		{name: "signal at startup", startup: true, threads: [][]step{{term}}, bound: 2 + d},
		{name: "two signals at startup", startup: true, threads: [][]step{{intr}, {hup, term}}, bound: 2 + d},
		{name: "request at startup", startup: true, threads: [][]step{{term}, {g("/b", 1)}}, bound: 2 + d},
		{name: "watch at startup", startup: true, watch: true, threads: [][]step{{term}, {write}}, bound: 2 + d},
		{name: "idle", threads: [][]step{{term}, {intr}}, bound: 3 + d},
		{name: "request", threads: [][]step{{term}, {g("/a", 0)}}, bound: 2 + d},
		{name: "slow upstream", upFor: 3 * time.Second, threads: [][]step{{term, intr}, {g("/a", 0)}, {g("/b", 1)}}, bound: 2 + d},
		{name: "upstream slower than the grace period", upFor: 8 * time.Second, threads: [][]step{{term}, {g("/a", 0)}, {g("/fast", 1)}}, bound: 2 + d},
		{name: "upstream hangs", threads: [][]step{{term, term}, {g("/hang", 0)}, {g("/fast", 1)}}, bound: 2 + d},
		{name: "upstream fails", threads: [][]step{{term}, {g("/fail", 0), g("/a", 0)}}, bound: 2 + d},
		{name: "coalesced", upFor: 2 * time.Second, threads: [][]step{{term}, {g("/a", 0)}, {g("/a", 1)}}, bound: 2 + d},
		{name: "coalesced, not stored", upFor: time.Second, threads: [][]step{{term}, {g("/nostore", 0)}, {g("/nostore", 1)}}, bound: 2 + d},
		{name: "coalesced, upstream hangs", threads: [][]step{{term}, {g("/hang", 0)}, {g("/hang", 1)}}, bound: 2 + d},
		{name: "hit", before: []string{"/a"}, threads: [][]step{{term}, {g("/a", 0)}, {g("/a", 1)}}, bound: 2 + d},
		{name: "POST and HEAD", upFor: time.Second, threads: [][]step{{intr}, {{"POST", 0, "/a"}}, {{"HEAD", 1, "/b"}}}, bound: 2 + d},
		{name: "reloads", threads: [][]step{{term}, {write, hup, hup}, {rel, g("/a", 0)}}, bound: 2 + d},
		{name: "reload by signal, slow upstream", upFor: time.Second, threads: [][]step{{term, hup, term}, {write, hup}, {g("/a", 0)}}, bound: 2 + d},
		{name: "update and purge", before: []string{"/a"}, threads: [][]step{{term}, {put, purge}, {g("/a", 0)}}, bound: 2 + d},
		{name: "watch", watch: true, threads: [][]step{{tick, term}, {write, tick, g("/a", 0)}}, bound: 2 + d},
		{name: "cluster, nodes answer", cluster: 1, threads: [][]step{{term}, {put}}, bound: 3 + d},
		{name: "cluster, nodes refuse", cluster: 2, threads: [][]step{{term}, {put, purge}}, bound: 2 + d},
		{name: "cluster, nodes answer late", cluster: 3, threads: [][]step{{term}, {put}, {g("/a", 0)}}, bound: 2 + d},
		{name: "cluster, broadcasts before", cluster: 2, threads: [][]step{{put, put, later, term}, {g("/a", 0)}}, bound: 2 + d},
		{name: "request, by statement", upFor: time.Second, plain: true, threads: [][]step{{term}, {g("/a", 0)}}, bound: 2 + d},
		{name: "reload, by statement", plain: true, threads: [][]step{{term}, {write, hup}}, bound: 2 + d},
	} {
		out = append(out, c.scenario())
	}
	return
}
