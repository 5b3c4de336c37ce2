// C24: a purge on any node takes effect on the whole cluster.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/pkg/server/middleware"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

const (
	apiPort = 1338
	retries = 5
	l1TTL   = 3 * time.Second
)

// newKube serves the cluster's endpoints and makes the client's configuration point there.
func newKube() string {
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		panic(err)
	}
	_ = os.Mkdir(filepath.Join(dir, ".kube"), 0o700)
	conf := "apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster: {server: \"http://kube.invalid\"}\ncontexts:\n- name: x\n  context: {cluster: c, user: u}\ncurrent-context: x\nusers:\n- name: u\n  user: {}\n"
	if err := os.WriteFile(filepath.Join(dir, ".kube", "config"), []byte(conf), 0o600); err != nil {
		panic(err)
	}
	os.Setenv("HOME", dir)
	os.Unsetenv("KUBERNETES_SERVICE_HOST")
	os.Unsetenv("KUBECONFIG")
	return dir
}

func endpoints(n int) string {
	var as []any
	for i := 0; i < n; i++ {
		as = append(as, map[string]any{"ip": ip(i), "targetRef": map[string]any{"kind": "Pod", "name": fmt.Sprint("p", i)}})
	}
	b, _ := json.Marshal(map[string]any{"kind": "Endpoints", "apiVersion": "v1", "metadata": map[string]any{"name": "svc", "namespace": "ns"},
		"subsets": []any{map[string]any{"addresses": as, "ports": []any{map[string]any{"name": "http", "port": 80}, map[string]any{"name": "api", "port": apiPort}}}}})
	return string(b)
}

func ip(i int) string { return fmt.Sprintf("10.0.0.%d", i+1) }

// switched stands in http.DefaultTransport from start to end.
type switched struct{ rt http.RoundTripper }

var theSwitch switched

//go:norace
func (s *switched) RoundTrip(r *http.Request) (*http.Response, error) { return s.rt.RoundTrip(r) }

//go:norace
func setTransport(rt http.RoundTripper) { theSwitch.rt = rt }

// inOrder is a remote client whose stores are applied when they are issued.
type inOrder struct{ provider.RemoteCacheClient }

func (c inOrder) StoreAsync(k string, v []byte, ttl time.Duration) error { return c.Store(k, v, ttl) }

var (
	redisSrv *fakeredis.Server
	redisCl  provider.RemoteCacheClient
)

func resetRedis() {
	if redisSrv == nil {
		redisSrv = fakeredis.New()
		redisSrv.Page = 1000
		redisCl = redisSrv.Client(provider.RedisClientConfig{})
		time.Sleep(50 * time.Millisecond) // let its workers block
	}
	redisSrv.Sched = false
	for k := range redisSrv.Dump() {
		redisSrv.Drop(k)
	}
}

// msg is a broadcast message on its way.
type msg struct {
	to      int
	req     *http.Request
	body    string
	n       int // attempt
	op      *op
	outcome string // "": undecided
	status  int
}

// op is a management call that was made.
type op struct {
	kind      string // purge, config
	node      int
	text      string
	at        int          // event number
	delivered map[int]bool // nodes that have answered the broadcast with 200
	attempts  map[int]int
	done      int // event number when all nodes had it, 0: not yet
}

func (o *op) String() string { return fmt.Sprintf("%s at node %d (event %d)", o.kind, o.node, o.at) }

// copyOf is a response made by the origin.
type made struct {
	path string
	at   int
}

type node struct {
	i   int
	srv *server.Server
	api *api.API
	hc  *cache.HttpCache
	rt  http.RoundTripper
}

// sys is the cluster.
type sys struct {
	x       *vsched.X
	c       conf
	nodes   []*node
	pending []*msg
	ops     []*op
	cur     *op // the call under way
	event   int
	made    []made
	auto    bool // deliveries are made at once
	points  bool
	log     []string
	confs   []string // "header name" of the marking in force, "" none
}

// conf is what the nodes are configured with.
type conf struct {
	name   string
	nodes  int
	prefix string
	acl    func(i int) string
	client client
	direct bool // no local tier
}

// client is who calls the API.
type client struct {
	remote string
	header http.Header
}

var (
	friend  = client{"192.0.2.9:999", nil}
	friend6 = client{"[2001:db8::9]:999", nil}
	proxied = client{"198.51.100.7:1", http.Header{"X-Forwarded-For": {"192.0.2.9"}}}
	chained = client{"198.51.100.7:1", http.Header{"X-Forwarded-For": {"203.0.113.5, 192.0.2.9"}}}
	realIP  = client{"198.51.100.7:1", http.Header{"X-Real-Ip": {"192.0.2.9"}}}
	enemy   = client{"198.51.100.7:1", nil}
	aclList = "192.0.2.0/24,2001:db8::/32"
)

func open(int) string       { return "" }
func restricted(int) string { return aclList }

func (s *sys) fail(format string, a ...any) {
	s.x.Fail("%s\n  history: %s", fmt.Sprintf(format, a...), strings.Join(s.log, "; "))
}

func newSys(x *vsched.X, c conf) *sys {
	resetRedis()
	s := &sys{x: x, c: c}
	setTransport(s)
	for i := 0; i < c.nodes; i++ {
		n := &node{i: i}
		rc := provider.NewRedisCache("r", inOrder{redisCl})
		var p provider.Provider = rc
		if !c.direct {
			var err error
			if p, err = provider.NewCached(rc, "l", l1TTL, provider.InMemoryCacheConfig{MaxSize: 1 << 26, MaxItemSize: 1 << 24, DefaultTTL: "120s"}); err != nil {
				panic(err)
			}
		}
		var err error
		if n.hc, err = cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true}, p); err != nil {
			panic(err)
		}
		cfg := &config.Configuration{
			API:      &config.API{Port: apiPort, Prefix: c.prefix, ACL: c.acl(i)},
			Provider: &provider.ProviderBackendConfig{Backend: "redis", Layered: !c.direct},
			Cluster:  &cluster.Config{Discovery: "kubernetes", Namespace: "ns", Service: "svc"},
		}
		if n.srv, err = server.NewServer(cfg, p, n.hc, nil); err != nil {
			panic(err)
		}
		if n.api, err = api.New(*cfg.API, n.srv); err != nil {
			panic(err)
		}
		tr := middleware.NewCachedTransport(n.hc, nil)
		tr.Transport = originRT{s}
		n.rt = middleware.NewCoalesced(tr)
		s.nodes = append(s.nodes, n)
		s.confs = append(s.confs, "")
	}
	x.Settle()
	x.Pool()
	return s
}

// originRT makes numbered responses.
type originRT struct{ s *sys }

func (o originRT) RoundTrip(req *http.Request) (*http.Response, error) {
	s := o.s
	if s.points {
		vsched.Op("origin")
	}
	s.made = append(s.made, made{req.URL.Path, s.event})
	raw := world.Raw(200, fmt.Sprintf("%d", len(s.made)-1), "Date: "+world.Date(world.Now()), "Cache-Control: max-age=10", "Content-Type: text/plain")
	if s.points {
		vsched.Op("origin")
	}
	return world.Parse(raw, req)
}

// RoundTrip is http.DefaultTransport: the cluster's API and the exchanges between nodes.
func (s *sys) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.URL.Host == "kube.invalid" {
		return answer(req, 200, endpoints(s.c.nodes)), nil
	}
	m := &msg{to: -1, req: req}
	for i := range s.nodes {
		if req.URL.Host == net.JoinHostPort(ip(i), fmt.Sprint(apiPort)) {
			m.to = i
		}
	}
	if m.to < 0 {
		s.fail("broadcast to %s", req.URL.Host)
		return nil, errors.New("no such node")
	}
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		req.Body.Close()
		m.body = string(b)
	}
	id := req.Header.Get("X-Id")
	for _, o := range s.ops {
		if fmt.Sprint(o.at) == id {
			m.op = o
		}
	}
	if m.op == nil {
		s.fail("broadcast of a call nobody made: %s %s to node %d", req.Method, req.URL.Path, m.to)
		return nil, errors.New("unknown")
	}
	m.op.attempts[m.to]++
	m.n = m.op.attempts[m.to]
	if s.auto {
		if s.points {
			vsched.Op("deliver")
		}
		m.outcome = "ok"
	} else {
		s.pending = append(s.pending, m)
		vsched.Block("delivery", func() bool { return m.outcome != "" })
	}
	switch m.outcome {
	case "ok":
		w := httptest.NewRecorder()
		r := serverSide(req, m.body)
		// from whichever node: the address of the caller is that of a node
		r.RemoteAddr = net.JoinHostPort(ip((m.to+1)%len(s.nodes)), "40000")
		s.nodes[m.to].api.ServeHTTP(w, r)
		m.status = w.Code
		if m.status == 200 {
			m.op.delivered[m.to] = true
			s.applied(m.to, m.op)
		}
		if len(m.op.delivered) == len(s.nodes) && m.op.done == 0 {
			s.event++
			m.op.done = s.event
		}
		return answer(req, w.Code, ""), nil
	case "500":
		return answer(req, 500, ""), nil
	case "lost answer": // the node handles it, its answer is lost
		w := httptest.NewRecorder()
		r := serverSide(req, m.body)
		r.RemoteAddr = net.JoinHostPort(ip((m.to+1)%len(s.nodes)), "40000")
		s.nodes[m.to].api.ServeHTTP(w, r)
		if w.Code == 200 {
			s.applied(m.to, m.op)
		}
		return nil, io.ErrUnexpectedEOF
	}
	return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
}

func serverSide(req *http.Request, body string) *http.Request {
	r := httptest.NewRequest(req.Method, req.URL.RequestURI(), strings.NewReader(body))
	r.Header = req.Header.Clone()
	r.Host = req.Host
	if r.Host == "" {
		r.Host = req.URL.Host
	}
	return r
}

func answer(req *http.Request, code int, body string) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

// applied: node i has taken over o.
func (s *sys) applied(i int, o *op) {
	if o.kind == "config" {
		s.confs[i] = o.text
	}
}

var texts = []string{"x_header: true\nx_header_name: X-One\n", "x_header: true\nx_header_name: X-Two\n"}

func markOf(text string) string {
	switch text {
	case texts[0]:
		return "X-One"
	case texts[1]:
		return "X-Two"
	}
	return ""
}

// call makes a management call at node i and returns the status.
func (s *sys) call(i int, cl client, method, path, text, key string, o *op) int {
	var body io.Reader
	if text != "" {
		body = strings.NewReader(text)
	}
	r := httptest.NewRequest(method, path, body)
	for k, v := range cl.header {
		r.Header[k] = v
	}
	if key != "" {
		r.Header.Set("X-Purge-Key", key)
	}
	r.RemoteAddr = cl.remote
	if o != nil {
		r.Header.Set("X-Id", fmt.Sprint(o.at))
	}
	w := httptest.NewRecorder()
	s.nodes[i].api.ServeHTTP(w, r)
	return w.Code
}

func (s *sys) apiPath(p string) string {
	pre := strings.Trim(s.c.prefix, "/")
	if pre == "" {
		pre = "api"
	}
	return "/" + pre + p
}

func (s *sys) newOp(kind string, i int, text string) *op {
	s.event++
	o := &op{kind: kind, node: i, text: text, at: s.event, delivered: map[int]bool{}, attempts: map[int]int{}}
	s.ops = append(s.ops, o)
	return o
}

// key is the key of path /p in the store.
const key = "kache-http://o/p"

func (s *sys) purge(i int, cl client, pattern string) int {
	o := s.newOp("purge", i, pattern)
	n := s.event
	code := s.call(i, cl, "PURGE", "/", "", pattern, o)
	if code != 200 {
		s.ops = s.ops[:len(s.ops)-1]
	} else if s.c.direct {
		o.done = n
	}
	return code
}

func (s *sys) config(i int, cl client, text string) int {
	o := s.newOp("config", i, text)
	code := s.call(i, cl, "PUT", s.apiPath("/cache/config/update"), text, "", o)
	if code != 200 {
		s.ops = s.ops[:len(s.ops)-1]
	} else {
		s.confs[i] = text
	}
	return code
}

// get asks node i for a path and judges the answer.
func (s *sys) get(i int, path string) {
	s.event++
	now := s.event
	first := len(s.made)
	r := world.ReadResult(s.nodes[i].rt.RoundTrip(world.NewRequest(nil2ctx, "GET", "http://o"+path, nil, "")))
	if r.Err != nil || r.Status != 200 {
		s.fail("GET %s at node %d: %v", path, i, r)
		return
	}
	k := -1
	fmt.Sscanf(string(r.Body), "%d", &k)
	if k < 0 || k >= len(s.made) {
		s.fail("GET %s at node %d: body %q", path, i, r.Body)
		return
	}
	m := s.made[k]
	for _, o := range s.ops {
		if o.kind == "purge" && o.done > 0 && o.done < now && m.at < o.at && matches(o.text, path) && m.path == path {
			s.fail("GET %s at node %d is answered with response %d, made at event %d, before the %v that was delivered everywhere at event %d", path, i, k, m.at, o, o.done)
		}
	}
	if len(s.ops) > 0 || k < first {
		for _, name := range []string{"X-One", "X-Two"} {
			if got, want := r.Header.Get(name) != "", s.mark(i) == name; got != want && s.judgeConf(i) && k < first {
				s.fail("GET %s at node %d: header %s present %v, the configuration of the node is %q", path, i, name, got, s.confs[i])
			}
		}
	}
}

// judgeConf: nothing that could have changed the configuration is under way elsewhere (always true
// in sequential histories).
func (s *sys) judgeConf(i int) bool { return !s.auto }

func (s *sys) mark(i int) string { return markOf(s.confs[i]) }

func matches(pattern, path string) bool {
	k := "kache-http://o" + path
	return pattern == k || strings.HasSuffix(pattern, "*") && strings.HasPrefix(k, strings.TrimSuffix(pattern, "*"))
}

// expectBroadcast checks that a call that was accepted is on its way to every node, and nothing else is.
func (s *sys) settle() {
	s.x.Settle()
}

// wait lets t pass: retries become due.
func (s *sys) wait(t time.Duration) {
	end := world.Now() + t
	vsched.Sleep(t)
	_ = end
	s.settle()
}

// count of messages in flight per operation and node.
func (s *sys) decide(m *msg, outcome string) {
	s.event++
	for i, p := range s.pending {
		if p == m {
			s.pending = append(append([]*msg{}, s.pending[:i]...), s.pending[i+1:]...)
			break
		}
	}
	m.outcome = outcome
	s.settle()
}

// sortPending orders the messages independently of the worker that got them.
func (s *sys) sortPending() {
	sort.SliceStable(s.pending, func(a, b int) bool {
		p, q := s.pending[a], s.pending[b]
		if p.op.at != q.op.at {
			return p.op.at < q.op.at
		}
		return p.to < q.to
	})
}

// check is made after every step.
func (s *sys) check() {
	for _, o := range s.ops {
		if s.c.direct && o.kind == "purge" {
			continue
		}
		for i := range s.nodes {
			if o.attempts[i] == 0 {
				s.fail("%v is not sent to node %d", o, i)
			}
		}
	}
}

// last returns the configuration that every node must have now ("" and false: none is certain).
func (s *sys) finalConf() (string, bool) {
	var last *op
	for _, o := range s.ops {
		if o.kind == "config" {
			last = o
		}
	}
	if last == nil || last.done == 0 {
		return "", false
	}
	for _, o := range s.ops {
		if o.kind == "config" && o != last && (o.done == 0 || o.done > last.at) {
			return "", false
		}
	}
	// a lost answer is repeated: the repetition may arrive after a later update
	return last.text, true
}

// step of a history.
type step struct {
	name string
	do   func()
}

func (s *sys) deliverAll() {
	for i := 0; i < 200 && len(s.pending) > 0; i++ {
		s.sortPending()
		s.decide(s.pending[0], "ok")
	}
}

// finish delivers everything and asks every node.
func (s *sys) finish(effective bool) {
	for i := 0; i < 8; i++ {
		s.deliverAll()
		s.wait(7 * time.Second)
	}
	if len(s.pending) > 0 {
		s.deliverAll()
	}
	for _, o := range s.ops {
		if s.c.direct && o.kind == "purge" || !effective {
			continue
		}
		if o.done == 0 {
			s.fail("%v has reached nodes %v only", o, o.delivered)
		}
	}
	s.check()
	if len(s.log) < 3000 {
		for i := range s.nodes {
			s.get(i, "/p")
		}
	}
	if effective {
		if c, ok := s.finalConf(); ok {
			for i := range s.nodes {
				if s.confs[i] != c {
					s.fail("node %d has the configuration %q after %q was delivered everywhere", i, s.confs[i], c)
				}
				w := httptest.NewRecorder()
				r := httptest.NewRequest("GET", s.apiPath("/cache/config"), nil)
				r.RemoteAddr = "192.0.2.9:1"
				s.nodes[i].api.ServeHTTP(w, r)
				if w.Code != 200 || !strings.Contains(w.Body.String(), markOf(c)) {
					s.fail("node %d shows the configuration %d %s after %q was delivered everywhere", i, w.Code, w.Body, c)
				}
			}
		}
	}
}

// history: every sequence of depth steps.
func history(c conf, depth int, failures, waits, configs, gets bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s depth=%d failures=%v waits=%v configs=%v", c.name, depth, failures, waits, configs), Cfg: vsched.Config{Bound: 0, MaxSteps: 200000, MaxFires: 1000}, Body: func(x *vsched.X) {
		s := newSys(x, c)
		// every node holds a copy
		for i := range s.nodes {
			s.get(i, "/p")
		}
		if gets {
			s.get(0, "/pp")
		}
		for d := 0; d < depth; d++ {
			var st []step
			for i := range s.nodes {
				st = append(st, step{fmt.Sprintf("get at %d", i), func() { s.get(i, "/p") }})
			}
			accept := func(code int) {
				if code != 200 {
					s.fail("refused with %d", code)
				}
				s.settle()
			}
			room := func(i int) bool { // six workers deliver
				n := len(s.nodes)
				for _, m := range s.pending {
					if m.op.node == i {
						n++
					}
				}
				return n <= 6
			}
			for i := range s.nodes {
				if !room(i) {
					continue
				}
				pat := key
				if i%2 == 1 {
					pat = "kache-http://o/*"
				}
				st = append(st, step{fmt.Sprintf("purge %s at %d", pat, i), func() { accept(s.purge(i, c.client, pat)) }})
			}
			if configs {
				for i := 0; i < 2 && room(i); i++ {
					st = append(st, step{fmt.Sprintf("config %d at %d", i, i), func() { accept(s.config(i, c.client, texts[i])) }})
				}
			}
			s.sortPending()
			for j, m := range s.pending {
				if j >= 2*len(s.nodes) {
					break
				}
				st = append(st, step{fmt.Sprintf("deliver %v to %d", m.op, m.to), func() { s.decide(m, "ok") }})
				if failures && j < 2 {
					st = append(st, step{fmt.Sprintf("fail %v to %d", m.op, m.to), func() { s.decide(m, "refused") }})
					if m.op.kind == "purge" {
						st = append(st, step{fmt.Sprintf("lose the answer of %d to %v", m.to, m.op), func() { s.decide(m, "lost answer") }})
					}
				}
			}
			if waits {
				st = append(st, step{"wait 4s", func() { s.wait(4 * time.Second) }}, step{"wait 7s", func() { s.wait(7 * time.Second) }})
			}
			k := st[vsched.Choose(len(st))]
			s.log = append(s.log, k.name)
			k.do()
			s.check()
		}
		s.log = append(s.log, "deliver the rest, get everywhere")
		s.finish(true)
		x.Outcome("%d responses made, %d calls", len(s.made), len(s.ops))
	}}
}

// access: callers of every kind against lists of every kind.
func access(prefix string) lib.Scenario {
	return lib.Scenario{Name: "access lists prefix=" + prefix, Cfg: vsched.Config{Bound: 0, MaxSteps: 200000, MaxFires: 1000}, Body: func(x *vsched.X) {
		acls := []func(int) string{open, restricted, func(i int) string {
			if i == 1 {
				return "203.0.113.5"
			}
			return ""
		}, func(i int) string {
			if i == 1 {
				return aclList
			}
			return "198.51.100.0/24,192.0.2.9,2001:db8::9"
		}}
		ai := vsched.Choose(len(acls))
		clients := []client{friend, friend6, proxied, chained, realIP, enemy}
		ci := vsched.Choose(len(clients))
		cl := clients[ci]
		nn := 2 + vsched.Choose(2)
		s := newSys(x, conf{nodes: nn, prefix: prefix, acl: acls[ai], client: cl})
		for i := range s.nodes {
			s.get(i, "/p")
		}
		at := vsched.Choose(nn)
		kind := vsched.Choose(4)
		s.log = append(s.log, fmt.Sprintf("lists %d client %+v nodes %d kind %d at %d", ai, cl, nn, kind, at))
		allowed := func(i int) bool {
			a := acls[ai](i)
			switch {
			case a == "":
				return true
			case ci == 5:
				return strings.Contains(a, "198.51.100.0/24")
			case ci == 1:
				return strings.Contains(a, "2001:db8::")
			default:
				return strings.Contains(a, "192.0.2.")
			}
		}
		forged := kind >= 2
		var code int
		switch kind {
		case 0:
			code = s.purge(at, cl, key)
		case 1:
			code = s.config(at, cl, texts[0])
		case 2, 3: // a caller pretends to be the cluster
			h := http.Header{"X-Kache-Cluster": {"Broadcast"}}
			for k, v := range cl.header {
				h[k] = v
			}
			f := client{cl.remote, h}
			if kind == 2 {
				code = s.call(at, f, "DELETE", s.apiPath("/cache/invalidate"), "", key, nil)
			} else {
				code = s.call(at, f, "PUT", s.apiPath("/cache/config/update"), texts[0], "", nil)
				if code == 200 {
					s.confs[at] = texts[0]
				}
			}
		}
		s.settle()
		if (code == 200) != allowed(at) {
			s.fail("the caller %+v gets %d from a node whose list is %q", cl, code, acls[ai](at))
		}
		if code != 200 || forged {
			if len(s.pending) > 0 {
				s.fail("a call that was refused, or is a broadcast itself, is broadcast: %v", s.pending[0].op)
			}
		}
		all := true
		for i := range s.nodes {
			all = all && allowed(i)
		}
		if code == 200 && !forged {
			s.check()
			if all {
				s.finish(true)
			} else {
				for i := 0; i < 8; i++ {
					s.deliverAll()
					s.wait(7 * time.Second)
				}
				for i := range s.nodes {
					if s.ops[0].delivered[i] != allowed(i) {
						s.fail("the broadcast of a call by %+v is accepted by node %d: %v, its list is %q", cl, i, s.ops[0].delivered[i], acls[ai](i))
					}
				}
			}
		}
		// who has the configuration, who has dropped its copy
		for i := range s.nodes {
			first := len(s.made)
			s.get(i, "/p")
			if code != 200 && len(s.made) != first {
				s.fail("a refused call has an effect on node %d", i)
			}
		}
		x.Outcome("lists %d client %d kind %d at %d of %d: %d", ai, ci, kind, at, nn, code)
	}}
}

// schedules: requests while a purge or an update is broadcast, at every interleaving.
func schedules(name string, nn int, pre string, calls []string, gets []int, bound int, plain bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("schedules %s nodes=%d before=%s gets=%v bound=%d plain=%v", name, nn, pre, gets, bound, plain), Race: true, Plain: plain, Cfg: vsched.Config{Bound: bound, MaxSteps: 200000, MaxFires: 1000}, Body: func(x *vsched.X) {
		s := newSys(x, conf{nodes: nn, acl: open, client: friend})
		s.auto = true
		switch pre {
		case "both tiers":
			for i := range s.nodes {
				s.get(i, "/p")
			}
		case "remote":
			s.get(nn-1, "/p")
			vsched.Sleep(l1TTL + time.Second)
		case "one node":
			s.get(nn-1, "/p")
		}
		old := len(s.made)
		s.points = true
		redisSrv.Sched = true
		for i, c := range calls {
			x.Go(c, func() {
				code := 0
				switch c {
				case "purge":
					code = s.purge(i%nn, friend, key)
				case "purge all":
					code = s.purge(i%nn, friend, "kache-http://o/*")
				case "config":
					code = s.config(i%nn, friend, texts[i%2])
				}
				if code != 200 {
					s.fail("%s is answered %d", c, code)
				}
			})
		}
		for _, g := range gets {
			x.Go("get", func() {
				r := world.ReadResult(s.nodes[g].rt.RoundTrip(world.NewRequest(nil2ctx, "GET", "http://o/p", nil, "")))
				if r.Err != nil || r.Status != 200 {
					s.fail("GET at node %d: %v", g, r)
				}
			})
		}
		x.Wait()
		x.Explore(func() {
			vsched.Block("deliveries", func() bool {
				for _, o := range s.ops {
					if len(o.delivered) < nn {
						return false
					}
				}
				return true
			})
		})
		x.Settle()
		redisSrv.Sched, s.points = false, false
		purged := false
		for _, o := range s.ops {
			if o.kind == "purge" {
				purged = true
			}
			if len(o.delivered) < nn {
				s.fail("%v was delivered to %v", o, o.delivered)
			}
			for i, n := range o.attempts {
				if n != 1 {
					s.fail("%v was sent to node %d %d times", o, i, n)
				}
			}
		}
		var ks []int
		for i, n := range s.nodes {
			r := world.ReadResult(n.rt.RoundTrip(world.NewRequest(nil2ctx, "GET", "http://o/p", nil, "")))
			k := -1
			fmt.Sscanf(string(r.Body), "%d", &k)
			if k < 0 {
				s.fail("GET at node %d: %v", i, r)
			}
			if purged && k < old {
				s.fail("after the purge was delivered everywhere node %d answers with response %d, stored before it (%d were made before)", i, k, old)
			}
			ks = append(ks, k)
		}
		x.Outcome("%v of %d", ks, len(s.made))
	}}
}

func main() {
	lib.Alphabet = "2-3 nodes (real handlers, API with access list, caching transport, layered store with local expiry, request queue) on one in-process Redis; requests and purges (exact, pattern) and updates at any node, delivery of any message in flight, failed deliveries, lost answers, waits; callers of 6 kinds against 4 arrangements of access lists; schedules of purges and updates with requests"
	lib.Assumptions = []string{"the exchanges between nodes are replaced at http.DefaultTransport", "writes to the remote store are applied when they are issued", "a configuration update whose delivery overlaps another's is only checked to arrive"}
	lib.Main("C24", 90*time.Second, 820*time.Second, func(c *lib.Check, p *lib.Part) {
		home := newKube()
		defer os.RemoveAll(home)
		sw := &theSwitch
		sw.rt = http.DefaultTransport
		http.DefaultTransport = sw
		resetRedis()
		d := 0
		if c.Thorough {
			d = 1
		}
		two := conf{name: "two nodes", nodes: 2, acl: open, client: friend}
		two6 := conf{name: "two nodes, access list, IPv6 client", nodes: 2, prefix: "a/b/", acl: restricted, client: friend6}
		three := conf{name: "three nodes", nodes: 3, acl: restricted, client: friend}
		direct := conf{name: "no local tier", nodes: 2, acl: open, client: friend, direct: true}
		scs := []lib.Scenario{
			access(""), access("adm"), access("/x/y/"),
			schedules("two purges", 2, "both tiers", []string{"purge", "purge all"}, nil, 1+d, false),
			schedules("two updates", 2, "both tiers", []string{"config", "config"}, nil, 1+d, false),
			schedules("update", 2, "both tiers", []string{"config"}, []int{0, 1}, 1+d, false),
			schedules("purge", 2, "both tiers", []string{"purge"}, []int{1}, 2+d, false),
			schedules("purge", 2, "remote", []string{"purge"}, []int{1}, 2+d, false),
			schedules("purge", 2, "one node", []string{"purge"}, []int{0, 1}, 1+d, false),
			schedules("purge by statement", 2, "remote", []string{"purge"}, []int{1}, 1, true),
			schedules("three nodes", 3, "one node", []string{"purge"}, []int{1}, 1, false),
			history(direct, 4+d, false, true, false, false),
			history(two, 4+d, false, false, true, true),
			history(two6, 4+d, true, false, false, false),
			history(three, 4+d, true, false, false, false),
			history(two, 5+d, false, true, false, false),
		}
		c.RunScenarios(p, scs)
	})
}
