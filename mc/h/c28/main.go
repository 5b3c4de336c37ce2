// Command c28 starts the real program with every configuration of a grid of faulty and correct
// sections, flags and surroundings, and compares what becomes of it with the configuration: refused
// with an error, or serving exactly as written.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/alicebob/miniredis/v2"
	"kverif/lib"
)

var dir string

func main() {
	n := 0
	for _, s := range sections {
		n += len(s.vars)
	}
	lib.Alphabet = fmt.Sprintf("the real program, started with %d variants of %d parts (listeners, upstreams, provider, cache, api, logging, cluster, file and flags: correct ones, faulty ones and ones of wrong type), all of them alone and in pairs (thorough: triples of the faulty ones as well); all of them offered to a running instance on reload", n, len(sections))
	lib.Assumptions = []string{"a variant that is neither clearly correct nor clearly faulty may be refused or obeyed", "a failure counts when it repeats three times"}
	lib.Main("C28", 80*time.Second, 600*time.Second, func(c *lib.Check, p *lib.Part) {
		var err error
		if dir, err = os.MkdirTemp("", "c28"); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		run(c, p)
	})
}

// kase is a choice of a variant per section (0: the plain one), started or offered on reload.
type kase struct {
	V      []int  `json:"v"`
	Reload string `json:"reload,omitempty"` // HUP or POST
}

func (k kase) String() string {
	var s []string
	for i, v := range k.V {
		if v != 0 {
			s = append(s, sections[i].name+": "+sections[i].vars[v].name)
		}
	}
	if len(s) == 0 {
		s = []string{"plain"}
	}
	if k.Reload != "" {
		return "reload (" + k.Reload + ") with " + strings.Join(s, ", ")
	}
	return "start with " + strings.Join(s, ", ")
}

func cases(thorough bool) (out []kase) {
	zero := func() []int { return make([]int, len(sections)) }
	out = append(out, kase{V: zero()})
	var all [][2]int
	for i, s := range sections {
		for v := 1; v < len(s.vars); v++ {
			all = append(all, [2]int{i, v})
			k := kase{V: zero()}
			k.V[i] = v
			out = append(out, k)
		}
	}
	for _, a := range all {
		for _, t := range []string{"HUP", "POST"} {
			k := kase{V: zero(), Reload: t}
			k.V[a[0]] = a[1]
			out = append(out, k)
		}
	}
	for n, a := range all {
		for _, b := range all[n:] {
			if a[0] == b[0] {
				continue
			}
			k := kase{V: zero()}
			k.V[a[0]], k.V[b[0]] = a[1], b[1]
			out = append(out, k)
			if thorough {
				k := kase{V: k.V, Reload: "POST"}
				out = append(out, k)
			}
		}
	}
	if thorough {
		key := func(a [2]int) bool { return sections[a[0]].vars[a[1]].key }
		for n, a := range all {
			for m, b := range all[n:] {
				for _, c := range all[n+m:] {
					if a[0] == b[0] || b[0] == c[0] || !key(a) || !key(b) || !key(c) {
						continue
					}
					k := kase{V: zero()}
					k.V[a[0]], k.V[b[0]], k.V[c[0]] = a[1], b[1], c[1]
					out = append(out, k)
				}
			}
		}
	}
	kept := out[:0]
	for _, k := range out { // a port of a listener needs the listener
		if !strings.Contains(sections[api_].vars[k.V[api_]].yaml, "{L1}") || strings.Contains(sections[0].vars[k.V[0]].yaml, "{L1}") {
			kept = append(kept, k)
		}
	}
	return kept
}

const api_ = 4

var redis, locked *miniredis.Miniredis
var origins [2]*http.Server
var oaddr [2]string
var hits atomic.Int64

func origin(i int) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	oaddr[i] = ln.Addr().String()
	origins[i] = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Cache-Control", "max-age=60")
		if strings.Contains(r.URL.Path, "/private-") {
			w.Header().Set("Cache-Control", "no-store")
		}
		w.Header().Set("Content-Type", "text/plain")
		fmt.Fprintf(w, "%c %s #%d", 'A'+i, r.URL.Path, hits.Add(1))
		if strings.Contains(r.URL.Path, "/big-") {
			fmt.Fprint(w, strings.Repeat(" ", 100000))
		}
	})}
	go func() { _ = origins[i].Serve(ln) }()
}

var portBase, portNext int
var portMu sync.Mutex

func port() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		portNext++
		p := portBase + portNext%1999
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			l.Close()
			return p
		}
	}
}

var serial atomic.Int64

// inst is a run of the program.
type inst struct {
	e     *exp
	dir   string
	cmd   *exec.Cmd
	out   output
	done  chan struct{}
	taken net.Listener
	env   *strings.Replacer
}

// text is the configuration of the chosen variants and what is expected of it.
func text(v []int) (string, *exp) {
	e := &exp{listen: []string{"127.0.0.1:{L1}"}, routes: [][2]string{{"/x", "A /x"}}, api: true, prefix: "/api", store: yes, strict: true, file: "k.yml", allowed: true}
	var b strings.Builder
	for i, s := range sections {
		x := s.vars[v[i]]
		if x.verdict > e.verdict {
			e.verdict = x.verdict
		}
		if x.exp != nil {
			x.exp(e)
		}
		if x.yaml != "" {
			b.WriteString(x.yaml)
			if !strings.HasSuffix(x.yaml, "\n") {
				b.WriteString("\n")
			}
		}
	}
	s := b.String()
	if e.rewrite != nil {
		s = e.rewrite(s)
	}
	return s, e
}

func start(v []int) *inst {
	in := &inst{done: make(chan struct{})}
	in.dir, _ = os.MkdirTemp(dir, "run")
	var err error
	if in.taken, err = net.Listen("tcp", ":0"); err != nil {
		panic(err)
	}
	_, tp, _ := net.SplitHostPort(in.taken.Addr().String())
	in.env = strings.NewReplacer(
		"{L1}", fmt.Sprint(port()), "{L2}", fmt.Sprint(port()), "{L3}", fmt.Sprint(port()), "{API}", fmt.Sprint(port()),
		"{A}", oaddr[0], "{B}", oaddr[1], "{REDIS}", redis.Addr(), "{LOCKED}", locked.Addr(), "{DEAD}", fmt.Sprintf("127.0.0.1:%d", port()),
		"{TAKEN}", tp, "{DIR}", in.dir)
	conf, e := text(v)
	in.e = e
	in.write(conf, e)
	if e.kube {
		_ = os.MkdirAll(filepath.Join(in.dir, ".kube"), 0o700)
		_ = os.WriteFile(filepath.Join(in.dir, ".kube", "config"), []byte(in.env.Replace(kubeconfig)), 0o600)
	}
	args := e.args
	if args == nil {
		args = []string{"-config.file", "{DIR}/k.yml"}
	}
	args = append([]string(nil), args...)
	for i := range args {
		args[i] = in.env.Replace(args[i])
	}
	in.cmd = exec.Command(os.Getenv("KV_KACHE"), args...)
	in.cmd.Dir = in.dir
	in.cmd.Env = []string{"HOME=" + in.dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + in.dir, "GOMAXPROCS=2"}
	in.cmd.Stdout, in.cmd.Stderr = &in.out, &in.out
	if err := in.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { _ = in.cmd.Wait(); close(in.done) }()
	return in
}

func (in *inst) write(conf string, e *exp) {
	if e.file == "" {
		return
	}
	f := filepath.Join(in.dir, e.file)
	tmp := f + ".new"
	_ = os.WriteFile(tmp, []byte(in.env.Replace(conf)), 0o600)
	_ = os.Rename(tmp, f)
}

func (in *inst) end() {
	_ = in.cmd.Process.Kill()
	<-in.done
	in.taken.Close()
	os.RemoveAll(in.dir)
}

func (in *inst) gone() bool {
	select {
	case <-in.done:
		return true
	default:
		return false
	}
}

// output collects what the program writes.
type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(b []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(b)
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

func (o *output) Len() int { return len(o.String()) }

type resp struct {
	code int
	body string
	h    http.Header
}

func call(method, url string) (*resp, error) {
	c := http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	defer c.CloseIdleConnections()
	r, _ := http.NewRequest(method, url, nil)
	res, err := c.Do(r)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return &resp{res.StatusCode, string(b), res.Header}, err
}

func (in *inst) crashed() string {
	s := in.out.String()
	for _, m := range []string{"panic:", "fatal error:", "SIGSEGV", "goroutine 1 ["} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			if len(s) > 300 {
				s = s[:300]
			}
			return strings.Join(strings.Fields(s), " ")
		}
	}
	return ""
}

func cut(b string) string {
	b = strings.Join(strings.Fields(b), " ")
	if len(b) > 200 {
		b = "…" + b[len(b)-200:]
	}
	return b
}

const patience = 20 * time.Second

// refusal judges a program that has ended.
func (in *inst) refusal() string {
	if m := in.crashed(); m != "" {
		return "it crashes: " + m
	}
	code := in.cmd.ProcessState.ExitCode()
	if in.e.info {
		if code != 0 {
			return fmt.Sprintf("exit code %d", code)
		}
		if in.out.Len() == 0 {
			return "it prints nothing"
		}
		return ""
	}
	if in.e.verdict == run_ {
		return fmt.Sprintf("it is refused (exit code %d: %s)", code, cut(in.out.String()))
	}
	if code == 0 {
		return "it ends with exit code 0"
	}
	if code < 0 {
		return "it is killed by a signal: " + in.cmd.ProcessState.String()
	}
	if in.out.Len() == 0 && in.e.log == "" && !in.e.mute {
		return "it is refused without a word"
	}
	return ""
}

// up waits for the listeners or the end; it returns whether the program is up.
func (in *inst) up() (bool, string) {
	t0 := time.Now()
	if len(in.e.listen) == 0 { // nothing to observe: it lives or not
		for time.Since(t0) < 400*time.Millisecond && !in.gone() {
			time.Sleep(2 * time.Millisecond)
		}
		return !in.gone(), ""
	}
	pending := append([]string(nil), in.e.listen...)
	if in.e.api {
		pending = append(pending, "127.0.0.1:{API}")
	}
	last := ""
	for n := 0; len(pending) > 0; n++ {
		if in.gone() {
			return false, ""
		}
		c, err := net.DialTimeout("tcp", in.env.Replace(pending[0]), time.Second)
		if err == nil {
			c.Close()
			pending = pending[1:]
			continue
		}
		last = err.Error()
		if time.Since(t0) > patience {
			return false, fmt.Sprintf("after %s it has not ended, and %s does not answer (%s)", patience, in.env.Replace(pending[0]), last)
		}
		time.Sleep(time.Millisecond * time.Duration(1+min(n, 20)))
	}
	if in.e.verdict == refuse { // it may still be about to end
		for t0 := time.Now(); time.Since(t0) < 3*time.Second && !in.gone(); {
			time.Sleep(2 * time.Millisecond)
		}
	}
	return !in.gone(), ""
}

// serving judges a program that runs.
func (in *inst) serving(tag string) string {
	e := in.e
	n := serial.Add(1)
	for _, l := range e.listen {
		for i, r := range e.routes {
			u := fmt.Sprintf("http://%s%s/%s%d", in.env.Replace(l), r[0], tag, n)
			want := fmt.Sprintf("%s/%s%d #", r[1], tag, n)
			res, err := call("GET", u)
			if err != nil {
				return fmt.Sprintf("GET %s: %v", u, err)
			}
			if res.code != 200 || !strings.HasPrefix(res.body, want) {
				return fmt.Sprintf("GET %s: %d %q, not %q", u, res.code, cut(res.body), want)
			}
			if i > 0 && l != e.listen[0] || e.store == any_ {
				continue
			}
			if f := in.stored(u, res); f != "" {
				return f
			}
		}
	}
	if f := in.wired(tag, n); f != "" {
		return f
	}
	if !e.api {
		return ""
	}
	api := in.env.Replace("http://127.0.0.1:{API}")
	type ask struct {
		path string
		code int
		has  string
	}
	asks := []ask{{e.prefix + "/cache/config", 200, `"strict"`}, {"/version", 200, ""}, {"/metrics", 200, "kache"}, {"/debug/vars", 404, ""}, {"/debug/pprof/", 404, ""}}
	if e.debug {
		asks[3].code, asks[4].code = 200, 200
	}
	if e.prefix != "/api" {
		asks = append(asks, ask{"/api/cache/config", 404, ""})
	}
	for _, a := range asks {
		denied := !e.allowed && a.code == 200
		res, err := call("GET", api+a.path)
		if err != nil {
			return fmt.Sprintf("GET %s on the API: %v", a.path, err)
		}
		if denied {
			if res.code/100 != 4 || res.code == 404 {
				return fmt.Sprintf("GET %s on the API: %d %q, although denied", a.path, res.code, cut(res.body))
			}
			continue
		}
		if res.code != a.code || !strings.Contains(res.body, a.has) {
			return fmt.Sprintf("GET %s on the API: %d %q, not %d", a.path, res.code, cut(res.body), a.code)
		}
	}
	if e.allowed && len(e.config) > 0 && tag == "s" {
		res, err := call("GET", api+e.prefix+"/cache/config")
		if err != nil {
			return err.Error()
		}
		got := strings.Join(strings.Fields(res.body), "")
		for _, w := range e.config {
			if !strings.Contains(got, w) {
				return fmt.Sprintf("the configuration in force lacks %s: %s", w, got)
			}
		}
	}
	return in.logged(tag)
}

// wired checks the settings that show in requests of their own.
func (in *inst) wired(tag string, n int64) string {
	e := in.e
	if len(e.listen) == 0 || len(e.routes) == 0 || e.store != yes {
		return ""
	}
	for _, q := range []struct {
		kind string
		kept bool
	}{{"private", !e.strict}, {"big", !e.small}} {
		if q.kind == "private" && e.strict && e.loose {
			continue
		}
		u := fmt.Sprintf("http://%s%s/%s-%s%d", in.env.Replace(e.listen[0]), e.routes[0][0], q.kind, tag, n)
		var first string
		for t0, i := time.Now(), 0; ; i++ {
			res, err := call("GET", u)
			if err != nil || res.code != 200 {
				return fmt.Sprintf("GET %s: %v %v", u, res, err)
			}
			if i > 0 && res.body == first {
				if !q.kept {
					return fmt.Sprintf("GET %s is answered from the store", u)
				}
				break
			}
			if !q.kept && i == 2 {
				break
			}
			if q.kept && time.Since(t0) > 3*time.Second {
				return fmt.Sprintf("GET %s is never answered from the store", u)
			}
			first = res.body
			time.Sleep(2 * time.Millisecond)
		}
	}
	if e.db != "" {
		found := false
		for _, k := range e.redis().DB(int(e.db[0] - '0')).Keys() {
			found = found || strings.Contains(k, fmt.Sprintf("%s%d", tag, n))
		}
		if !found {
			return "the response is not in database " + e.db
		}
	}
	return ""
}

// logged checks that what is logged, and where, is what is asked for.
func (in *inst) logged(tag string) string {
	e := in.e
	if tag != "s" || e.level == "" && e.log == "" {
		return ""
	}
	read := func() string { return in.out.String() }
	if e.log != "" {
		read = func() string { b, _ := os.ReadFile(in.env.Replace(e.log)); return string(b) }
	}
	want := map[string]string{"debug": "Starting server", "trace": "Starting server", "info": "Kache is starting"}[e.level]
	for t0 := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		s := read()
		if want == "" || strings.Contains(s, want) {
			for _, no := range []string{"Starting server", "Kache is starting"} {
				if no == "Starting server" && want == no || no == "Kache is starting" && want != "" {
					continue
				}
				if strings.Contains(s, no) {
					return fmt.Sprintf("%q is logged at level %q", no, e.level)
				}
			}
			for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
				if e.json && l != "" && !strings.HasPrefix(l, "{") {
					return fmt.Sprintf("it logs %q, not JSON", l)
				}
				if !e.json && strings.HasPrefix(l, "{") {
					return fmt.Sprintf("it logs %q", l)
				}
			}
			return ""
		}
		if time.Since(t0) > 2*time.Second {
			return fmt.Sprintf("%q is not logged (level %s): %s", want, e.level, cut(s))
		}
	}
}

func (in *inst) stored(u string, first *resp) string {
	e := in.e
	t0 := time.Now()
	for {
		res, err := call("GET", u)
		if err != nil {
			return fmt.Sprintf("GET %s again: %v", u, err)
		}
		if res.code != 200 {
			return fmt.Sprintf("GET %s again: %d", u, res.code)
		}
		hit := res.body == first.body
		if e.xname != "" {
			want := map[bool]string{true: "HIT", false: "MISS"}[hit]
			if got := res.h.Get(e.xname); !strings.EqualFold(got, want) && e.xname != "-" {
				return fmt.Sprintf("GET %s again: %s is %q, not %s", u, e.xname, got, want)
			}
		}
		if e.store == no {
			if hit {
				return fmt.Sprintf("GET %s is answered from the store", u)
			}
			return ""
		}
		if hit {
			return ""
		}
		if time.Since(t0) > 3*time.Second {
			return fmt.Sprintf("GET %s is never answered from the store", u)
		}
		first = res
		time.Sleep(3 * time.Millisecond)
	}
}

func runCase(k kase) string {
	if k.Reload != "" {
		return reloadCase(k)
	}
	in := start(k.V)
	defer in.end()
	up, fail := in.up()
	if fail != "" {
		return fail
	}
	if !up {
		return in.refusal()
	}
	if in.e.verdict == refuse || in.e.info {
		return "it is not refused, it serves"
	}
	if f := in.serving("s"); f != "" {
		if in.gone() {
			return in.refusal()
		}
		return f
	}
	if in.e.dwell {
		time.Sleep(60 * time.Millisecond)
	}
	if in.gone() {
		if m := in.crashed(); m != "" {
			return "it crashes after it has served: " + m
		}
		return "it ends after it has served: " + cut(in.out.String())
	}
	if m := in.crashed(); m != "" {
		return "a request crashes: " + m
	}
	return ""
}

// reloadCase offers the configuration to an instance that serves the plain one.
func reloadCase(k kase) string {
	conf, e := text(k.V)
	in := start(make([]int, len(sections)))
	defer in.end()
	if up, f := in.up(); !up {
		return "plain: " + f + in.refusal()
	}
	if f := in.serving("p"); f != "" {
		return "plain: " + f
	}
	before, err := call("GET", in.env.Replace("http://127.0.0.1:{API}/api/cache/config"))
	if err != nil {
		return err.Error()
	}
	f := *e
	f.file = "k.yml"
	in.write(conf, &f)
	if e.absent {
		_ = os.Remove(filepath.Join(in.dir, "k.yml"))
	}
	if k.Reload == "HUP" {
		_ = in.cmd.Process.Signal(syscall.SIGHUP)
		time.Sleep(20 * time.Millisecond)
	} else {
		res, err := call("POST", in.env.Replace("http://127.0.0.1:{API}/api/cache/config/reload"))
		if err != nil {
			return fmt.Sprintf("the reload is not answered: %v; %s", err, in.crashed())
		}
		if res.code != 200 && res.code != 400 {
			return fmt.Sprintf("the reload is answered with %d", res.code)
		}
		if e.unreadable && res.code == 200 {
			return "the reload of an unreadable file is answered with 200"
		}
	}
	if e.unreadable {
		after, err := call("GET", in.env.Replace("http://127.0.0.1:{API}/api/cache/config"))
		if err != nil {
			return err.Error()
		}
		if after.body != before.body {
			return "an unreadable file changes the configuration to " + cut(after.body)
		}
	}
	in.e.store, in.e.xname, in.e.strict, in.e.loose = e.store, e.xname, e.strict, e.loose
	if e.unreadable {
		in.e.store, in.e.xname, in.e.strict, in.e.loose = yes, "", true, false
	}
	if k.Reload == "HUP" {
		in.e.store, in.e.xname = any_, ""
	}
	if f := in.serving("r"); f != "" {
		return f + "; " + in.crashed()
	}
	if in.gone() {
		return "it ends: " + in.crashed() + " " + cut(in.out.String())
	}
	if m := in.crashed(); m != "" {
		return "a request crashes: " + m
	}
	return ""
}

func run(c *lib.Check, p *lib.Part) {
	var err error
	if redis, err = miniredis.Run(); err != nil {
		panic(err)
	}
	defer redis.Close()
	if locked, err = miniredis.Run(); err != nil {
		panic(err)
	}
	defer locked.Close()
	locked.RequireUserAuth("u", "pw")
	origin(0)
	origin(1)
	portBase = 10000 + c.Shard*2000
	if c.Shard < 0 || c.Shard > 12 {
		portBase = 30000
	}
	var todo []kase
	if c.Replay != nil {
		var k kase
		_ = json.Unmarshal(c.Replay, &k)
		todo = []kase{k}
	} else {
		for i, k := range cases(c.Thorough) {
			if i%c.Of == c.Shard {
				todo = append(todo, k)
			}
		}
	}
	lib.Doing("configurations")
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next == len(todo) || c.Expired(p, "configurations") {
					mu.Unlock()
					return
				}
				k := todo[next]
				next++
				mu.Unlock()
				fail, runs, sure := "", 0, 0
				t0 := time.Now()
				for sure < 3 {
					runs++
					f := runCase(k)
					if f == "" {
						break
					}
					if os.Getenv("KV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "TRY", k, f)
					}
					fail = f
					sure++
				}
				if d := time.Since(t0); d > 2*time.Second && os.Getenv("KV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SLOW", d, runs, k, fail)
				}
				mu.Lock()
				n := 0
				for _, v := range k.V {
					if v != 0 {
						n++
					}
				}
				name := fmt.Sprintf("start, %d parts changed", n)
				if k.Reload != "" {
					name = fmt.Sprintf("reload, %d parts changed", n)
				}
				p.Traces++
				p.Ops++
				p.Scenarios[name]++
				if sure == 3 {
					p.Fail(fmt.Sprint("start:", k.V, k.Reload), k.String()+": "+fail, k)
				} else if sure > 0 {
					p.Extra["unsure"]++
				}
				p.State(k.V, k.Reload)
				_, e := text(k.V)
				p.Outcome(fmt.Sprint(k.Reload, [...]string{"serving", "either", "refused"}[e.verdict]))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
