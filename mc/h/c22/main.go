// C22: configuration reloads follow the file and never break a running proxy.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/kache"
	"github.com/kacheio/kache/pkg/server/middleware"
	"kverif/lib"
	"kverif/vsched"
	"kverif/vsignal"
	"kverif/world"
)

// base is the rest of a configuration file.
const base = "listeners:\n  l:\n    addr: 127.0.0.1:0\nupstreams:\n- name: u\n  addr: http://127.0.0.1:9\n  path: /\nprovider:\n  backend: inmemory\n  inmemory:\n    max_size: 1000000\n    max_item_size: 100000\napi:\n  port: 9\n"

// set is what the configuration in force is expected to be.
type set struct {
	Strict        bool
	X             bool
	Name, TTL, CC string
	Force         bool
	Timeouts      int
	Exclude       bool
}

var def = set{Strict: true}

type content struct {
	name string
	text string
	want *set // nil: invalid
	kind byte // 'd' directory, 'm' missing
}

var contents = []content{
	{"v0", base + "cache:\n  strict: true\n  default_ttl: 10s\n", &set{Strict: true, TTL: "10s"}, 0},
	{"v1", base + "cache:\n  x_header: true\n", &set{Strict: true, X: true}, 0},
	{"v2", base + "cache:\n  strict: false\n  x_header: true\n  x_header_name: x-b\n", &set{X: true, Name: "x-b"}, 0},
	{"invalid section", base + "cache: [1]\n", nil, 0},
	{"nosection", base, &def, 0},
	{"null section", base + "cache:\n", &def, 0},
	{"missing", "", nil, 'm'},
	{"unknown field", base + "cache:\n  strict: false\n  bogus: 1\n", nil, 0},
	{"v3", base + "cache:\n  strict: true\n  default_cache_control: no-cache\n  force_cache_control: true\n  timeouts:\n  - path: ^/a\n    ttl: 3s\n  exclude:\n    path: [\"^/x\"]\n    header: {x-a: b}\n    content:\n    - type: text/.*\n      size: 3\n", &set{Strict: true, CC: "no-cache", Force: true, Timeouts: 1, Exclude: true}, 0},
	{"empty section", base + "cache: {}\n", &def, 0},
	{"v1 in other words", "# comment\n" + base + "cache: {x_header: true}\n", &set{Strict: true, X: true}, 0},
	{"cache only", "cache:\n  strict: false\n", &set{}, 0},
	{"empty", "", nil, 0},
	{"comment", "# nothing\n", nil, 0},
	{"bad value", base + "cache:\n  strict: maybe\n  x_header: true\n", nil, 0},
	{"no YAML", "a: b: c\n", nil, 0},
	{"tab", base + "cache:\n\tstrict: false\n", nil, 0},
	{"list", "- x\n", nil, 0},
	{"scalar", "cache: 5\n", nil, 0},
	{"binary", "\x00\xff\xfe{{{", nil, 0},
	{"late error", base + "cache:\n  strict: false\nlogging: [2]\n", nil, 0},
	{"timeouts", base + "cache:\n  timeouts: 7\n  strict: false\n", nil, 0},
	{"unknown section", base + "cache:\n  strict: false\nextra: 1\n", nil, 0},
	{"directory", "", nil, 'd'},
}

func ix(name string) int {
	for i, c := range contents {
		if c.name == name {
			return i
		}
	}
	panic(name)
}

// sim is files replaced by newer, by older and by ones of the same time and size; the whole program under the scheduler, with virtual signals, time and listeners.
type sim struct {
	x    *vsched.X
	file string
	k    *kache.Kache
	err  error
	ran  bool // Run returned
}

type fakeListener struct{ addr net.Addr }

// accepting orders what precedes the API server's start before the requests it serves.
var accepting int

func (l fakeListener) Accept() (net.Conn, error) {
	vsched.RaceReleaseMerge(unsafe.Pointer(&accepting))
	vsched.Block("accept", func() bool { return false })
	return nil, errors.New("closed")
}
func (l fakeListener) Close() error   { return nil }
func (l fakeListener) Addr() net.Addr { return l.addr }

var dir string

// stamps: 0 files get their natural modification time, 1 every file is older than the one before,
// 2 all have the same time and the same size.
var stamps int

var stamp time.Time

func (s *sim) write(c content) {
	if stamps == 2 && c.kind == 0 {
		if n := 2000 - len(c.text); n > 2 {
			c.text += "\n#" + strings.Repeat("-", n-2)
		}
	}
	defer func() {
		if stamps == 1 {
			stamp = stamp.Add(-time.Hour)
		}
		if stamps > 0 && c.kind == 0 {
			if err := os.Chtimes(s.file, stamp, stamp); err != nil {
				panic(err)
			}
		}
	}()
	switch c.kind {
	case 'm':
		os.RemoveAll(filepath.Join(dir, "k.yml"))
	case 'd':
		os.RemoveAll(filepath.Join(dir, "k.yml"))
		_ = os.Mkdir(filepath.Join(dir, "k.yml"), 0o700)
	default:
		if st, err := os.Stat(s.file); err == nil && st.IsDir() {
			os.RemoveAll(filepath.Join(dir, "k.yml"))
		}
		if err := os.WriteFile(s.file, []byte(c.text), 0o600); err != nil {
			panic(err)
		}
	}
}

// start runs the program with the given initial content until it waits.
func start(x *vsched.X, c content, watch bool) *sim {
	vsignal.Reset()
	s := &sim{x: x, file: filepath.Join(dir, "k.yml")}
	s.write(c)
	l, err := config.NewLoader(s.file, watch, 10*time.Second)
	if err != nil {
		panic(err)
	}
	if s.k, err = kache.New(l, nil); err != nil {
		panic(err)
	}
	return s
}

func (s *sim) run() *sim {
	vsched.GoQuiet("program", func() {
		s.err = s.k.Run()
		s.ran = true
	})
	s.x.SettleTime(1) // Run pauses for a moment
	return s
}

func (s *sim) api(m, p, body string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	vsched.RaceAcquire(unsafe.Pointer(&accepting))
	s.k.API.ServeHTTP(w, httptest.NewRequest(m, "http://k"+p, strings.NewReader(body)))
	return w
}

func (s *sim) reload() bool {
	w := s.api("POST", "/api/cache/config/reload", "")
	if w.Code != 200 && (w.Code < 400 || w.Code > 599 || w.Code == 404 || w.Code == 405) {
		s.x.Fail("reload answers %d", w.Code)
	}
	return w.Code == 200
}

// shown asks for the configuration in force.
func (s *sim) shown() set {
	w := s.api("GET", "/api/cache/config", "")
	var m struct {
		Strict   bool   `json:"strict"`
		X        bool   `json:"x_header"`
		Name     string `json:"x_header_name"`
		TTL      string `json:"default_ttl"`
		CC       string `json:"default_cache_control"`
		Force    bool   `json:"force_cache_control"`
		Timeouts []any  `json:"timeouts"`
		Exclude  any    `json:"exclude"`
	}
	if err := json.Unmarshal(w.Body.Bytes(), &m); err != nil || w.Code != 200 {
		s.x.Fail("configuration request: %d %s", w.Code, w.Body)
	}
	return set{m.Strict, m.X, m.Name, m.TTL, m.CC, m.Force, len(m.Timeouts), m.Exclude != nil}
}

var probes int

// probe checks how requests are treated.
func (s *sim) probe(c set) string {
	probes++
	tr := middleware.NewCachedTransport(s.k.Cache, nil)
	n := 0
	tr.Transport = rt(func(r *http.Request) (*http.Response, error) {
		n++
		return world.Parse(world.Raw(200, "x", "Cache-Control: no-store", "Content-Type: image/png", "Date: "+world.Date(world.Now())), r)
	})
	var res *world.Result
	for i := 0; i < 2; i++ {
		res = world.ReadResult(tr.RoundTrip(world.NewRequest(context.Background(), "GET", fmt.Sprintf("http://o/p%d", probes), http.Header{}, "")))
	}
	name := c.Name
	if name == "" {
		name = "X-Kache"
	}
	cached := n == 1
	want := !c.Strict
	marker := c.X && want
	if c.CC != "" && c.Force { // no-cache: stored, validated every time with a full answer
		want, marker = false, false
	}
	if cached != want || (res.Header.Get(name) == "HIT") != marker {
		return fmt.Sprintf("a response with no-store is answered from the cache: %v (expected %v), marked by %s: %q (expected %v)", cached, want, name, res.Header[http.CanonicalHeaderKey(name)], marker)
	}
	return ""
}

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// histories: sequences of (new content or none, trigger), each settled.
func histories(depth, ncont int, watch, put bool) lib.Scenario {
	return stamped(0, depth, ncont, watch, put)
}

func stamped(mode, depth, ncont int, watch, put bool) lib.Scenario {
	trig := 2
	if watch {
		trig = 3
	}
	if put {
		trig = 4
	}
	return lib.Scenario{Name: fmt.Sprintf("histories depth=%d contents=%d watch=%v put=%v stamps=%d", depth, ncont, watch, put, mode), Cfg: vsched.Config{Bound: 0, MaxSteps: 100000}, Body: func(x *vsched.X) {
		stamps, stamp = mode, time.Unix(1700000000, 0)
		defer func() { stamps = 0 }()
		s := start(x, contents[0], watch).run()
		cur := 0      // the file
		loaded := def // the configuration in force
		loaded = *contents[0].want
		last := 0 // the last valid content observed
		var hist []string
		for i := 0; i < depth; i++ {
			op := vsched.Choose((ncont + 1) * trig)
			c, t := op/trig-1, op%trig
			if c >= 0 {
				cur = c
				s.write(contents[c])
				hist = append(hist, "write "+contents[c].name)
			}
			hist = append(hist, []string{"reload", "SIGHUP", "interval", "PUT"}[t])
			switch t {
			case 0:
				if ok := s.reload(); ok != (contents[cur].want != nil) {
					x.Fail("%v: reload of content %q reports success: %v", hist, contents[cur].name, ok)
				}
			case 1:
				vsignal.Send(syscall.SIGHUP)
			case 2:
				x.SettleTime(1)
			case 3:
				if w := s.api("PUT", "/api/cache/config/update", "x_header: true\nx_header_name: x-put\nstrict: false\n"); w.Code != 200 {
					x.Fail("%v: PUT answers %d", hist, w.Code)
				}
				loaded = set{X: true, Name: "x-put"}
			}
			x.Settle()
			if w := contents[cur].want; w != nil && t != 3 && contents[cur].text != contents[last].text {
				loaded, last = *w, cur
			}
			if s.ran {
				x.Fail("%v: the program ended (%v)", hist, s.err)
			}
			if g := s.shown(); g != loaded {
				x.Fail("%v: the configuration in force is %+v, expected %+v", hist, g, loaded)
			}
			if w := s.probe(loaded); w != "" {
				x.Fail("%v: configuration %+v: %s", hist, loaded, w)
			}
		}
		x.Outcome("%+v", loaded)
	}}
}

// prefixes: every prefix of a file; the same content given at the start decides what is expected.
func prefixes(watch bool) lib.Scenario {
	text := contents[ix("v3")].text
	return lib.Scenario{Name: fmt.Sprintf("prefixes watch=%v", watch), Cfg: vsched.Config{Bound: 0, MaxSteps: 100000}, Body: func(x *vsched.X) {
		n := vsched.Choose(len(text)+1-len(base)) + len(base)
		t := vsched.Choose(2)
		c := content{text: text[:n]}
		var want *set
		f := filepath.Join(dir, "fresh.yml")
		_ = os.WriteFile(f, []byte(c.text), 0o600)
		if l, err := config.NewLoader(f, false, time.Second); err == nil {
			if k, err := kache.New(l, nil); err == nil {
				g := (&sim{x: x, k: k}).shown()
				want = &g
			}
		}
		s := start(x, contents[ix("v2")], watch).run()
		exp := *contents[ix("v2")].want
		s.write(c)
		if t == 0 {
			if ok := s.reload(); ok != (want != nil) {
				x.Fail("reload of a file cut after %d bytes reports success: %v", n, ok)
			}
		} else {
			vsignal.Send(syscall.SIGHUP)
		}
		x.Settle()
		if want != nil {
			exp = *want
		}
		if g := s.shown(); g != exp {
			x.Fail("file cut after %d bytes: configuration in force %+v, expected %+v", n, g, exp)
		}
		s.write(contents[1])
		vsignal.Send(syscall.SIGHUP)
		x.Settle()
		if g := s.shown(); g != *contents[1].want {
			x.Fail("valid file after one cut after %d bytes: configuration in force %+v", n, g)
		}
		x.Outcome("%v", want != nil)
	}}
}

// early: the file changes after the program read it and before it runs.
func early() lib.Scenario {
	return lib.Scenario{Name: "changed before the start", Cfg: vsched.Config{Bound: 0, MaxSteps: 100000}, Body: func(x *vsched.X) {
		c := contents[vsched.Choose(len(contents))]
		t := vsched.Choose(3)
		s := start(x, contents[0], true)
		s.write(c)
		s.run()
		if s.ran { // an invalid file may be refused at the start
			t = 3
		}
		switch t {
		case 0:
			if ok := s.reload(); ok != (c.want != nil) {
				x.Fail("content %q before the start: reload reports success: %v", c.name, ok)
			}
		case 1:
			vsignal.Send(syscall.SIGHUP)
		case 2:
			x.SettleTime(1)
		}
		x.Settle()
		if s.ran && (c.want != nil || s.err == nil) {
			x.Fail("content %q before the start: the program ended: %v", c.name, s.err)
		}
		exp := *contents[0].want
		if c.want != nil {
			exp = *c.want
		}
		if g := s.shown(); g != exp && !s.ran {
			x.Fail("content %q before the start, then %s: configuration in force %+v, expected %+v", c.name, []string{"reload", "SIGHUP", "interval"}[t], g, exp)
		}
	}}
}

// concurrent: threads of operations: a content index (write), -1 API reload, -2 SIGHUP, -3 show,
// -4 time passes.
func concurrent(name string, watch bool, threads [][]int, bound int, plain, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("concurrent %s watch=%v bound=%d plain=%v", name, watch, bound, plain), Race: race, Plain: plain, Cfg: vsched.Config{Bound: bound, MaxSteps: 100000, EarlyTimers: watch, MaxFires: 40}, Body: func(x *vsched.X) {
		s := start(x, contents[0], watch).run()
		clock := 0
		tick := func() int { clock++; return clock }
		type ver struct{ c, at int }
		vers := []ver{{0, tick()}}
		type obs struct {
			from, to int
			ok       bool
		}
		var reloads []obs
		floor := 0 // version current when the last acknowledged successful reload began
		at := func(t int) (i int) {
			for j, v := range vers {
				if v.at <= t {
					i = j
				}
			}
			return
		}
		// legal: the configuration is one of a valid version not older than the floor (or the last
		// valid before it) and current at or before to
		legal := func(g set, floor int) bool {
			i := floor
			for i > 0 && contents[vers[i].c].want == nil {
				i--
			}
			for ; i < len(vers); i++ {
				if w := contents[vers[i].c].want; w != nil && *w == g {
					return true
				}
			}
			return false
		}
		for i, th := range threads {
			x.Go(fmt.Sprint("t", i), func() {
				for _, o := range th {
					switch {
					case o >= 0:
						vsched.Op("write")
						s.write(contents[o])
						vers = append(vers, ver{o, tick()})
					case o == -1:
						r := obs{from: tick()}
						r.ok = s.reload()
						r.to = tick()
						reloads = append(reloads, r)
						good, bad := false, false
						for j := at(r.from); j < len(vers); j++ {
							if contents[vers[j].c].want != nil {
								good = true
							} else {
								bad = true
							}
						}
						if r.ok && !good || !r.ok && !bad {
							x.Fail("reload reports success: %v, versions meanwhile %v", r.ok, vers[at(r.from):])
						}
						if f := at(r.from); r.ok && f > floor {
							floor = f
						}
					case o == -2:
						vsignal.Send(syscall.SIGHUP)
					case o == -3:
						f := floor
						if g := s.shown(); !legal(g, f) {
							x.Fail("configuration in force %+v after versions %v (acknowledged from number %d)", g, vers, f)
						}
					case o == -4:
						vsched.Sleep(11 * time.Second)
					}
				}
			})
		}
		x.Wait()
		x.Settle()
		if s.ran {
			x.Fail("the program ended: %v", s.err)
		}
		g := s.shown()
		if !legal(g, floor) {
			x.Fail("after everything: configuration in force %+v after versions %v (acknowledged from number %d)", g, vers, floor)
		}
		if watch { // the file is looked at again: nothing stays unnoticed
			x.SettleTime(6)
			g = s.shown()
			if w := contents[vers[len(vers)-1].c].want; w != nil && g != *w {
				x.Fail("several watch intervals after the last change: configuration in force %+v after versions %v", g, vers)
			}
		}
		// a last trigger
		c := contents[vers[len(vers)-1].c]
		if ok := s.reload(); ok != (c.want != nil) {
			x.Fail("last reload of %q reports success: %v", c.name, ok)
		}
		g2 := s.shown()
		if c.want != nil && g2 != *c.want || c.want == nil && g2 != g {
			x.Fail("after a last reload of %q: configuration in force %+v (before %+v)", c.name, g2, g)
		}
		x.Outcome("%+v %v", g, floor)
	}}
}

func main() {
	lib.Alphabet = fmt.Sprintf("%d file contents (valid, partial, invalid in 13 ways, missing, directory) and every prefix of a file; triggers API, SIGHUP and watch interval; files replaced by newer, by older and by ones of the same time and size; the whole program under the scheduler with virtual signals, time and listeners; the real binary for a set of histories", len(contents))
	lib.Assumptions = []string{"the file is replaced at once (an intermediate content counts as a content)", "net/http and the API's router run uninstrumented", "sequentially consistent memory between instrumented points; unsynchronised accesses are looked for in the race-detector pass"}
	net.VerifListen = func(network, address string) (net.Listener, error) {
		if !vsched.Active() {
			return nil, nil
		}
		return fakeListener{&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}}, nil
	}
	lib.Main("C22", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		var err error
		if dir, err = os.MkdirTemp("", "c22"); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		if !vsched.RaceMode {
			binary(c, p)
		}
		d := 0
		if c.Thorough {
			d = 1
		}
		n := len(contents)
		inv, v1, v2 := ix("invalid section"), 1, 2
		scs := []lib.Scenario{
			early(),
			prefixes(false),
			histories(2, n, true, false), histories(3, 6+4*d, true, false), histories(4, 3+d, false, false), histories(3, 3+d, true, true), histories(4, 1+d, true, true), histories(5+d, 1, false, false),
			stamped(1, 3, 6+d, true, false), stamped(2, 3, 6+d, true, false), stamped(1, 2, n, false, false), stamped(2, 2, n, false, false),
			concurrent("change, reload", false, [][]int{{v1}, {-1}, {-3, -3}}, 3+d, false, true),
			concurrent("two reloads", false, [][]int{{v1, -1}, {v2, -1}}, 3+d, false, true),
			concurrent("reload and signal", false, [][]int{{v1, -1, -3}, {v2, -2}}, 3+d, false, true),
			concurrent("two signals", false, [][]int{{v1, -2, -2}, {v2, -2, -3}}, 3+d, false, true),
			concurrent("watch and reload", true, [][]int{{v1, -4, -3}, {v2, -1, -3}}, 3+d, false, true),
			concurrent("watch and signal", true, [][]int{{v1, -4, v2, -4}, {-2, -3}}, 2+d, false, true),
			concurrent("watch only", true, [][]int{{v1, -4, v2, -4}}, 3+d, false, true), concurrent("watch only, two writers", true, [][]int{{v1, -4}, {v2}}, 2+d, false, false),
			concurrent("all", true, [][]int{{v1, -4}, {v2, -2}, {-1, -3}}, 2+d, false, true),
			concurrent("invalid between", true, [][]int{{inv, -4, v1}, {-1}, {-2, -3}}, 2+d, false, false),
			concurrent("invalid last", false, [][]int{{v1, inv}, {-1, -3, -1}, {-2}}, 3+d, false, false),
			concurrent("by statement", false, [][]int{{v1, -1}, {v2, -1}}, 2+d, true, false),
			concurrent("by statement, signal", true, [][]int{{v1, -4, -1}, {v2, -2}}, 2+d, true, false),
		}
		if c.Thorough {
			scs = append(scs, histories(3, n, true, true))
		}
		c.RunScenarios(p, scs)
	})
}
