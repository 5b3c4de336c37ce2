// C19: the API admits exactly the addresses in its access list.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"kverif/e2e"
	"kverif/lib"
	"kverif/vsched"
)

type rep struct {
	ACL    string   `json:"acl"`
	Prefix string   `json:"prefix,omitempty"`
	Method string   `json:"method"`
	Path   string   `json:"path"`
	Remote string   `json:"remote"`
	XFF    []string `json:"xff,omitempty"`
	XRI    *string  `json:"xri,omitempty"`
	Any    bool     `json:"any,omitempty"` // the path need not be a route
	Binary bool     `json:"binary,omitempty"`
}

// ---- the reference: addresses are bit strings ----

// bits parses an address: family (4 or 6) and value. An IPv4-mapped address is the IPv4 address.
func bits(s string) (fam int, v *big.Int, ok bool) {
	if strings.Contains(s, ":") {
		v, ok = v6(s)
		if ok && new(big.Int).Rsh(v, 32).Cmp(big.NewInt(0xffff)) == 0 {
			return 4, new(big.Int).And(v, big.NewInt(0xffffffff)), true
		}
		return 6, v, ok
	}
	v, ok = v4(s)
	return 4, v, ok
}

func v4(s string) (*big.Int, bool) {
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return nil, false
	}
	v := int64(0)
	for _, x := range p {
		n, err := strconv.Atoi(x)
		if err != nil || n < 0 || n > 255 || strconv.Itoa(n) != x {
			return nil, false
		}
		v = v<<8 | int64(n)
	}
	return big.NewInt(v), true
}

func v6(s string) (*big.Int, bool) {
	groups := func(t string) ([]int64, bool) {
		if t == "" {
			return nil, true
		}
		var out []int64
		p := strings.Split(t, ":")
		for i, x := range p {
			if strings.Contains(x, ".") {
				v, ok := v4(x)
				if !ok || i != len(p)-1 {
					return nil, false
				}
				out = append(out, v.Int64()>>16, v.Int64()&0xffff)
				continue
			}
			n, err := strconv.ParseInt(x, 16, 32)
			if err != nil || len(x) > 4 || n < 0 {
				return nil, false
			}
			out = append(out, n)
		}
		return out, true
	}
	var g []int64
	if a, b, has := strings.Cut(s, "::"); has {
		l, ok1 := groups(a)
		r, ok2 := groups(b)
		if !ok1 || !ok2 || len(l)+len(r) > 7 {
			return nil, false
		}
		g = append(append(l, make([]int64, 8-len(l)-len(r))...), r...)
	} else {
		var ok bool
		if g, ok = groups(s); !ok || len(g) != 8 {
			return nil, false
		}
	}
	v := new(big.Int)
	for _, x := range g {
		v.Lsh(v, 16).Or(v, big.NewInt(x))
	}
	return v, true
}

type entry struct {
	fam, plen int
	v         *big.Int
}

// list parses an access list.
func list(acl string) (out []entry, ok bool) {
	acl = strings.Trim(acl, ",")
	if acl == "" {
		return nil, true
	}
	for _, s := range strings.Split(acl, ",") {
		s = strings.TrimSpace(s)
		a, l, net := strings.Cut(s, "/")
		f, v, ok := bits(a)
		if !ok {
			return nil, false
		}
		w := 32
		if f == 6 {
			w = 128
		}
		n := w
		if net {
			k, err := strconv.Atoi(l)
			if err != nil || k < 0 || k > w || strconv.Itoa(k) != l {
				return nil, false
			}
			n = k
		}
		out = append(out, entry{f, n, v})
	}
	return out, true
}

func (e entry) has(fam int, v *big.Int) bool {
	w := 32
	if e.fam == 6 {
		w = 128
	}
	return e.fam == fam && new(big.Int).Rsh(e.v, uint(w-e.plen)).Cmp(new(big.Int).Rsh(v, uint(w-e.plen))) == 0
}

// client tells the address a request counts for.
func (r rep) client() string {
	var all []string
	for _, l := range r.XFF {
		for _, x := range strings.Split(l, ",") {
			all = append(all, strings.TrimSpace(x))
		}
	}
	if j := strings.Join(all, ""); j != "" {
		return all[len(all)-1]
	}
	if r.XRI != nil && *r.XRI != "" {
		return *r.XRI
	}
	h, _, err := net.SplitHostPort(r.Remote)
	if err != nil {
		return "?"
	}
	return h
}

// admitted decides, from the specification alone.
func (r rep) admitted() bool {
	l, _ := list(r.ACL)
	if len(l) == 0 {
		return true
	}
	f, v, ok := bits(r.client())
	if !ok {
		return false
	}
	for _, e := range l {
		if e.has(f, v) {
			return true
		}
	}
	return false
}

// ---- the implementation ----

type sut struct {
	api     *api.API
	p       provider.Provider
	c       *cache.HttpCache
	cfg     cache.HttpCacheConfig
	reloads int
}

var suts = map[string]*sut{}

func open(acl, prefix string) (*sut, error) {
	k := acl + "|" + prefix
	if s := suts[k]; s != nil {
		return s, nil
	}
	s := &sut{p: e2e.Memory(), cfg: cache.HttpCacheConfig{Strict: true, DefaultTTL: "77s"}}
	var err error
	cfg := s.cfg
	if s.c, err = cache.NewHttpCache(&cfg, s.p); err != nil {
		panic(err)
	}
	a := config.API{Prefix: prefix, ACL: acl, Debug: true}
	srv, err := server.NewServer(&config.Configuration{API: &a}, s.p, s.c, nil)
	if err != nil {
		panic(err)
	}
	if s.api, err = api.New(a, srv); err != nil {
		return nil, err
	}
	s.api.RegisterRoute(http.MethodPost, "/cache/config/reload", func(w http.ResponseWriter, r *http.Request) {
		s.reloads++
		w.WriteHeader(200)
	})
	if len(suts) > 50 {
		suts = map[string]*sut{}
	}
	suts[k] = s
	return s, nil
}

type route struct{ method, path, body, effect string }

func routes(prefix string) []route {
	p := "/" + strings.Trim(prefix, "/")
	if prefix == "" {
		p = "/api"
	}
	return []route{
		{"PURGE", "/", "", "one"},
		{"GET", p + "/cache/keys", "", ""},
		{"GET", p + "/cache/config", "", ""},
		{"PUT", p + "/cache/config/update", "default_ttl: 99s\n", "config"},
		{"DELETE", p + "/cache/invalidate", "", "one"},
		{"DELETE", p + "/cache/flush", "", "all"},
		{"POST", p + "/cache/config/reload", "", "reload"},
		{"GET", "/version", "", ""},
		{"GET", "/metrics", "", ""},
		{"GET", "/debug/vars", "", ""},
		{"GET", "/debug/pprof/", "", ""},
		{"GET", "/debug/pprof/cmdline", "", ""},
		{"GET", "/debug/pprof/symbol", "", ""},
		{"GET", "/debug/pprof/goroutine?debug=1", "", ""},
		{"GET", "/debug/pprof/profile?seconds=1", "", ""},
		{"GET", "/debug/pprof/trace?seconds=1", "", ""},
	}
}

func run(p *lib.Part, r rep) string {
	vsched.SetOffline(0)
	p.Ops++
	s, err := open(r.ACL, r.Prefix)
	if _, ok := list(r.ACL); !ok {
		if err == nil {
			return fmt.Sprintf("the malformed list %q is accepted", r.ACL)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("the list %q is rejected: %v", r.ACL, err)
	}
	if r.Method == "" {
		return ""
	}
	ctx := context.Background()
	s.p.Set("k1", []byte("1"), time.Hour)
	s.p.Set("k2", []byte("2"), time.Hour)
	cfg := s.cfg
	s.c.UpdateConfig(&cfg)
	before, _ := json.Marshal(s.c.Config())
	s.reloads = 0
	var rt *route
	for _, x := range routes(r.Prefix) {
		if x.method == r.Method && x.path == r.Path {
			rt = &x
		}
	}
	body := "default_ttl: 99s\n"
	q := httptest.NewRequest(r.Method, "http://kache"+r.Path, bytes.NewBufferString(body))
	q.RemoteAddr = r.Remote
	q.Header.Set("X-Purge-Key", "k1")
	for _, x := range r.XFF {
		q.Header.Add("X-Forwarded-For", x)
	}
	if r.XRI != nil {
		q.Header.Set("X-Real-Ip", *r.XRI)
	}
	adm := r.admitted()
	if adm && rt != nil && strings.Contains(r.Path, "seconds=") {
		return "" // takes real time
	}
	w := httptest.NewRecorder()
	s.api.ServeHTTP(w, q)
	eff := ""
	a, b := s.p.Get(ctx, "k1") != nil, s.p.Get(ctx, "k2") != nil
	now, _ := json.Marshal(s.c.Config())
	switch {
	case !a && !b:
		eff = "all"
	case !a:
		eff = "one"
	case !b:
		eff = "other"
	}
	if !bytes.Equal(before, now) {
		eff += "config"
	}
	if s.reloads > 0 {
		eff += "reload"
	}
	if !adm {
		if eff != "" {
			return fmt.Sprintf("client %s is not in %q, %s %s was performed (%s)", r.client(), r.ACL, r.Method, r.Path, eff)
		}
		if rt != nil && !r.Any && w.Code != 401 {
			return fmt.Sprintf("client %s is not in %q, %s %s answers %d", r.client(), r.ACL, r.Method, r.Path, w.Code)
		}
		if w.Code/100 == 2 {
			return fmt.Sprintf("client %s is not in %q, %s %s answers %d", r.client(), r.ACL, r.Method, r.Path, w.Code)
		}
		return ""
	}
	if rt == nil {
		return ""
	}
	if w.Code != 200 || eff != rt.effect {
		return fmt.Sprintf("client %s is in %q, %s %s answers %d and does %q", r.client(), r.ACL, r.Method, r.Path, w.Code, eff)
	}
	return ""
}

func str(s string) *string { return &s }

// flip returns the textual form of an address with one bit flipped (-1: none).
func flip(base net.IP, bit int) string {
	ip := append(net.IP{}, base...)
	if bit >= 0 {
		ip[bit/8] ^= 1 << (7 - bit%8)
	}
	if len(ip) == 4 {
		return ip.String()
	}
	var g []string
	for i := 0; i < 16; i += 2 {
		g = append(g, fmt.Sprintf("%x", int(ip[i])<<8|int(ip[i+1])))
	}
	return strings.Join(g, ":")
}

// binary runs the real program.
func binary(p *lib.Part, acl string) string {
	dir, err := os.MkdirTemp("", "c19")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	o := e2e.NewOrigin("o")
	defer o.Down()
	o.Set(func(*e2e.Req) e2e.Script { return e2e.Script{Raw: e2e.Reply(200, "x")} })
	for try := 0; try < 5; try++ {
		port, lport := free(), free()
		conf := fmt.Sprintf("listeners:\n  l:\n    addr: 127.0.0.1:%d\nupstreams:\n  - name: u\n    addr: http://%s\n    path: /\nprovider:\n  backend: inmemory\n  inmemory:\n    max_size: 1000000\n    max_item_size: 100000\napi:\n  port: %d\n  acl: %q\n  debug: true\nlogging:\n  level: error\n", lport, o.Addr, port, acl)
		f := filepath.Join(dir, "k.yml")
		_ = os.WriteFile(f, []byte(conf), 0o600)
		cmd := exec.Command(os.Getenv("KV_KACHE"), "-config.file", f)
		cmd.Dir = dir
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		_, wellFormed := list(acl)
		if !wellFormed {
			select {
			case err := <-done:
				if err == nil {
					return "the program ends successfully with a malformed list"
				}
				return ""
			case <-time.After(5 * time.Second):
				_ = cmd.Process.Kill()
				<-done
				return "the program starts with the malformed list " + acl
			}
		}
		up := false
		for i := 0; i < 200 && !up; i++ {
			if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
				c.Close()
				up = true
			} else {
				select {
				case <-done:
					i = 1000
				case <-time.After(25 * time.Millisecond):
				}
			}
		}
		w := ""
		if up {
			w = probe(p, acl, port, f, conf)
		}
		_ = cmd.Process.Kill()
		if up {
			<-done
			return w
		}
	}
	return "" // no free port found, not decided
}

func free() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func probe(p *lib.Part, acl string, port int, file, conf string) string {
	cl := http.Client{Timeout: 20 * time.Second}
	do := func(m, path, body, xff string) (int, string) {
		q, _ := http.NewRequest(m, fmt.Sprintf("http://127.0.0.1:%d%s", port, path), strings.NewReader(body))
		if xff != "" {
			q.Header.Set("X-Forwarded-For", xff)
		}
		res, err := cl.Do(q)
		if err != nil {
			return -1, err.Error()
		}
		defer res.Body.Close()
		var b bytes.Buffer
		_, _ = b.ReadFrom(res.Body)
		return res.StatusCode, b.String()
	}
	inforce := func() string { // asked for by an admitted client
		_, b := do("GET", "/api/cache/config", "", "10.1.1.1")
		return b
	}
	for _, x := range []string{"", "10.1.1.1", "9.9.9.9", "::1", "10.1.1.1, 9.9.9.9", "9.9.9.9, 10.1.1.1"} {
		r := rep{ACL: acl, Remote: "127.0.0.1:1", Binary: true}
		if x != "" {
			r.XFF = []string{x}
		}
		adm := r.admitted()
		for _, rt := range routes("") {
			if strings.Contains(rt.path, "seconds=") {
				continue
			}
			before := inforce()
			if rt.effect == "reload" { // make it visible
				_ = os.WriteFile(file, []byte(strings.Replace(conf, "logging:", fmt.Sprintf("cache:\n  x_header: true\n  x_header_name: x-%d\nlogging:", time.Now().UnixNano()), 1)), 0o600)
			}
			code, b := do(rt.method, rt.path, fmt.Sprintf("default_ttl: %ds\n", 1000+time.Now().UnixNano()%1000000), x)
			p.Ops++
			changed := before != inforce()
			if adm && (code != 200 || changed != (rt.effect == "config" || rt.effect == "reload")) {
				return fmt.Sprintf("client %q is in %q, the program answers %d to %s %s (config changed: %v): %s", x, acl, code, rt.method, rt.path, changed, b)
			}
			if !adm && (code != 401 || changed) {
				return fmt.Sprintf("client %q is not in %q, the program answers %d to %s %s (config changed: %v)", x, acl, code, rt.method, rt.path, changed)
			}
		}
	}
	return ""
}

func main() {
	lib.Alphabet = "every IPv4 prefix length with every bit of the client address flipped, every IPv6 prefix length likewise; all lists of up to 3 of 16 entries and malformed ones; 16 clients by peer address, X-Real-Ip and X-Forwarded-For in all combinations; every route under 4 prefixes; other methods and spellings of the paths; the real program with 6 lists"
	lib.Assumptions = []string{"an IPv4-mapped IPv6 address is the IPv4 address; zones are not used", "a header that is not an address is refused"}
	lib.Main("C19", 60*time.Second, 600*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				w := ""
				if r.Binary {
					w = binary(p, r.ACL)
				} else {
					w = run(p, r)
				}
				if w != "" {
					p.Fail("replay", w, r)
				}
			}
			return
		}
		n := 0
		try := func(group string, key int, r rep) bool {
			if key%c.Of != c.Shard {
				return true
			}
			if c.Expired(p, group) {
				return false
			}
			lib.Case(func() string { return fmt.Sprintf("%+v", r) })
			w := run(p, r)
			lib.Idle()
			p.Traces++
			p.Scenarios[group]++
			n++
			p.StateHash(uint64(n)*16 + uint64(c.Shard))
			if w != "" && !p.Sure(5, w, func() string { return run(p, r) }) {
				return true
			}
			if w != "" {
				j, _ := json.Marshal(r)
				p.Fail(string(j), w, r)
			}
			return len(p.Viols) < 3
		}
		key := 0
		// the real program
		for _, acl := range []string{"", "10.1.1.1", "127.0.0.1,10.1.1.1", "10.0.0.0/8,::1", "::1,10.1.1.1/32", "10.1.1.1,nonsense"} {
			key++
			if key%c.Of == c.Shard {
				p.Traces++
				p.Scenarios["the real program"]++
				if w := binary(p, acl); w != "" && reflect.DeepEqual(binary(p, acl), w) {
					p.Fail("program "+acl, w, rep{ACL: acl, Binary: true})
				}
			}
		}
		// networks, bit by bit
		for _, base := range []net.IP{net.ParseIP("10.20.30.40").To4(), net.ParseIP("203.0.113.255").To4(), net.ParseIP("2001:db8:5a5a:a5a5:0:ffff:1:8000"), net.ParseIP("fe80::1")} {
			w := len(base) * 8
			for l := 0; l <= w; l++ {
				acl := fmt.Sprintf("%s/%d", flip(base, -1), l)
				key++
				for b := -1; b < w; b++ {
					a := flip(base, b)
					if !try("networks bit by bit", key, rep{ACL: acl, Method: "DELETE", Path: "/api/cache/flush", Remote: net.JoinHostPort(a, "4711")}) ||
						!try("networks bit by bit", key, rep{ACL: acl, Method: "GET", Path: "/version", Remote: "192.0.2.9:1", XFF: []string{"192.0.2.8, " + a}}) {
						return
					}
				}
			}
			for b := -1; b < w; b++ {
				key++
				for b2 := -1; b2 < w; b2++ {
					if !try("addresses bit by bit", key, rep{ACL: "192.0.2.1," + flip(base, b), Method: "GET", Path: "/version", Remote: net.JoinHostPort(flip(base, b2), "4711")}) {
						return
					}
				}
			}
		}
		entries := []string{"10.0.0.1", "10.0.0.2", " 10.0.0.3 ", "10.1.0.0/16", "10.2.3.4/30", "0.0.0.0/0", "::1", "2001:db8::1", "2001:DB8:0:0::2", "2001:db8:1::/48", "::/0", "::ffff:10.0.0.4", "127.0.0.1", "0.0.0.0", "255.255.255.255/32", "fe80::/10"}
		broken := []string{"x", "10.0.0", "10.0.0.256", "10.0.0.1.1", "10.0.0.0/33", "10.0.0.0/", "10.0.0.0/-1", "10.0.0.1-10.0.0.9", "10.0.0.1:80", "::g", "1:2:3", "2001:db8::/129", "localhost", "*", "10.0.0.*", "10.0.0.1;10.0.0.2", "10.0.0.1 10.0.0.2", "[::1]", "a.b.c.d/8", "/8", "1::2::3", "10.0.0.01"}
		clients := []string{"10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4", "10.0.0.5", "10.1.255.255", "10.2.3.7", "10.2.3.8", "127.0.0.1", "0.0.0.0", "255.255.255.255", "::1", "2001:db8::1", "2001:db8::2", "2001:db8:1:ffff::1", "2001:db8:2::", "::ffff:10.0.0.1", "::ffff:a00:1", "fe80::1"}
		maxLen := 3
		var rec func(l []string)
		stop := false
		rec = func(l []string) {
			if stop {
				return
			}
			key++
			acl := strings.Join(l, ",")
			for _, cl := range clients {
				if !try("lists", key, rep{ACL: acl, Method: "DELETE", Path: "/api/cache/invalidate", Remote: net.JoinHostPort(cl, "9")}) {
					stop = true
					return
				}
			}
			if len(l) == 1 {
				for _, pad := range []string{acl + ",", "," + acl, ",," + acl + ",,"} {
					for _, cl := range clients {
						if !try("lists", key, rep{ACL: pad, Method: "PURGE", Path: "/", Remote: net.JoinHostPort(cl, "9")}) {
							stop = true
							return
						}
					}
				}
			}
			if len(l) < 2 {
				for _, b := range broken {
					for i := 0; i <= len(l); i++ {
						x := append(append(append([]string{}, l[:i]...), b), l[i:]...)
						if !try("malformed lists", key, rep{ACL: strings.Join(x, ","), Method: "", Path: ""}) {
							stop = true
							return
						}
					}
				}
			}
			if len(l) == maxLen {
				return
			}
			for _, e := range entries {
				rec(append(append([]string{}, l...), e))
			}
		}
		rec(nil)
		if stop {
			return
		}
		// where the address comes from, on every route
		al, de := "10.0.0.1", "10.0.0.9"
		xffs := [][]string{nil, {al}, {de}, {al + "," + de}, {de + ", " + al}, {al, de}, {de, al}, {de + "," + de, de + " ,  " + al}, {"garbage"}, {al + ", garbage"}, {"garbage, " + al}, {""}, {"2001:db8::1"}, {"2001:db8::9"}, {"::ffff:10.0.0.1"}, {al + ":80"}, {"[2001:db8::1]:80"}, {"unknown"}, {"\"" + al + "\""}, {al + "/32"}, {de, "", al}}
		xris := []*string{nil, &al, &de, str("garbage"), str(""), str("2001:db8::1"), str(al + ":1")}
		remotes := []string{al + ":1", de + ":1", "[2001:db8::1]:1", "[2001:db8::9]:1", "@", "", "garbage:1", "[::ffff:10.0.0.1]:1"}
		for _, acl := range []string{"10.0.0.1,2001:db8::1", "10.0.0.0/29, 2001:db8::/125", ""} {
			for _, pre := range []string{"", "/k/ache", "adm/", "/"} {
				if pre == "/" && acl == "" {
					continue
				}
				for _, rt := range routes(pre) {
					if pre == "/" && strings.HasPrefix(rt.path, "//") {
						rt.path = rt.path[1:]
						continue
					}
					for _, x := range xffs {
						key++
						for _, xr := range xris {
							for _, rm := range remotes {
								if !try("sources on every route", key, rep{ACL: acl, Prefix: pre, Method: rt.method, Path: rt.path, Remote: rm, XFF: x, XRI: xr}) {
									return
								}
							}
						}
					}
				}
			}
		}
		// nothing else lets a client in that is not listed
		for _, m := range []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PURGE", "TRACE", "CONNECT", "purge", "FOO"} {
			for _, rt := range routes("") {
				base := strings.SplitN(rt.path, "?", 2)[0]
				for _, v := range []string{base, base + "/", "/" + base, base + "/x", strings.ToUpper(base), base + "?a=b", strings.Replace(base, "/", "/./", 1), "/x/.." + base, strings.Replace(base, "a", "%61", 1), strings.Replace(base, "/c", "%2Fc", 1), base + "%00", base + ";x=y", base + "%20", strings.TrimPrefix(base, "/api")} {
					if v == "" || strings.HasPrefix(v, "//") && strings.Contains(v, "?") {
						continue
					}
					key++
					for _, cl := range []string{"10.0.0.9:1", "[2001:db8::9]:1", "127.0.0.1:1"} {
						if !try("other methods and paths", key, rep{ACL: "10.0.0.1", Method: m, Path: v, Remote: cl, Any: true}) {
							return
						}
					}
				}
			}
		}
	})
}
