// C13: purging removes exactly the matching keys.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/lrumodel"
	"kverif/vsched"
)

var ctx = context.Background()

// store under test. raw lists what the remote server holds.
type store struct {
	kind string
	p    provider.Provider
	fake *fakeredis.Server
	mini *miniredis.Miniredis
	held map[string]bool
}

func open(kind string, page int) *store {
	vsched.SetOffline(0)
	l1 := provider.InMemoryCacheConfig{MaxSize: 1 << 28, MaxItemSize: 1 << 20}
	s := &store{kind: kind, held: map[string]bool{}}
	switch kind {
	case "memory":
		p, err := provider.NewInMemoryCache(l1)
		if err != nil {
			panic(err)
		}
		s.p = p
	case "redis", "layered":
		s.fake = fakeredis.New()
		s.fake.Page = page
		s.p, _ = s.fake.Provider(kind == "layered", time.Hour, l1, provider.RedisClientConfig{})
	case "server", "layered server":
		m, err := miniredis.Run()
		if err != nil {
			panic(err)
		}
		s.mini = m
		cl, err := provider.NewRedisClient("s", provider.RedisClientConfig{Endpoint: m.Addr(), MaxQueueConcurrency: 1, MaxQueueBufferSize: 100})
		if err != nil {
			panic(err)
		}
		s.p = provider.NewRedisCache("s", cl)
		if kind != "server" {
			if s.p, err = provider.NewCached(s.p, "s", time.Hour, l1); err != nil {
				panic(err)
			}
		}
	}
	return s
}

func (s *store) close() {
	if s.mini != nil {
		s.mini.Close()
	}
}

func (s *store) add(k string) {
	if s.held[k] {
		return
	}
	s.held[k] = true
	if s.mini != nil {
		_ = s.mini.Set(k, "v:"+k)
		if s.kind == "layered server" {
			s.p.Get(ctx, k)
		}
		return
	}
	if s.fake != nil {
		s.fake.Put(k, "v:"+k)
		if s.kind == "layered" {
			s.p.Get(ctx, k) // the local copy
		}
		return
	}
	s.p.Set(k, []byte("v:"+k), time.Hour)
}

func (s *store) now() map[string]bool {
	out := map[string]bool{}
	switch {
	case s.mini != nil:
		for _, k := range s.mini.Keys() {
			out[k] = true
		}
	case s.fake != nil:
		for k := range s.fake.Dump() {
			out[k] = true
		}
	default:
		for _, k := range s.p.Keys(ctx, "") {
			out[k] = true
		}
	}
	return out
}

// purge runs a purge and compares what is left.
func (s *store) purge(pat string) string {
	if err := s.p.Purge(ctx, pat); err != nil {
		return fmt.Sprintf("Purge(%q) failed: %v", pat, err)
	}
	left := s.now()
	for k := range s.held {
		m := pat == "" || lrumodel.Match(pat, k)
		if m && left[k] {
			return fmt.Sprintf("%s: Purge(%q) left the matching key %q", s.kind, pat, k)
		}
		if !m && !left[k] {
			return fmt.Sprintf("%s: Purge(%q) removed the key %q, which does not match", s.kind, pat, k)
		}
		if v := s.p.Get(ctx, k); m && v != nil {
			return fmt.Sprintf("%s: after Purge(%q) Get(%q) = %q", s.kind, pat, k, v)
		} else if !m && string(v) != "v:"+k {
			return fmt.Sprintf("%s: after Purge(%q) Get(%q) = %q", s.kind, pat, k, v)
		}
		if m {
			delete(s.held, k)
		}
	}
	return ""
}

type rep struct {
	Kind    string   `json:"kind"`
	Page    int      `json:"page"`
	Keys    []string `json:"keys"`
	Pattern string   `json:"pattern"`
	Scan    *scan    `json:"scan,omitempty"`
}

func one(r rep) string {
	s := open(r.Kind, r.Page)
	defer s.close()
	for _, k := range r.Keys {
		s.add(k)
	}
	if r.Scan != nil {
		return s.during(r.Pattern, *r.Scan)
	}
	return s.purge(r.Pattern)
}

// scan is something happening to the server at the N-th command of the purge.
type scan struct {
	At  int    `json:"at"`
	Op  string `json:"op"` // put or drop
	Key string `json:"key"`
}

// during purges while another client of the server changes a key in the middle.
func (s *store) during(pat string, sc scan) string {
	n, base := 0, s.fake.N
	_ = base
	s.fake.Fault = func(c fakeredis.Call) fakeredis.Action {
		n++
		if n == sc.At {
			s.fake.Now(sc.Op, sc.Key)
		}
		return fakeredis.Action{}
	}
	err := s.p.Purge(ctx, pat)
	s.fake.Fault = nil
	if err != nil {
		return fmt.Sprintf("%s: Purge(%q) while %s %q: %v", s.kind, pat, sc.Op, sc.Key, err)
	}
	left := s.fake.Dump()
	for k := range s.held {
		if k == sc.Key {
			continue
		}
		_, ok := left[k]
		if m := lrumodel.Match(pat, k); m == ok {
			return fmt.Sprintf("%s: after Purge(%q) with %s %q at command %d, key %q present: %v", s.kind, pat, sc.Op, sc.Key, sc.At, k, ok)
		}
	}
	if n < sc.At {
		return "end"
	}
	return ""
}

func seqs(tokens []string, min, max int, f func(string)) {
	var rec func(pre string, k int)
	rec = func(pre string, k int) {
		if k >= min {
			f(pre)
		}
		if k == max {
			return
		}
		for _, t := range tokens {
			rec(pre+t, k+1)
		}
	}
	rec("", 0)
}

func list(tokens []string, min, max int) (out []string) {
	seqs(tokens, min, max, func(s string) { out = append(out, s) })
	return
}

func main() {
	lib.Alphabet = "every pattern over token alphabets up to a length against every key over the same alphabet up to a length, on the in-memory, Redis and layered store (scan pages of several sizes; a real RESP server for a smaller universe); keys appearing or vanishing at every command of a purge"
	lib.Assumptions = []string{"keys without line breaks", "a scan returns every key that is present throughout it", "stores that are still queued when a purge starts are C14's subject", "the empty pattern is decided for the in-memory store only"}
	lib.Main("C13", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				if w := one(r); w != "" && w != "end" {
					p.Fail("replay", w, r)
				}
			}
			return
		}
		fail := func(r rep, w string) {
			// find the fewest keys that show it
			for len(r.Keys) > 1 {
				h := len(r.Keys) / 2
				a, b := r, r
				a.Keys, b.Keys = r.Keys[:h], r.Keys[h:]
				if x := one(a); x != "" {
					r, w = a, x
				} else if x := one(b); x != "" {
					r, w = b, x
				} else {
					break
				}
			}
			for k := 0; k < 5; k++ {
				if one(r) == "" {
					p.Unconf = append(p.Unconf, w)
					return
				}
			}
			p.Fail(fmt.Sprintf("%s page=%d keys=%q pattern=%q", r.Kind, r.Page, r.Keys, r.Pattern), w, r)
		}
		n := 0
		mine := func() bool { n++; return n%c.Of == c.Shard }
		run := func(name, kind string, page int, keys, pats []string) {
			var s *store
			for i, pat := range pats {
				if !mine() {
					continue
				}
				if len(p.Viols) >= 3 || i&63 == 0 && c.Expired(p, name) {
					break
				}
				if s == nil {
					s = open(kind, page)
					defer s.close()
				}
				for _, k := range keys {
					s.add(k)
				}
				lib.Case(func() string { return fmt.Sprint(kind, " pattern ", pat, " keys ", keys) })
				p.Traces++
				p.Ops += int64(len(keys))
				p.Scenarios[name+", "+kind]++
				if w := s.purge(pat); w != "" {
					fail(rep{Kind: kind, Page: page, Keys: keys, Pattern: pat}, w)
					s.close()
					s = nil
					continue
				}
				if i < 2000 || c.Thorough {
					p.State(name, kind, pat)
				}
			}
		}
		meta := []string{"a", "*", "?", "[", "]", `\`, ".", "+", "^", "$", "|", "(", ")"}
		words := []string{"a", "b", "A", "*", "/", "-", ":", "é", "{", "}", "ab"}
		small := []string{"a", "b", "*"}
		d, kd := 4, 2
		if c.Thorough {
			kd = 3
		}
		lib.Bounds["pattern_tokens"], lib.Bounds["key_tokens"] = d, kd
		keysM := append(list(meta, 1, kd), list([]string{"a", "[", "]", `\`, "^", "."}, 3, 3)...)
		keysW := append(list(words, 1, 2), list([]string{"a", "b", "A"}, 3, 4)...)
		keysS := list([]string{"a", "b"}, 1, 6)
		longP := 6
		if c.Thorough {
			longP = 8
		}
		for _, kind := range []string{"memory", "redis", "layered"} {
			page := 1000
			if kind == "layered" {
				page = 7
			}
			run("metacharacters", kind, page, keysM, list(meta, 1, d))
			run("words", kind, page, keysW, list(words, 1, d))
			run("stars", kind, page, keysS, list(small, 1, longP))
		}
		run("classes", "redis", 10, keysM, list([]string{"[", "]", "a", "b", "-", "^", `\`, "*"}, 1, d+1))
		run("classes", "memory", 10, keysM, list([]string{"[", "]", "a", "b", "-", "^", `\`, "*"}, 1, d+1))
		run("empty pattern", "memory", 0, keysW, []string{""})
		var urls []string
		for _, h := range []string{"kache-http://o", "kache-http://p:80", "kache-https://o"} {
			for _, u := range []string{"/", "/a", "/a/b", "/a/b?x=1", "/a?x=1", "/a?x=1&y=2", "/%5Ba%5D", "/a.css", "/axcss", "/[a]", "/a+b", "/a*b"} {
				urls = append(urls, h+u)
			}
		}
		var upats []string
		for _, u := range urls {
			upats = append(upats, u, u+"*", "*"+u[len("kache-http:"):], u[:len(u)-1]+"*", "*"+u[len(u)-3:], strings.Replace(u, "/", "*", 2), strings.Replace(u, "a", "?", 1), strings.Replace(u, ".", "*", 1))
		}
		for _, kind := range []string{"memory", "redis", "layered", "server", "layered server"} {
			run("resource keys", kind, 3, urls, upats)
		}
		small2 := list([]string{"a", "*", "?", "[", "]", `\`, "^"}, 1, 2)
		for _, kind := range []string{"server", "layered server"} {
			run("metacharacters", kind, 0, list([]string{"a", "*", "?", "[", "]", `\`, "^"}, 1, 2), small2)
		}
		// something happens in the middle
		keys := []string{"a", "a1", "a2", "b", "ab", "c", "a3"}
		sort.Strings(keys)
		for _, kind := range []string{"redis", "layered"} {
			for _, page := range []int{1, 2, 3, 10} {
				for _, pat := range []string{"a*", "*", "a", "*b", "a?"} {
					for _, op := range []string{"put", "drop"} {
						for _, k := range []string{"a", "a0", "a2", "a9", "b", "zz", "c"} {
							for at := 1; at < 40; at++ {
								if !mine() {
									continue
								}
								p.Traces++
								p.Scenarios["changes in the middle, "+kind]++
								r := rep{Kind: kind, Page: page, Keys: keys, Pattern: pat, Scan: &scan{at, op, k}}
								lib.Case(func() string { return fmt.Sprintf("%+v", r) })
								w := one(r)
								if w == "end" {
									continue
								}
								if w != "" {
									ok := true
									for i := 0; i < 5; i++ {
										ok = ok && one(r) != ""
									}
									if ok {
										p.Fail(fmt.Sprintf("%s page=%d pattern=%q %+v", kind, page, pat, *r.Scan), w, r)
									} else {
										p.Unconf = append(p.Unconf, w)
									}
									return
								}
							}
						}
					}
				}
			}
		}
	})
}
