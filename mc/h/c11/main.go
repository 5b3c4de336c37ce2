// C11: the in-memory cache is a byte-bounded LRU map with expiry.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"kverif/lib"
	"kverif/lrumodel"
	"kverif/vsched"
)

const (
	overhead = lrumodel.Overhead
	ms       = time.Millisecond
)

type (
	Op   = lrumodel.Op
	Conf = lrumodel.Conf
)

type exec struct {
	c    Conf
	p    provider.Provider
	m    *lrumodel.Model
	n    int
	part *lib.Part
}

var ctx = context.Background()

func fresh(c Conf, part *lib.Part) *exec {
	vsched.SetOffline(0)
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: c.Max, MaxItemSize: c.Item, DefaultTTL: c.TTL})
	if err != nil {
		panic(err)
	}
	return &exec{c: c, p: p, m: lrumodel.New(c), part: part}
}

func (x *exec) value(n int) []byte {
	x.n++
	s := fmt.Sprintf("%03d", x.n%1000)
	for len(s) < n {
		s += s
	}
	return []byte(s[:n])
}

// do runs one operation on cache and model and compares.
func (x *exec) do(o Op) string {
	var r lrumodel.Res
	v := ""
	switch o.Kind {
	case "set":
		b := x.value(o.Len)
		v = string(b)
		x.p.Set(o.Key, b, o.TTL)
	case "adv":
		vsched.Advance(o.TTL)
	default:
		r = lrumodel.Do(x.p, o)
	}
	x.part.Ops++
	if s := x.m.Apply(o, v, r); s != "" {
		return s
	}
	keys := x.p.Keys(ctx, "")
	if n := x.p.Size(); n != len(keys) {
		return fmt.Sprintf("Size() = %d, Keys lists %d", n, len(keys))
	}
	if n := x.m.Bytes(); n > x.c.Max {
		return fmt.Sprintf("%d bytes held, limit %d", n, x.c.Max)
	}
	return x.m.Listing("", keys)
}

// tail exposes the hidden order and accounting: entries are added until half of the old ones are
// gone, the others are read, then entries of the largest size follow.
func (x *exec) tail() string {
	n := len(x.m.Es)
	for k := 0; k < 12 && n > 0; k++ {
		if s := x.do(Op{"set", fmt.Sprint("f", k), 0, time.Hour}); s != "" {
			return s
		}
		old := 0
		for _, e := range x.m.Es {
			if e.Key[0] != 'f' {
				old++
			}
		}
		if old <= n/2 {
			break
		}
	}
	var ks []string
	for _, e := range x.m.Es {
		if e.Key[0] != 'f' {
			ks = append(ks, e.Key)
		}
	}
	for _, k := range ks {
		if s := x.do(Op{Kind: "get", Key: k}); s != "" {
			return s
		}
	}
	for k := 0; k < 3; k++ {
		if s := x.do(Op{"set", fmt.Sprint("g", k), int(x.c.Item) - overhead, time.Hour}); s != "" {
			return s
		}
	}
	for k := 0; k < int(x.c.Max/overhead)+1; k++ {
		if s := x.do(Op{"set", fmt.Sprint("h", k), 0, time.Hour}); s != "" {
			return s
		}
	}
	return ""
}

func run(part *lib.Part, c Conf, seq []Op) (what string) {
	x := fresh(c, part)
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprint("panic: ", e, "\n", string(debug.Stack()))
		}
	}()
	for i, o := range seq {
		if s := x.do(o); s != "" {
			return fmt.Sprintf("step %d: %s", i+1, s)
		}
		part.State(c, x.m.State())
	}
	if s := x.tail(); s != "" {
		return "afterwards: " + s
	}
	return ""
}

type rep struct {
	Conf Conf `json:"conf"`
	Ops  []Op `json:"ops"`
}

func set(k string, n int, ttl time.Duration) Op { return Op{"set", k, n, ttl} }

func main() {
	lib.Alphabet = "Set with sizes around the limits and several TTLs, Get, Delete, Purge, Flush, Keys, Size, time steps, on 2-5 keys; every sequence up to the depth of the alphabet, followed by a fixed sequence that exposes order and accounting"
	lib.Assumptions = []string{"an entry is accounted with its value's length plus 24 bytes; expiry exactly at the end of the TTL is not decided; zero and negative TTLs are not in the alphabet", "an expired entry may be listed and takes space until it is touched"}
	lib.Main("C11", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil {
				if w := run(p, r.Conf, r.Ops); w != "" {
					p.Fail("replay", w, r)
				}
			}
			return
		}
		long := time.Hour
		type group struct {
			name         string
			conf         Conf
			ops          []Op
			quick, depth int
		}
		get := func(ks ...string) (out []Op) {
			for _, k := range ks {
				out = append(out, Op{Kind: "get", Key: k})
			}
			return
		}
		del := func(ks ...string) (out []Op) {
			for _, k := range ks {
				out = append(out, Op{Kind: "del", Key: k})
			}
			return
		}
		adv := Op{Kind: "adv", TTL: 1000 * ms}
		sets := func(lens []int, ttl time.Duration, ks ...string) (out []Op) {
			for _, k := range ks {
				for _, n := range lens {
					out = append(out, set(k, n, ttl))
				}
			}
			return
		}
		cat := func(os ...[]Op) (out []Op) {
			for _, o := range os {
				out = append(out, o...)
			}
			return
		}
		rm := []Op{{Kind: "purge", Key: "a*"}, {Kind: "purge", Key: ""}, {Kind: "purge", Key: "b"}, {Kind: "flush"}}
		all := cat(sets([]int{0, 6, 26, 27}, long, "a", "ab", "b"), sets([]int{6}, 1500*ms, "a", "b"), get("a", "ab", "b"), del("a", "b"), rm, []Op{adv, {Kind: "keys", Key: "a"}})
		groups := []group{
			{"everything", Conf{100, 50, "120s"}, all, 4, 5},
			{"everything, default TTL unset", Conf{100, 50, ""}, all, 3, 4},
			{"everything, no TTL eviction", Conf{100, 50, "-1"}, all, 3, 5},
			{"recency", Conf{5 * 30, 60, "120s"}, cat(sets([]int{6}, long, "a", "b", "c", "d", "e"), get("a", "b", "c", "d")), 6, 7},
			{"recency, mixed sizes", Conf{100, 100, "120s"}, cat(sets([]int{0, 26}, long, "a", "b", "c"), sets([]int{76}, long, "a"), get("a", "b", "c")), 6, 7},
			{"expiry", Conf{120, 60, "120s"}, cat(sets([]int{6}, 500*ms, "a"), sets([]int{6, 16}, 1500*ms, "a", "b"), sets([]int{16}, 2500*ms, "a", "b"), get("a", "b"), del("a"), []Op{adv, {Kind: "purge", Key: "b"}}), 5, 7},
			{"expiry without TTL eviction", Conf{120, 60, "-1"}, cat(sets([]int{6, 16}, 500*ms, "a", "b"), get("a", "b"), []Op{adv}), 5, 7},
			{"accounting", Conf{96, 48, "120s"}, cat(sets([]int{0, 12, 24, 25}, long, "a", "b"), get("a"), del("a", "b"), rm[:2], []Op{{Kind: "flush"}}), 5, 6},
			{"item limit equals cache", Conf{50, 50, "120s"}, cat(sets([]int{0, 1, 2, 3, 25, 26, 27}, long, "a", "b"), get("a", "b"), del("a")), 4, 5},
			{"odd TTL configuration", Conf{100, 50, "nonsense"}, cat(sets([]int{6}, 500*ms, "a"), sets([]int{26}, long, "b"), get("a", "b"), []Op{adv}), 5, 6},
		}
		if c.Shard == 0 {
			construct(p)
		}
		for _, g := range groups {
			d := g.quick
			if c.Thorough {
				d = g.depth
			}
			lib.Bounds[g.name] = fmt.Sprintf("%d operations, depth %d", len(g.ops), d)
			n := 0
			ops := make([]Op, d)
			c.Seqs(len(g.ops), d, func(seq []int) bool {
				n++
				if n&1023 == 0 && c.Expired(p, g.name) {
					return false
				}
				for i, k := range seq {
					ops[i] = g.ops[k]
				}
				w := run(p, g.conf, ops)
				p.Traces++
				p.Scenarios[g.name]++
				if n == 1 {
					p.Sample("%s: %v", g.name, ops)
				}
				if w == "" {
					return true
				}
				for k := 0; k < 5; k++ {
					if run(p, g.conf, ops) == "" {
						p.Unconf = append(p.Unconf, fmt.Sprint(g.name, ops, w))
						return true
					}
				}
				// shorten
				best := append([]Op(nil), ops...)
				for i := 0; i < len(best); {
					t := append(append([]Op(nil), best[:i]...), best[i+1:]...)
					if run(p, g.conf, t) != "" {
						best = t
					} else {
						i++
					}
				}
				w = run(p, g.conf, best)
				var det []string
				for _, o := range best {
					det = append(det, o.String())
				}
				p.Fail(fmt.Sprint(g.conf, best), w, rep{g.conf, best}, det...)
				return len(p.Viols) < 3
			})
		}
	})
}

// construct checks which limits are accepted.
func construct(p *lib.Part) {
	for _, max := range []uint64{0, 1, 23, 24, 100, 1 << 28, 1 << 40} {
		for _, item := range []uint64{0, 1, 24, 100, 101, 1 << 27, 1 << 30} {
			emax, eitem := max, item
			if emax == 0 {
				emax = 1 << 28
			}
			if eitem == 0 {
				eitem = 1 << 27
			}
			_, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: max, MaxItemSize: item})
			if (err != nil) != (eitem > emax) {
				p.Fail(fmt.Sprint("construct ", max, " ", item), fmt.Sprintf("limits %d and %d: error %v", max, item, err), nil)
			}
			p.Traces++
		}
	}
}
