// C14: the layered cache never serves what has been overwritten or removed.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"kverif/fakeredis"
	"kverif/lib"
	"kverif/lrumodel"
	"kverif/vsched"
	"kverif/world"
)

type Op = lrumodel.Op

var ctx = context.Background()

// inOrder is a remote client whose stores are applied when they are issued.
type inOrder struct{ provider.RemoteCacheClient }

func (c inOrder) StoreAsync(k string, v []byte, ttl time.Duration) error { return c.Store(k, v, ttl) }

// remote is a server with a client that is kept for all executions (connecting is slow).
type remote struct {
	srv *fakeredis.Server
	cl  provider.RemoteCacheClient
}

var remotes = map[int]*remote{}

func reset(maxItem int) *remote {
	r := remotes[maxItem]
	if r == nil {
		r = &remote{srv: fakeredis.New()}
		r.srv.Page = 1000
		r.cl = r.srv.Client(provider.RedisClientConfig{MaxItemSize: maxItem})
		remotes[maxItem] = r
		time.Sleep(50 * time.Millisecond) // let its workers block
	}
	r.srv.Sched, r.srv.Record, r.srv.Fault, r.srv.Calls = false, false, nil, nil
	for k := range r.srv.Dump() {
		r.srv.Drop(k)
	}
	return r
}

func layered(r *remote, ttl time.Duration, l1 lrumodel.Conf) provider.Provider {
	p, err := provider.NewCached(provider.NewRedisCache("r", inOrder{r.cl}), "l", ttl, provider.InMemoryCacheConfig{MaxSize: l1.Max, MaxItemSize: l1.Item, DefaultTTL: l1.TTL})
	if err != nil {
		panic(err)
	}
	return p
}

func pad(s string, n int) string {
	for len(s) < n {
		s += s
	}
	return s[:n]
}

// ---- concurrent part

var infinite = lrumodel.Conf{Max: 1 << 40, Item: 1 << 30, TTL: "120s"}

type hist struct {
	x     *vsched.X
	p     provider.Provider
	m     *lrumodel.Model
	calls []*lrumodel.Call
	clock int
	n     int
}

func (h *hist) tick() int { h.clock++; return h.clock }

func (h *hist) val(n int) string {
	h.n++
	return pad(fmt.Sprintf("%c%02d", 'A'+h.n, h.n), n)
}

func (h *hist) do(o Op) *lrumodel.Call {
	c := &lrumodel.Call{Op: o, Ret: 1 << 30}
	if o.Kind == "set" {
		c.Val = h.val(o.Len)
	}
	h.calls = append(h.calls, c)
	c.Inv = h.tick()
	if o.Kind == "set" {
		h.p.Set(o.Key, []byte(c.Val), o.TTL)
	} else {
		if o.Kind == "delete" { // judged like a purge: its answer only tells that the remote was reached
			h.p.Delete(ctx, o.Key)
			c.Op.Kind = "purge"
		} else {
			c.Res = lrumodel.Do(h.p, o)
		}
	}
	c.Ret = h.tick()
	return c
}

func (h *hist) String() string {
	var s []string
	for _, c := range h.calls {
		s = append(s, fmt.Sprintf("[%d-%d] %v val=%q -> %+v", c.Inv, c.Ret, c.Op, c.Val, c.Res))
	}
	return strings.Join(s, "\n")
}

var ops = []Op{
	{Kind: "set", Key: "a", Len: 6, TTL: time.Hour},
	{Kind: "get", Key: "a"},
	{Kind: "delete", Key: "a"},
	{Kind: "purge", Key: "a*"},
	{Kind: "flush"},
	{Kind: "set", Key: "a", Len: 40, TTL: time.Hour},
	{Kind: "keys"},
	{Kind: "get", Key: "b"},
	{Kind: "set", Key: "b", Len: 6, TTL: time.Hour},
	{Kind: "purge", Key: "a"},
}

// l1s are the local tiers: large, one entry, items over 30 bytes are not held, no expiry.
var l1s = []lrumodel.Conf{{Max: 1 << 20, Item: 1 << 19, TTL: "120s"}, {Max: 70, Item: 70, TTL: "120s"}, {Max: 1000, Item: 50, TTL: "120s"}, {Max: 1 << 20, Item: 1 << 19, TTL: "-1"}}

var inits = []string{"empty", "a in both tiers", "a and b in the remote tier only", "a expired locally"}

func scenario(init, l1 int, alphabet []Op, lens []int, bound int, plain, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s, local tier %d, threads with %v of %d operations, bound=%d plain=%v", inits[init], l1, lens, len(alphabet), bound, plain), Plain: plain, Race: race,
		Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
			var progs [][]Op
			x.Explore(func() {
				for _, n := range lens {
					progs = append(progs, program(alphabet, n))
				}
			})
			r := reset(0)
			h := &hist{x: x, p: layered(r, time.Minute, l1s[l1]), m: lrumodel.New(infinite)}
			set := func(k string) {
				v := h.val(6)
				h.p.Set(k, []byte(v), 2*time.Hour)
				h.m.Set(k, v, 2*time.Hour)
			}
			switch init {
			case 1:
				set("a")
			case 2:
				for _, k := range []string{"a", "b"} {
					v := h.val(6)
					r.srv.Put(k, v)
					h.m.Set(k, v, 2*time.Hour)
				}
			case 3:
				r.srv.Put("a", "old")
				h.m.Set("a", "old", 2*time.Hour)
				h.p.Get(ctx, "a")
				x.Advance(2 * time.Minute)
			}
			r.srv.Sched = true
			for i, pr := range progs {
				x.Go(fmt.Sprint("t", i), func() {
					for _, o := range pr {
						h.do(o)
					}
				})
			}
			x.Wait()
			r.srv.Sched = false
			h.judge()
		}}
}

func program(alphabet []Op, n int) []Op {
	out := make([]Op, n)
	k := 1
	for i := 0; i < n; i++ {
		k *= len(alphabet)
	}
	c := vsched.Choose(k)
	for i := range out {
		out[i] = alphabet[c%len(alphabet)]
		c /= len(alphabet)
	}
	return out
}

func (h *hist) judge() {
	conc := h.calls
	h.calls = nil
	var after []*lrumodel.Call
	for _, o := range []Op{{Kind: "keys"}, {Kind: "get", Key: "a"}, {Kind: "get", Key: "b"}, {Kind: "get", Key: "a"}} {
		after = append(after, h.do(o))
	}
	h.calls = append(conc, after...)
	ok, why := lrumodel.Linearizable(h.m, conc, func(m *lrumodel.Model) string {
		m = m.Clone()
		for _, c := range after {
			if w := m.Apply(c.Op, c.Val, c.Res); w != "" {
				return "afterwards: " + w
			}
		}
		return ""
	})
	if !ok {
		h.x.Fail("no order of the operations explains their results: %s\n%s", why, h)
	}
	var s []string
	for _, c := range h.calls {
		if c.Op.Kind == "get" {
			s = append(s, fmt.Sprint(c.Op.Key, !c.Res.Nil))
		}
	}
	h.x.Outcome("%v", s)
}

// ---- sequential part: time, evictions, remote changes by other nodes, fall-through

type rep struct {
	L1   lrumodel.Conf `json:"l1"`
	TTL  time.Duration `json:"ttl"`
	Item int           `json:"item"`
	Ops  []Op          `json:"ops"`
}

func run(part *lib.Part, c rep) (what string) {
	vsched.SetOffline(0)
	r := reset(c.Item)
	r.srv.Record = true
	p := layered(r, c.TTL, c.L1)
	l1 := lrumodel.New(c.L1)
	rem := lrumodel.New(lrumodel.Conf{Max: 1 << 40, Item: 1 << 30, TTL: "120s"})
	n := 0
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprint("panic: ", e, "\n", string(debug.Stack()))
		}
	}()
	prune := func() {
		for i := len(rem.Es) - 1; i >= 0; i-- {
			if rem.Dead(i) {
				rem.Rm(i)
			}
		}
	}
	step := func(o Op) string {
		r.srv.Calls = r.srv.Calls[:0]
		part.Ops++
		prune()
		switch o.Kind {
		case "adv":
			vsched.Advance(o.TTL)
		case "set":
			n++
			v := pad(fmt.Sprintf("%03d", n%1000), o.Len)
			p.Set(o.Key, []byte(v), o.TTL)
			if i := rem.Find(o.Key); i >= 0 {
				rem.Rm(i)
			}
			if c.Item == 0 || len(v) <= c.Item {
				rem.Set(o.Key, v, o.TTL)
			}
			l1.Set(o.Key, v, o.TTL)
		case "put": // another node
			n++
			v := pad(fmt.Sprintf("%03d", n%1000), o.Len)
			r.srv.PutTTL(o.Key, v, o.TTL)
			rem.Set(o.Key, v, o.TTL)
		case "drop":
			r.srv.Drop(o.Key)
			if i := rem.Find(o.Key); i >= 0 {
				rem.Rm(i)
			}
		case "get":
			got := p.Get(ctx, o.Key)
			asked := 0
			for _, cl := range r.srv.Calls {
				if cl.Name == "get" {
					asked++
				} else {
					return fmt.Sprintf("Get sent %s %q to the remote tier", cl.Name, cl.Args)
				}
			}
			i := l1.Find(o.Key)
			if i >= 0 && l1.Dead(i) {
				l1.Rm(i)
				i = -1
			}
			want, has := "", false
			if i >= 0 {
				want, has = l1.Es[i].Val, true
				e := l1.Es[i]
				l1.Rm(i)
				l1.Es = append(l1.Es, e)
				if asked > 0 {
					return fmt.Sprintf("Get(%q) asked the remote tier although the local tier has a live entry", o.Key)
				}
			} else if j := rem.Find(o.Key); j >= 0 {
				want, has = rem.Es[j].Val, true
				l1.Set(o.Key, want, c.TTL)
			}
			if i < 0 && asked == 0 {
				return fmt.Sprintf("Get(%q) = %q without asking the remote tier, the local tier should have no live entry", o.Key, got)
			}
			if (got != nil) != has || string(got) != want {
				return fmt.Sprintf("Get(%q) = %q (nil: %v), expected %q (present: %v)", o.Key, got, got == nil, want, has)
			}
		case "del":
			p.Delete(ctx, o.Key)
			for _, m := range []*lrumodel.Model{l1, rem} {
				if i := m.Find(o.Key); i >= 0 {
					m.Rm(i)
				}
			}
		case "purge":
			if err := p.Purge(ctx, o.Key); err != nil {
				return err.Error()
			}
			for _, m := range []*lrumodel.Model{l1, rem} {
				for i := len(m.Es) - 1; i >= 0; i-- {
					if lrumodel.Match(o.Key, m.Es[i].Key) {
						m.Rm(i)
					}
				}
			}
		case "flush":
			if err := p.Flush(ctx); err != nil {
				return err.Error()
			}
			l1.Es, rem.Es = nil, nil
		}
		prune()
		dump := r.srv.Dump()
		var want, got []string
		for _, e := range rem.Es {
			want = append(want, e.Key+"="+e.Val)
		}
		for k, v := range dump {
			got = append(got, k+"="+v)
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, " ") != strings.Join(got, " ") {
			return fmt.Sprintf("the remote tier holds %q, expected %q", got, want)
		}
		if o.Kind == "keys" {
			return rem.Listing(o.Key, p.Keys(ctx, o.Key))
		}
		if o.Kind == "size" {
			if k := p.Size(); k != len(rem.Es) {
				return fmt.Sprintf("Size() = %d, the remote tier holds %q", k, got)
			}
		}
		return ""
	}
	for i, o := range c.Ops {
		if s := step(o); s != "" {
			return fmt.Sprintf("step %d %v: %s", i+1, o, s)
		}
		part.State(c.L1, c.TTL, l1.State(), "/", rem.State())
	}
	for _, o := range []Op{{Kind: "keys"}, {Kind: "size"}, {Kind: "get", Key: "a"}, {Kind: "get", Key: "b"}, {Kind: "adv", TTL: 1100 * time.Millisecond}, {Kind: "get", Key: "a"}, {Kind: "get", Key: "b"}, {Kind: "adv", TTL: time.Hour}, {Kind: "get", Key: "a"}} {
		if s := step(o); s != "" {
			return fmt.Sprintf("afterwards %v: %s", o, s)
		}
	}
	_ = world.Now
	return ""
}

func main() {
	lib.Alphabet = "2-3 threads running every program of 1-2 operations (Set, Get, Delete, Purge, Flush, Keys) on four local-tier configurations and four initial states, with scheduling points around every remote command; every sequence of operations, time steps and changes by other nodes up to a depth"
	lib.Assumptions = []string{"the remote tier applies writes in the order they are issued (the client's queue is bypassed)", "sequentially consistent memory between instrumented points", "expiry exactly at the end of a TTL is not decided"}
	lib.Main("C14", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		if c.Replay != nil {
			var r rep
			if json.Unmarshal(c.Replay, &r) == nil && len(r.Ops) > 0 {
				if w := run(p, r); w != "" {
					p.Fail("replay", w, r)
				}
				return
			}
		}
		if c.Replay == nil && !vsched.RaceMode {
			sequences(c, p)
		}
		var scs []lib.Scenario
		few := ops[:5]
		for init := range inits {
			for l1 := range l1s {
				scs = append(scs, scenario(init, l1, ops, []int{1, 1}, 0, false, true))
				scs = append(scs, scenario(init, l1, few, []int{2, 2}, 2, false, false))
				if l1 == 0 || c.Thorough {
					scs = append(scs, scenario(init, l1, ops, []int{1, 1}, 2, true, false))
				}
			}
		}
		for init := range inits {
			scs = append(scs, scenario(init, 0, ops, []int{1, 1, 1}, 1, false, false))
			scs = append(scs, scenario(init, 0, few, []int{1, 1, 1}, 2, false, false))
			if c.Thorough {
				for l1 := range l1s {
					scs = append(scs, scenario(init, l1, few, []int{2, 1, 1}, 2, false, false))
					scs = append(scs, scenario(init, l1, ops, []int{1, 1, 1}, 2, false, false))
				}
				scs = append(scs, scenario(init, 0, ops, []int{2, 2}, 3, false, false))
				scs = append(scs, scenario(init, 0, few, []int{1, 1, 1, 1}, 2, false, false))
				scs = append(scs, scenario(init, 0, few, []int{3, 2}, 2, false, false))
			}
		}
		c.RunScenarios(p, scs)
	})
}

func sequences(c *lib.Check, p *lib.Part) {
	const s = time.Second
	type group struct {
		name     string
		r        rep
		ops      []Op
		quick, d int
	}
	half := 500 * time.Millisecond
	base := []Op{{Kind: "set", Key: "a", Len: 6, TTL: 10 * s}, {Kind: "set", Key: "a", Len: 6, TTL: s + half}, {Kind: "get", Key: "a"}, {Kind: "put", Key: "a", Len: 6, TTL: time.Hour}, {Kind: "put", Key: "a", Len: 6, TTL: s + half},
		{Kind: "drop", Key: "a"}, {Kind: "del", Key: "a"}, {Kind: "purge", Key: "a*"}, {Kind: "flush"}, {Kind: "adv", TTL: s}}
	two := append(append([]Op{}, base[0], base[2], base[3], base[6], base[7], base[9]), Op{Kind: "set", Key: "b", Len: 20, TTL: 10 * s}, Op{Kind: "get", Key: "b"}, Op{Kind: "put", Key: "b", Len: 40, TTL: time.Hour}, Op{Kind: "purge", Key: "b"}, Op{Kind: "set", Key: "a", Len: 40, TTL: 10 * s})
	groups := []group{
		{"time", rep{L1: lrumodel.Conf{Max: 1000, Item: 500, TTL: "120s"}, TTL: 2*s + half}, base, 5, 6},
		{"time, short local copies", rep{L1: lrumodel.Conf{Max: 1000, Item: 500, TTL: "120s"}, TTL: half}, base, 4, 5},
		{"time, no local expiry", rep{L1: lrumodel.Conf{Max: 1000, Item: 500, TTL: "-1"}, TTL: 2*s + half}, base, 4, 5},
		{"two keys, small local tier", rep{L1: lrumodel.Conf{Max: 90, Item: 60, TTL: "120s"}, TTL: 2*s + half}, two, 4, 6},
		{"two keys, remote item limit", rep{L1: lrumodel.Conf{Max: 1000, Item: 500, TTL: "120s"}, TTL: 2*s + half, Item: 30}, two, 4, 5},
		{"two keys, both limits", rep{L1: lrumodel.Conf{Max: 100, Item: 40, TTL: "120s"}, TTL: 2*s + half, Item: 18}, two, 4, 5},
	}
	for _, g := range groups {
		d := g.quick
		if c.Thorough {
			d = g.d
		}
		lib.Bounds[g.name] = fmt.Sprintf("%d operations, depth %d", len(g.ops), d)
		n := 0
		r := g.r
		r.Ops = make([]Op, d)
		c.Seqs(len(g.ops), d, func(seq []int) bool {
			n++
			if n&255 == 0 && c.Expired(p, g.name) {
				return false
			}
			for i, k := range seq {
				r.Ops[i] = g.ops[k]
			}
			p.Traces++
			p.Scenarios["sequences: "+g.name]++
			w := run(p, r)
			if w == "" {
				return true
			}
			for k := 0; k < 5; k++ {
				if run(p, r) == "" {
					p.Unconf = append(p.Unconf, w)
					return true
				}
			}
			best := r
			best.Ops = append([]Op(nil), r.Ops...)
			for i := 0; i < len(best.Ops); {
				t := best
				t.Ops = append(append([]Op(nil), best.Ops[:i]...), best.Ops[i+1:]...)
				if run(p, t) != "" {
					best = t
				} else {
					i++
				}
			}
			var det []string
			for _, o := range best.Ops {
				det = append(det, o.String())
			}
			p.Fail(fmt.Sprint(best), run(p, best), best, det...)
			return len(p.Viols) < 3
		})
	}
}
