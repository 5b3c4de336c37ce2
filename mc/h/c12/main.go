// C12: the in-memory cache is linearizable under concurrent use.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"kverif/lib"
	"kverif/lrumodel"
	"kverif/vsched"
)

type Op = lrumodel.Op

var conf = lrumodel.Conf{Max: 100, Item: 60, TTL: "120s"}

var ops = []Op{
	{Kind: "set", Key: "a", Len: 6, TTL: time.Hour},
	{Kind: "set", Key: "a", Len: 30, TTL: time.Hour},
	{Kind: "set", Key: "b", Len: 30, TTL: time.Hour},
	{Kind: "set", Key: "a", Len: 37, TTL: time.Hour}, // over the item limit
	{Kind: "get", Key: "a"},
	{Kind: "get", Key: "b"},
	{Kind: "del", Key: "a"},
	{Kind: "purge", Key: "a*"},
	{Kind: "purge"},
	{Kind: "flush"},
	{Kind: "keys"},
	{Kind: "size"},
	{Kind: "keys", Key: "b"},
	{Kind: "purge", Key: "b"},
	{Kind: "purge", Key: "*"},
}

func pad(s string, n int) string {
	for len(s) < n {
		s += s
	}
	return s[:n]
}

var states = []struct {
	name string
	ops  []Op
	adv  time.Duration
}{
	{"empty", nil, 0},
	{"full", []Op{{Kind: "set", Key: "a", Len: 6, TTL: time.Hour}, {Kind: "set", Key: "b", Len: 30, TTL: time.Hour}}, 0},
	{"expired a", []Op{{Kind: "set", Key: "a", Len: 20, TTL: time.Second}, {Kind: "set", Key: "b", Len: 6, TTL: time.Hour}}, 2 * time.Second},
}

// hist records a concurrent history; only one thread runs at a time.
type hist struct {
	x     *vsched.X
	p     provider.Provider
	m     *lrumodel.Model
	calls []*lrumodel.Call
	clock int
	n     int
}

func (h *hist) tick() int { h.clock++; return h.clock }

func (h *hist) val(n int) string {
	h.n++
	return pad(fmt.Sprintf("%c%02d", 'A'+h.n, h.n), n)
}

func (h *hist) do(o Op) *lrumodel.Call {
	c := &lrumodel.Call{Op: o, Ret: 1 << 30}
	if o.Kind == "set" {
		c.Val = h.val(o.Len)
	}
	h.calls = append(h.calls, c)
	c.Inv = h.tick()
	if o.Kind == "set" {
		h.p.Set(o.Key, []byte(c.Val), o.TTL)
	} else {
		c.Res = lrumodel.Do(h.p, o)
	}
	c.Ret = h.tick()
	return c
}

func (h *hist) String() string {
	var s []string
	for _, c := range h.calls {
		s = append(s, fmt.Sprintf("[%d-%d] %v val=%q -> %+v", c.Inv, c.Ret, c.Op, c.Val, c.Res))
	}
	return strings.Join(s, "\n")
}

func start(x *vsched.X, st int) *hist {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: conf.Max, MaxItemSize: conf.Item, DefaultTTL: conf.TTL})
	if err != nil {
		panic(err)
	}
	h := &hist{x: x, p: p, m: lrumodel.New(conf)}
	for _, o := range states[st].ops {
		v := h.val(o.Len)
		p.Set(o.Key, []byte(v), o.TTL)
		h.m.Set(o.Key, v, o.TTL)
	}
	x.Advance(states[st].adv)
	return h
}

// judge looks at what the cache holds afterwards and searches an order that explains everything.
func (h *hist) judge() {
	keys := h.p.Keys(context.Background(), "")
	if n := h.p.Size(); n != len(keys) {
		h.x.Fail("afterwards Size() = %d, Keys lists %q\n%s", n, keys, h)
		return
	}
	// a fixed sequence afterwards exposes values, order and accounting
	var after []*lrumodel.Call
	conc := h.calls
	h.calls = nil
	for _, o := range []Op{{Kind: "set", Key: "f", Len: 0, TTL: time.Hour}, {Kind: "keys"}, {Kind: "get", Key: "a"}, {Kind: "get", Key: "b"}, {Kind: "set", Key: "g", Len: 36, TTL: time.Hour}, {Kind: "keys"}, {Kind: "set", Key: "i", Len: 0, TTL: time.Hour}, {Kind: "set", Key: "j", Len: 0, TTL: time.Hour}, {Kind: "keys"}} {
		after = append(after, h.do(o))
	}
	h.calls = append(conc, after...)
	ok, why := lrumodel.Linearizable(h.m, conc, func(m *lrumodel.Model) string {
		if w := m.Listing("", keys); w != "" {
			return w
		}
		m = m.Clone()
		for _, c := range after {
			if w := m.Apply(c.Op, c.Val, c.Res); w != "" {
				return "afterwards: " + w
			}
		}
		return ""
	})
	if !ok {
		h.x.Fail("no order of the operations explains their results: %s\n%s", why, h)
	}
	var s []string
	for _, c := range conc {
		if c.Op.Kind == "get" {
			s = append(s, fmt.Sprint(c.Op.Key, !c.Res.Nil))
		}
	}
	h.x.Outcome("%v keys=%v", s, keys)
}

// programs enumerates all programs of n operations by choice.
func program(alphabet []Op, n int) []Op {
	out := make([]Op, n)
	k := 1
	for i := 0; i < n; i++ {
		k *= len(alphabet)
	}
	c := vsched.Choose(k)
	for i := range out {
		out[i] = alphabet[c%len(alphabet)]
		c /= len(alphabet)
	}
	return out
}

func scenario(st int, alphabet []Op, lens []int, bound int, plain, race bool) lib.Scenario {
	return lib.Scenario{Name: fmt.Sprintf("%s, threads with %v of %d operations, bound=%d plain=%v", states[st].name, lens, len(alphabet), bound, plain), Plain: plain, Race: race,
		Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
			var progs [][]Op
			x.Explore(func() {
				for _, n := range lens {
					progs = append(progs, program(alphabet, n))
				}
			})
			h := start(x, st)
			for i, pr := range progs {
				x.Go(fmt.Sprint("t", i), func() {
					for _, o := range pr {
						h.do(o)
					}
				})
			}
			x.Wait()
			h.judge()
		}}
}

func main() {
	lib.Alphabet = "2-3 threads running every program of 1-2 operations (thorough: 3) over 15 operations (Set of several sizes, Get, Delete, Purge, Flush, Keys, Size) on an empty, a full and a partly expired cache"
	lib.Assumptions = []string{"sequentially consistent memory between instrumented points; unsynchronised accesses are left to the race pass", "an expired entry may be listed until it is touched"}
	lib.Main("C12", 75*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		var scs []lib.Scenario
		few := []Op{ops[0], ops[2], ops[4], ops[6], ops[7], ops[9], ops[10]}
		mid := append(append([]Op{}, few...), ops[5], ops[8], ops[11], ops[14])
		for st := range states {
			scs = append(scs, scenario(st, ops, []int{1, 1}, 0, false, true))
			scs = append(scs, scenario(st, ops, []int{1, 1}, 2, true, false))
			scs = append(scs, scenario(st, mid, []int{2, 2}, 2, false, false))
			scs = append(scs, scenario(st, mid, []int{1, 1, 1}, 3, false, false))
			scs = append(scs, scenario(st, few, []int{2, 1, 1}, 1, false, false))
			if c.Thorough {
				scs = append(scs, scenario(st, ops, []int{1, 1}, 4, true, false))
				scs = append(scs, scenario(st, ops, []int{2, 2}, 2, false, false))
				scs = append(scs, scenario(st, ops, []int{1, 1, 1}, 3, false, false))
				scs = append(scs, scenario(st, few, []int{3, 3}, 3, false, false))
				scs = append(scs, scenario(st, few, []int{2, 2, 2}, 2, false, false))
				scs = append(scs, scenario(st, ops, []int{2, 1, 1}, 2, false, false))
				scs = append(scs, scenario(st, few, []int{1, 1, 1, 1}, 4, false, false))
			}
		}
		c.RunScenarios(p, scs)
	})
}
