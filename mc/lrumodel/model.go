// Package lrumodel is the reference model of the in-memory store.
package lrumodel

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"kverif/world"
)

// Overhead is accounted per entry besides the value.
const Overhead = 24

// Op of a sequence.
type Op struct {
	Kind string        `json:"kind"` // set get del purge flush keys size adv
	Key  string        `json:"key,omitempty"`
	Len  int           `json:"len,omitempty"`
	TTL  time.Duration `json:"ttl,omitempty"`
}

func (o Op) String() string {
	switch o.Kind {
	case "set":
		return fmt.Sprintf("Set(%q, %d bytes, %v)", o.Key, o.Len, o.TTL)
	case "adv":
		return fmt.Sprintf("+%v", o.TTL)
	}
	return fmt.Sprintf("%s(%q)", o.Kind, o.Key)
}

// Conf of the cache under test.
type Conf struct {
	Max, Item uint64
	TTL       string
}

// Ent of the reference model.
type Ent struct {
	Key string
	Val string
	Exp time.Duration
}

// Model is the reference: entries from least to most recently used.
type Model struct {
	C     Conf
	Evict bool
	Es    []Ent
}

func (m *Model) Find(k string) int {
	for i := range m.Es {
		if m.Es[i].Key == k {
			return i
		}
	}
	return -1
}

func (m *Model) Rm(i int) { m.Es = append(m.Es[:i:i], m.Es[i+1:]...) }

func (m *Model) Dead(i int) bool { return m.Evict && world.Now() > m.Es[i].Exp }

func (m *Model) Bytes() (n uint64) {
	for _, e := range m.Es {
		n += Overhead + uint64(len(e.Val))
	}
	return
}

func (m *Model) Set(k, v string, ttl time.Duration) {
	if i := m.Find(k); i >= 0 {
		m.Rm(i)
	}
	if uint64(len(v))+Overhead > m.C.Item {
		return
	}
	for m.Bytes()+Overhead+uint64(len(v)) > m.C.Max {
		m.Rm(0)
	}
	m.Es = append(m.Es, Ent{k, v, world.Now() + ttl})
}

// Match tells whether a pattern with * matches.
func Match(pat, s string) bool {
	if !strings.Contains(pat, "*") {
		return pat == s
	}
	ps := strings.Split(pat, "*")
	if !strings.HasPrefix(s, ps[0]) {
		return false
	}
	s = s[len(ps[0]):]
	for _, p := range ps[1 : len(ps)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, ps[len(ps)-1])
}

func (m *Model) State() string {
	var b strings.Builder
	now := world.Now()
	for _, e := range m.Es {
		fmt.Fprintf(&b, "%s:%d:%v ", e.Key, len(e.Val), e.Exp-now)
	}
	return b.String()
}

// New makes an empty model.
func New(c Conf) *Model { return &Model{C: c, Evict: c.TTL != "-1"} }

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := *m
	n.Es = append([]Ent(nil), m.Es...)
	return &n
}

// Res is what an operation returned.
type Res struct {
	Nil  bool
	Val  string
	Ok   bool
	Keys []string
	N    int
	Err  string
}

// Apply runs an operation (val: value of a set) and tells what is wrong with the result.
func (m *Model) Apply(o Op, val string, r Res) string {
	if r.Err != "" {
		return fmt.Sprintf("%v failed: %s", o, r.Err)
	}
	switch o.Kind {
	case "set":
		m.Set(o.Key, val, o.TTL)
	case "get":
		i := m.Find(o.Key)
		if i >= 0 && m.Dead(i) {
			m.Rm(i)
			i = -1
		}
		if i < 0 {
			if !r.Nil {
				return fmt.Sprintf("Get(%q) = %q, nothing is stored under it", o.Key, r.Val)
			}
			break
		}
		if r.Nil || r.Val != m.Es[i].Val {
			return fmt.Sprintf("Get(%q) = %q (nil: %v), last set was %q", o.Key, r.Val, r.Nil, m.Es[i].Val)
		}
		e := m.Es[i]
		m.Rm(i)
		m.Es = append(m.Es, e)
	case "del":
		i := m.Find(o.Key)
		if i < 0 && r.Ok {
			return fmt.Sprintf("Delete(%q) = true, nothing is stored under it", o.Key)
		}
		if i >= 0 {
			if !r.Ok && !m.Dead(i) {
				return fmt.Sprintf("Delete(%q) = false, an entry is stored under it", o.Key)
			}
			m.Rm(i)
		}
	case "purge":
		for i := len(m.Es) - 1; i >= 0; i-- {
			if o.Key == "" || Match(o.Key, m.Es[i].Key) {
				m.Rm(i)
			}
		}
	case "flush":
		m.Es = nil
	case "keys":
		return m.Listing(o.Key, r.Keys)
	case "size":
		need := 0
		for i := range m.Es {
			if !m.Dead(i) {
				need++
			}
		}
		if r.N < need || r.N > len(m.Es) {
			return fmt.Sprintf("Size() = %d, entries held should be %s", r.N, m.State())
		}
	}
	return ""
}

// Listing compares a key listing; an expired entry may or may not be listed.
func (m *Model) Listing(prefix string, got []string) string {
	need, may := map[string]bool{}, map[string]bool{}
	for i, e := range m.Es {
		if strings.HasPrefix(e.Key, prefix) {
			may[e.Key] = true
			if !m.Dead(i) {
				need[e.Key] = true
			}
		}
	}
	sort.Strings(got)
	seen := map[string]bool{}
	for _, k := range got {
		if seen[k] {
			return fmt.Sprintf("Keys(%q) lists %q twice", prefix, k)
		}
		seen[k] = true
		if !may[k] {
			return fmt.Sprintf("Keys(%q) = %q lists %q, entries held should be %s (from least recently used)", prefix, got, k, m.State())
		}
	}
	for k := range need {
		if !seen[k] {
			return fmt.Sprintf("Keys(%q) = %q lacks %q, entries held should be %s (from least recently used)", prefix, got, k, m.State())
		}
	}
	return ""
}

// Call is an operation of a concurrent history.
type Call struct {
	Op       Op
	Val      string
	Inv, Ret int // positions in the history; Ret 0: not returned
	Res      Res
}

// Linearizable searches an order of the calls that respects real time and explains every result;
// final is called with the resulting state and must return "" for the order to count.
func Linearizable(m *Model, calls []*Call, final func(*Model) string) (ok bool, why string) {
	done := make([]bool, len(calls))
	var rec func(m *Model, left int) bool
	rec = func(m *Model, left int) bool {
		if left == 0 {
			why = final(m)
			return why == ""
		}
		for i, c := range calls {
			if done[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !done[j] && j != i && d.Ret < c.Inv {
					first = false
				}
			}
			if !first {
				continue
			}
			n := m.Clone()
			if w := n.Apply(c.Op, c.Val, c.Res); w != "" {
				if why == "" {
					why = w
				}
				continue
			}
			done[i] = true
			if rec(n, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	ok = rec(m, len(calls))
	return
}
