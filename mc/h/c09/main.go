// C09: coalesced requests share one origin fetch and every caller is answered.
package main

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"kverif/cosim"
	"kverif/lib"
	"kverif/vsched"
	"kverif/world"
)

func strict() *cache.HttpCacheConfig {
	return &cache.HttpCacheConfig{Strict: true, DefaultTTL: "1000h"}
}

// same: n callers of one URL, outcomes[i] is what exchange i does (the last one repeats).
func same(n, again int, outcomes []string, cached bool, status int, hdr http.Header, points, bound int, plain, race bool) lib.Scenario {
	name := fmt.Sprintf("same url callers=%d repeat=%d outcomes=%v cached=%v status=%d hdr=%s points=%d bound=%d plain=%v", n, again, outcomes, cached, status, world.HeaderString(hdr), points, bound, plain)
	return lib.Scenario{Name: name, Plain: plain, Race: race, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if cached {
			cfg = strict()
		}
		s := cosim.New(x, cfg)
		s.Points = points
		s.Script = func(f *cosim.Fetch, _ *http.Request) (string, http.Header, int) {
			i := f.ID
			if i >= len(outcomes) {
				i = len(outcomes) - 1
			}
			return outcomes[i], hdr, status
		}
		for i := 0; i < n; i++ {
			first := s.Caller("GET", "http://o/x", http.Header{})
			var more []*cosim.Caller
			for k := 0; k < again; k++ {
				more = append(more, s.Caller("GET", "http://o/x", http.Header{}))
			}
			x.Go(fmt.Sprint("client", i), func() {
				s.Run(first)
				for _, c := range more {
					s.Run(c)
				}
			})
		}
		x.Wait()
		s.Check(cached)
		if a, b := s.Overlap(); a != nil {
			x.Fail("two exchanges for one URL at the same time: %d (for caller %d) and %d (for caller %d)", a.ID, a.Caller, b.ID, b.Caller)
		}
		x.Settle()
		// afterwards a new request is served
		c := s.Caller("GET", "http://o/x", http.Header{})
		outcomes := outcomes
		_ = outcomes
		s.Run(c)
		s.Check(cached)
		x.Outcome("%s", s.Describe())
	}}
}

// other: requests for /b go ahead while the exchange for /a is stuck until they are answered.
func other(na, nb int, broken bool, bound int) lib.Scenario {
	name := fmt.Sprintf("other url a=%d b=%d broken=%v bound=%d", na, nb, broken, bound)
	return lib.Scenario{Name: name, Race: na+nb < 4, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		s := cosim.New(x, nil)
		s.Points = 0
		s.Script = func(f *cosim.Fetch, _ *http.Request) (string, http.Header, int) {
			if broken && strings.HasSuffix(f.Key, "a") {
				return "error", nil, 0
			}
			return "ok", nil, 0
		}
		var bs []*cosim.Caller
		s.Gate = func(f *cosim.Fetch) bool {
			if strings.HasSuffix(f.Key, "b") {
				return true
			}
			for _, b := range bs {
				if !b.Done {
					return false
				}
			}
			return true
		}
		for i := 0; i < na; i++ {
			s.Start(s.Caller("GET", "http://o/a", http.Header{}))
		}
		for i := 0; i < nb; i++ {
			b := s.Caller("GET", "http://o/b", http.Header{})
			bs = append(bs, b)
			s.Start(b)
		}
		x.Wait()
		s.Check(false)
		if a, b := s.Overlap(); a != nil {
			x.Fail("two exchanges for one URL at the same time: %d and %d", a.ID, b.ID)
		}
		x.Outcome("%s", s.Describe())
	}}
}

// together: the exchange ends only when every other caller is inside the stack; all share it.
func together(n int, out string, cached bool, bound int) lib.Scenario {
	name := fmt.Sprintf("together callers=%d outcome=%s cached=%v bound=%d", n, out, cached, bound)
	return lib.Scenario{Name: name, Race: n < 3, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if cached {
			cfg = strict()
		}
		s := cosim.New(x, cfg)
		s.Points = 0
		s.Script = func(f *cosim.Fetch, _ *http.Request) (string, http.Header, int) {
			return out, world.H("Cache-Control", "max-age=100", "X-Multi", "1", "X-Multi", "2"), 203
		}
		s.Gate = func(f *cosim.Fetch) bool { return x.OthersBlocked() && len(s.Callers) == n && all(s.Callers) }
		for i := 0; i < n; i++ {
			s.Start(s.Caller("GET", "http://o/x", http.Header{}))
		}
		x.Wait()
		s.Check(cached)
		if len(s.Fetches) != 1 {
			x.Fail("%d callers waiting together caused %d exchanges", n, len(s.Fetches))
		}
		for _, c := range s.Callers {
			if out == "ok" && c.Err == nil && (c.Res.StatusCode != 203 || fmt.Sprint(c.Res.Header["X-Multi"]) != "[1 2]") {
				x.Fail("caller %d got status %d and headers %v", c.ID, c.Res.StatusCode, c.Res.Header)
			}
			if out == "ok" && c.Err != nil {
				x.Fail("caller %d got %v", c.ID, c.Err)
			}
			if out != "ok" && c.Err == nil && c.BodyErr == nil && c.Panicked == nil {
				x.Fail("caller %d got a complete answer from a failed exchange", c.ID)
			}
		}
		x.Outcome("%s", s.Describe())
	}}
}

// leaver: one of n callers is canceled at any moment while the exchange is held; the others share it.
func leaver(n, who int, late, cached bool, bound int) lib.Scenario {
	name := fmt.Sprintf("leaver callers=%d canceled=%d late=%v cached=%v bound=%d", n, who, late, cached, bound)
	return lib.Scenario{Name: name, Race: n < 3, Cfg: vsched.Config{Bound: bound}, Body: func(x *vsched.X) {
		var cfg *cache.HttpCacheConfig
		if cached {
			cfg = strict()
		}
		s := cosim.New(x, cfg)
		s.Points = 0
		s.Script = func(f *cosim.Fetch, _ *http.Request) (string, http.Header, int) {
			return "ok", world.H("Cache-Control", "max-age=100"), 200
		}
		s.Gate = func(f *cosim.Fetch) bool {
			return x.OthersBlocked() && s.Callers[who].Done && all(s.Callers)
		}
		for i := 0; i < n; i++ {
			s.Caller("GET", "http://o/x", http.Header{})
		}
		for i, c := range s.Callers {
			if late && i == n-1 { // comes when the canceled caller has gone
				x.Go("late", func() {
					vsched.Block("late", func() bool { return s.Callers[who].Done })
					s.Run(c)
				})
				continue
			}
			s.Start(c)
		}
		s.CancelLater(s.Callers[who])
		x.Wait()
		s.Check(cached)
		own := 0 // exchanges whose caller stayed
		for _, f := range s.Fetches {
			if f.Caller != who {
				own++
			}
		}
		if own > 1 {
			x.Fail("one of %d callers left and the others needed %d exchanges", n, own)
		}
		for _, c := range s.Callers {
			if c.ID != who && c.Err != nil {
				x.Fail("caller %d got %v because caller %d left", c.ID, c.Err, who)
			}
		}
		x.Outcome("%s", s.Describe())
	}}
}

func all(cs []*cosim.Caller) bool {
	for _, c := range cs {
		if c.Invoked == 0 {
			return false
		}
	}
	return true
}

func main() {
	lib.Alphabet = "2-4 concurrent GETs of one or two URLs (some repeating), origin outcomes ok/error/panic/broken body per exchange, statuses 200/404/500, a caller leaving at any moment, with and without the caching transport below; all schedules up to the preemption bound"
	lib.Assumptions = []string{"sequentially consistent memory between instrumented points; unsynchronised accesses are looked for in the race-detector pass"}
	lib.Main("C09", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		d := 0
		if c.Thorough {
			d = 1
		}
		ma := world.H("Cache-Control", "max-age=100")
		scs := []lib.Scenario{
			together(2, "ok", false, 3+d), together(3, "ok", false, 1+d), together(2, "ok", true, 3+d), together(3, "error", false, 1+d),
			together(3, "panic", false, 1+d), together(3, "broken", false, 1+d), together(3, "error", true, d), together(3, "ok", true, d), together(2, "error", true, 2+d), together(2, "panic", true, 2+d), together(2, "broken", true, 2+d),
			same(2, 0, []string{"ok"}, false, 200, nil, 1, 4+d, false, true),
			same(2, 1, []string{"ok"}, false, 200, nil, 1, 2+d, false, false),
			same(3, 0, []string{"ok"}, false, 404, nil, 1, 1+d, false, true),
			same(2, 0, []string{"error", "ok"}, false, 200, nil, 1, 4+d, false, true),
			same(2, 1, []string{"error", "ok"}, false, 200, nil, 1, 3+d, false, false),
			same(3, 0, []string{"error", "ok"}, false, 200, nil, 1, 1+d, false, false),
			same(2, 0, []string{"panic", "ok"}, false, 200, nil, 1, 4+d, false, true),
			same(3, 0, []string{"panic", "ok"}, false, 200, nil, 1, 1+d, false, false),
			same(3, 0, []string{"panic", "panic", "ok"}, false, 200, nil, 1, 1+d, false, false),
			same(2, 1, []string{"panic", "ok"}, false, 200, nil, 1, 3+d, false, false),
			same(2, 0, []string{"broken", "ok"}, false, 200, nil, 1, 4+d, false, true),
			same(3, 0, []string{"broken", "ok"}, false, 200, nil, 1, 1+d, false, false),
			same(3, 0, []string{"ok", "error", "ok"}, false, 500, nil, 1, 1+d, false, false),
			same(2, 0, []string{"ok"}, true, 200, ma, 1, 2+d, false, true),
			same(3, 0, []string{"ok"}, true, 200, ma, 1, 1+d, false, false),
			same(2, 1, []string{"ok"}, true, 200, nil, 1, 1+d, false, false),
			same(2, 0, []string{"error", "ok"}, true, 200, ma, 1, 3+d, false, true),
			same(2, 0, []string{"panic", "ok"}, true, 200, ma, 1, 3+d, false, true),
			same(2, 0, []string{"broken", "ok"}, true, 200, ma, 1, 3+d, false, true),
			same(4, 0, []string{"ok"}, false, 200, nil, 0, 0+d, false, false),
			same(2, 0, []string{"ok"}, false, 200, nil, 1, 2+d, true, false),
			same(2, 0, []string{"panic", "ok"}, false, 200, nil, 1, 2+d, true, false),
			same(2, 0, []string{"broken", "ok"}, false, 200, nil, 1, 2+d, true, false),
			same(2, 0, []string{"ok"}, true, 200, ma, 1, 1+d, true, false),
			leaver(2, 1, false, false, 2+d), leaver(2, 0, false, false, 2+d), leaver(3, 1, true, false, 1+d), leaver(3, 2, false, false, 1+d), leaver(3, 0, true, false, 1+d), leaver(3, 1, true, true, d), leaver(2, 1, false, true, 1+d),
			other(1, 1, false, 3+d), other(2, 1, false, 3+d), other(2, 2, false, 1+d), other(1, 2, false, 3+d), other(2, 1, true, 3+d), other(3, 1, false, 1+d),
		}
		c.RunScenarios(p, scs)
	})
}
