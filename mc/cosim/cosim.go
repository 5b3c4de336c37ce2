// Package cosim drives the coalescing transport under the controlled scheduler: several callers, a
// scripted origin whose exchanges are scheduling intervals, cancellation, and a monitor.
package cosim

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/server/middleware"
	"kverif/vsched"
	"kverif/world"
)

type key int

const callerKey key = 0

// Fetch is one exchange with the origin.
type Fetch struct {
	Res        *Track // nil: no body
	ID         int
	Caller     int // who asked
	Key        string
	Begin, End int // logical times; End 0: running
	Ended      bool
	Outcome    string
	Body       string
	Variant    string
}

// Caller is one request.
type Caller struct {
	ID           int
	Method, URL  string
	Header       http.Header
	Body         string
	Chunked      bool // the length of Body is not known beforehand
	Invoked      int
	Answered     int // the round trip returned (or panicked); the body may be outstanding
	Returned     int
	Done         bool
	Res          *http.Response
	Err          error
	Got          string // body
	BodyErr      error
	Panicked     any
	Canceled     bool
	Cancel       context.CancelFunc
	Ctx          context.Context
	canceledAt   int
	From         *Fetch
	MutateHeader bool
	Chunk        int
	Leave        int // 1: closes the body unread, 2: after a part
}

// Origin scripts the answers. Script returns outcome kinds: "ok", "error", "panic", "broken".
type Sim struct {
	X       *vsched.X
	RT      http.RoundTripper
	Clock   int
	Fetches []*Fetch
	Callers []*Caller
	Script  func(f *Fetch, req *http.Request) (outcome string, header http.Header, status int)
	Gate    func(f *Fetch) bool // the origin answers when it holds (nil: at once)
	Points  int                 // scheduling points inside the exchange
	NoOver  bool                // set by Check
	Shared  func(f *Fetch) bool // the answer may be shared
}

func (s *Sim) tick() int { s.Clock++; return s.Clock }

// New builds the stack. cached adds the caching transport between the coalescer and the origin.
func New(x *vsched.X, cfg *cache.HttpCacheConfig) *Sim {
	s := &Sim{X: x, Points: 1}
	if cfg == nil {
		s.RT = middleware.NewCoalesced(origin{s})
		return s
	}
	hc, err := cache.NewHttpCache(cfg, world.NewProvider())
	if err != nil {
		panic(err)
	}
	tr := middleware.NewCachedTransport(hc, nil)
	tr.Transport = origin{s}
	s.RT = middleware.NewCoalesced(tr)
	return s
}

// Track is a response body that knows whether the exchange was released.
type Track struct {
	io.ReadCloser
	Ended, Closed bool
}

func (t *Track) Read(p []byte) (int, error) {
	n, err := t.ReadCloser.Read(p)
	t.Ended = t.Ended || err != nil
	return n, err
}

func (t *Track) Close() error {
	t.Closed = true
	return t.ReadCloser.Close()
}

// Released reports the first exchange whose answer was neither read to its end nor closed.
func (s *Sim) Released() *Fetch {
	for _, f := range s.Fetches {
		if f.Res != nil && !f.Res.Ended && !f.Res.Closed {
			return f
		}
	}
	return nil
}

type origin struct{ s *Sim }

type brokenBody struct{ io.Reader }

var errBroken = errors.New("unexpected end of body")

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = errBroken
	}
	return n, err
}
func (b brokenBody) Close() error { return nil }

// ErrOrigin is what a failing exchange returns.
var ErrOrigin = errors.New("origin failed")

func (o origin) RoundTrip(req *http.Request) (*http.Response, error) {
	s := o.s
	f := &Fetch{ID: len(s.Fetches), Caller: -1, Key: req.URL.String(), Begin: s.tick()}
	if c, ok := req.Context().Value(callerKey).(int); ok {
		f.Caller = c
	}
	if req.Body != nil {
		_, _ = io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	s.Fetches = append(s.Fetches, f)
	out, h, st := s.Script(f, req)
	f.Outcome = out
	for i := 0; i < s.Points; i++ {
		vsched.Op("origin exchange")
	}
	ctx := req.Context()
	if s.Gate != nil {
		// (the predicate runs in whichever thread yields, so it must not touch the context itself)
		vsched.Block("origin gate", func() bool { return f.Caller >= 0 && s.Callers[f.Caller].Canceled || s.Gate(f) })
	}
	end := func() { f.End, f.Ended = s.tick(), true }
	if err := ctx.Err(); err != nil {
		f.Outcome = "canceled"
		end()
		return nil, err
	}
	switch out {
	case "error":
		end()
		return nil, fmt.Errorf("fetch %d: %w", f.ID, ErrOrigin)
	case "panic":
		end()
		panic("origin panics")
	}
	body := fmt.Sprintf("fetch=%d caller=%d url=%s", f.ID, f.Caller, f.Key)
	f.Body = body
	hs := []string{fmt.Sprintf("X-Fetch: %d", f.ID)}
	for k, vv := range h {
		for _, v := range vv {
			hs = append(hs, k+": "+v)
		}
	}
	if st == 0 {
		st = 200
	}
	res, err := http.ReadResponse(bufio.NewReader(strings.NewReader(world.Raw(st, body, hs...))), req)
	if err != nil {
		panic(err)
	}
	if out == "broken" {
		res.Body = brokenBody{strings.NewReader(body[:len(body)/2])}
	}
	if res.Body != http.NoBody {
		f.Res = &Track{ReadCloser: res.Body}
		res.Body = f.Res
	}
	end()
	return res, nil
}

// Caller adds a caller; it starts with Start.
func (s *Sim) Caller(method, url string, h http.Header) *Caller {
	c := &Caller{ID: len(s.Callers), Method: method, URL: url, Header: h, MutateHeader: true}
	c.Ctx, c.Cancel = context.WithCancel(context.WithValue(context.Background(), callerKey, c.ID))
	s.Callers = append(s.Callers, c)
	return c
}

// Run performs the request of c in the current thread.
func (s *Sim) Run(c *Caller) {
	defer func() {
		if e := recover(); e != nil {
			c.Panicked = e
			c.Done = true
			c.Returned = s.tick()
			if c.Answered == 0 {
				c.Answered = c.Returned
			}
		}
	}()
	req := world.NewRequest(c.Ctx, c.Method, c.URL, c.Header, c.Body)
	if c.Chunked {
		req.ContentLength, req.GetBody = -1, nil
	}
	c.Invoked = s.tick()
	res, err := s.RT.RoundTrip(req)
	c.Res, c.Err = res, err
	c.Answered = s.tick()
	if err == nil && res == nil {
		s.X.Fail("caller %d got neither response nor error", c.ID)
	}
	if err == nil && res != nil {
		if c.MutateHeader {
			if v := res.Header["X-Mine"]; len(v) > 0 {
				s.X.Fail("caller %d sees a header set by another caller on its own response", c.ID)
			}
			res.Header.Set("X-Mine", fmt.Sprint(c.ID))
		}
		if res.Body != nil {
			buf := make([]byte, 16)
			for i := 0; c.Leave == 0 || i < c.Leave-1; i++ {
				n, e := res.Body.Read(buf)
				c.Got += string(buf[:n])
				vsched.Op("read body")
				if e != nil {
					if e != io.EOF {
						c.BodyErr = e
					}
					break
				}
			}
			res.Body.Close()
		}
		if c.MutateHeader && (len(res.Header["X-Mine"]) != 1 || res.Header.Get("X-Mine") != fmt.Sprint(c.ID)) {
			s.X.Fail("headers of caller %d changed under it: X-Mine %q", c.ID, res.Header["X-Mine"])
		}
	}
	c.Returned = s.tick()
	c.Done = true
	if err == nil && res != nil {
		var n int
		if _, e := fmt.Sscan(res.Header.Get("X-Fetch"), &n); e == nil && n < len(s.Fetches) {
			c.From = s.Fetches[n]
		}
	}
}

// Start runs c in a thread of its own.
func (s *Sim) Start(c *Caller) { s.X.Go(fmt.Sprint("caller", c.ID), func() { s.Run(c) }) }

// CancelLater cancels c's context in a thread of its own, at any point after it was invoked.
func (s *Sim) CancelLater(c *Caller) {
	s.X.Go(fmt.Sprint("cancel", c.ID), func() {
		vsched.Block("cancel", func() bool { return c.Invoked > 0 })
		vsched.Op("cancel")
		c.Canceled = true
		c.canceledAt = s.tick()
		c.Cancel()
	})
}

// Describe summarises who got what.
func (s *Sim) Describe() string {
	var b []string
	for _, c := range s.Callers {
		r := "?"
		switch {
		case c.Panicked != nil:
			r = "panic"
		case c.Err != nil:
			r = "err"
		case c.BodyErr != nil:
			r = "brk"
		case c.From != nil && c.From.Caller == c.ID:
			r = "own"
		case c.From != nil:
			r = fmt.Sprint("of", c.From.Caller)
		}
		b = append(b, r)
	}
	return fmt.Sprintf("%s fetches=%d", strings.Join(b, ","), len(s.Fetches))
}

// Check applies the rules common to all scenarios after everybody returned.
func (s *Sim) Check(cached bool) {
	x := s.X
	for _, c := range s.Callers {
		if c.Invoked == 0 {
			continue
		}
		if !c.Done {
			x.Fail("caller %d never returned", c.ID)
			continue
		}
		if c.Panicked != nil {
			own := false
			for _, f := range s.Fetches {
				own = own || f.Caller == c.ID && f.Outcome == "panic"
			}
			if !own {
				x.Fail("caller %d panicked although its own exchange did not: %v", c.ID, c.Panicked)
			}
			continue
		}
		if c.Err != nil {
			if c.Canceled && errors.Is(c.Err, context.Canceled) {
				continue
			}
			// an error must stem from a failed exchange this caller could have been waiting for
			ok := false
			for _, f := range s.Fetches {
				if f.Outcome != "ok" && f.Outcome != "canceled" && f.Key == c.URL && f.Ended && s.Over(f) > c.Invoked {
					ok = true
				}
			}
			if !ok {
				x.Fail("caller %d got error %v although no exchange it took part in failed", c.ID, c.Err)
			}
			if errors.Is(c.Err, context.Canceled) {
				x.Fail("caller %d got the cancellation of somebody else: %v", c.ID, c.Err)
			}
			continue
		}
		if c.From == nil {
			x.Fail("caller %d got a response of no exchange: %d %v %q", c.ID, c.Res.StatusCode, c.Res.Header, c.Got)
			continue
		}
		f := c.From
		if f.Key != c.URL {
			x.Fail("caller %d of %s got the response of %s", c.ID, c.URL, f.Key)
		}
		switch {
		case f.Outcome == "broken":
			if c.BodyErr == nil {
				x.Fail("caller %d was given a truncated body as complete: %q", c.ID, c.Got)
			}
		case c.BodyErr != nil:
			x.Fail("caller %d: reading the body failed: %v", c.ID, c.BodyErr)
		case c.Method != "HEAD" && c.Got != f.Body:
			x.Fail("caller %d read %q, the exchange gave %q", c.ID, c.Got, f.Body)
		}
		if !cached && s.Over(f) < c.Invoked {
			x.Fail("caller %d, arriving after exchange %d had been answered, was answered from it", c.ID, f.ID)
		}
	}
}

// Over returns when the exchange was over for the one who asked: the origin having answered, the
// coalescer still has to take the answer.
func (s *Sim) Over(f *Fetch) int {
	if f.Caller >= 0 && s.Callers[f.Caller].Answered > f.End {
		return s.Callers[f.Caller].Answered
	}
	return f.End
}

// Overlap returns two overlapping exchanges for one URL.
func (s *Sim) Overlap() (a, b *Fetch) {
	for i, f := range s.Fetches {
		for _, g := range s.Fetches[i+1:] {
			if f.Key == g.Key && f.Begin < g.End && g.Begin < f.End {
				return f, g
			}
		}
	}
	return nil, nil
}
