// Package fakeredis is an in-memory Redis behind the real go-redis client: a client hook answers
// every command, so that calls can be scheduled, delayed, failed and corrupted deterministically.
package fakeredis

import (
	"context"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/redis/go-redis/v9"
	"kverif/vsched"
)

// Call is one command seen by the server.
type Call struct {
	N    int
	Name string
	Args []string
}

// Action tells what happens to a call.
type Action struct {
	Err     error   // fails; the command is not executed
	After   bool    // with Err: the command is executed, its answer is lost
	Drop    bool    // acknowledged but not executed
	Replace *string // GET: answer instead
}

type item struct {
	val string
	exp int64 // virtual ns, 0: never
}

// Server holds the data; it may be shared by several clients.
type Server struct {
	mu     sync.Mutex
	data   map[string]item
	scans  map[uint64][]string
	cursor uint64
	Page   int // keys visited per SCAN call
	N      int
	Calls  []Call
	Record bool
	Fault  func(c Call) Action
	synced chan struct{}                 // a marker has been handled
	seen   atomic.Int64                  // the last one
	lost   atomic.Int64                  // markers that did not come
	Sched  bool                          // scheduling points around every command
	Before func(name string, args []any) // called before a command is looked at
}

// New makes an empty server.
func New() *Server {
	return &Server{synced: make(chan struct{}, 1), data: map[string]item{}, scans: map[uint64][]string{}, Page: 10}
}

var (
	once sync.Once
	real *miniredis.Miniredis
)

// Endpoint is the address of the process-wide real server used for connecting only.
func Endpoint() string {
	once.Do(func() {
		var err error
		if real, err = miniredis.Run(); err != nil {
			panic(err)
		}
	})
	return real.Addr()
}

// Client makes a client of the code under test whose commands go to s.
func (s *Server) Client(cfg provider.RedisClientConfig) provider.RemoteCacheClient {
	if cfg.Endpoint == "" {
		cfg.Endpoint = Endpoint()
	}
	if cfg.MaxQueueConcurrency == 0 {
		cfg.MaxQueueConcurrency = 1
	}
	if cfg.MaxQueueBufferSize == 0 {
		cfg.MaxQueueBufferSize = 100
	}
	c, err := provider.NewRedisClient("fake", cfg)
	if err != nil {
		panic(err)
	}
	c.(interface{ AddHook(redis.Hook) }).AddHook(s)
	return c
}

func (s *Server) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, network, addr string) (net.Conn, error) { return next(ctx, network, addr) }
}

func (s *Server) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		for _, c := range cmds {
			if n := c.Name(); n == "hello" || n == "client" || n == "auth" || n == "select" {
				return next(ctx, cmds)
			}
		}
		var first error
		for _, c := range cmds {
			if err := s.process(ctx, c); err != nil && first == nil {
				first = err
			}
		}
		return first
	}
}

func (s *Server) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		switch cmd.Name() {
		case "hello", "client", "auth", "select":
			return next(ctx, cmd)
		}
		return s.process(ctx, cmd)
	}
}

func (s *Server) process(ctx context.Context, cmd redis.Cmder) error {
	if s.Sched {
		vsched.Op("redis " + cmd.Name())
	}
	if s.Before != nil {
		s.Before(cmd.Name(), cmd.Args())
	}
	if err := ctx.Err(); err != nil {
		cmd.SetErr(err)
		return err
	}
	s.mu.Lock()
	args := make([]string, len(cmd.Args()))
	for i, a := range cmd.Args() {
		switch v := a.(type) {
		case string:
			args[i] = v
		case []byte:
			args[i] = string(v)
		default:
			args[i] = fmt.Sprint(v)
		}
	}
	args[0] = strings.ToLower(args[0])
	if len(args) > 1 && strings.HasPrefix(args[1], marker) {
		s.mu.Unlock()
		if n, err := strconv.ParseInt(args[1][len(marker):], 10, 64); err == nil {
			s.seen.Store(max(n, s.seen.Load()))
		}
		select {
		case s.synced <- struct{}{}:
		default:
		}
		return s.ack(cmd)
	}
	s.N++
	call := Call{s.N, args[0], args[1:]}
	if s.Record {
		s.Calls = append(s.Calls, call)
	}
	var act Action
	if s.Fault != nil {
		act = s.Fault(call)
	}
	var err error
	switch {
	case act.Err != nil && !act.After:
		err = act.Err
	case act.Drop:
		err = s.ack(cmd)
	default:
		err = s.exec(cmd, args)
		if act.Err != nil {
			err = act.Err
		}
		if act.Replace != nil && err == nil {
			if c, ok := cmd.(*redis.StringCmd); ok {
				c.SetVal(*act.Replace)
			}
		}
	}
	s.mu.Unlock()
	cmd.SetErr(err)
	if s.Sched {
		vsched.Op("redis " + cmd.Name() + " done")
	}
	return err
}

func (s *Server) ack(cmd redis.Cmder) error {
	switch c := cmd.(type) {
	case *redis.StatusCmd:
		c.SetVal("OK")
	case *redis.IntCmd:
		c.SetVal(1)
	case *redis.StringCmd:
		return redis.Nil
	}
	return nil
}

func (s *Server) live(k string) (item, bool) {
	it, ok := s.data[k]
	if ok && it.exp != 0 && vsched.NowNanos() >= it.exp {
		delete(s.data, k)
		return it, false
	}
	return it, ok
}

func (s *Server) sorted() (ks []string) {
	for k := range s.data {
		if _, ok := s.live(k); ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

func (s *Server) exec(cmd redis.Cmder, a []string) error {
	switch a[0] {
	case "ping":
		cmd.(*redis.StatusCmd).SetVal("PONG")
	case "get":
		it, ok := s.live(a[1])
		if !ok {
			return redis.Nil
		}
		cmd.(*redis.StringCmd).SetVal(it.val)
	case "getdel":
		it, ok := s.live(a[1])
		if !ok {
			return redis.Nil
		}
		delete(s.data, a[1])
		cmd.(*redis.StringCmd).SetVal(it.val)
	case "set", "setex", "psetex":
		it := item{}
		set := true
		ttl := func(v string, unit time.Duration) error {
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil || n <= 0 {
				return fmt.Errorf("ERR invalid expire time in '%s' command", a[0])
			}
			it.exp = vsched.NowNanos() + n*int64(unit)
			return nil
		}
		switch a[0] {
		case "setex", "psetex":
			u := time.Second
			if a[0] == "psetex" {
				u = time.Millisecond
			}
			if err := ttl(a[2], u); err != nil {
				return err
			}
			it.val = a[3]
		default:
			it.val = a[2]
			for i := 3; i < len(a); i++ {
				var err error
				switch strings.ToLower(a[i]) {
				case "ex":
					i++
					err = ttl(a[i], time.Second)
				case "px":
					i++
					err = ttl(a[i], time.Millisecond)
				case "keepttl":
					it.exp = s.data[a[1]].exp
				case "nx":
					_, ok := s.live(a[1])
					set = set && !ok
				case "xx":
					_, ok := s.live(a[1])
					set = set && ok
				default:
					return fmt.Errorf("ERR syntax error")
				}
				if err != nil {
					return err
				}
			}
		}
		if set {
			s.data[a[1]] = it
		}
		switch c := cmd.(type) {
		case *redis.StatusCmd:
			if !set {
				return redis.Nil
			}
			c.SetVal("OK")
		case *redis.BoolCmd:
			c.SetVal(set)
		}
	case "del", "unlink", "exists":
		n := int64(0)
		for _, k := range a[1:] {
			if _, ok := s.live(k); ok {
				n++
				if a[0] != "exists" {
					delete(s.data, k)
				}
			}
		}
		cmd.(*redis.IntCmd).SetVal(n)
	case "flushdb", "flushall":
		s.data = map[string]item{}
		cmd.(*redis.StatusCmd).SetVal("OK")
	case "dbsize":
		cmd.(*redis.IntCmd).SetVal(int64(len(s.sorted())))
	case "keys":
		var out []string
		for _, k := range s.sorted() {
			if Glob(a[1], k) {
				out = append(out, k)
			}
		}
		cmd.(*redis.StringSliceCmd).SetVal(out)
	case "mget":
		var out []any
		for _, k := range a[1:] {
			if it, ok := s.live(k); ok {
				out = append(out, it.val)
			} else {
				out = append(out, nil)
			}
		}
		cmd.(*redis.SliceCmd).SetVal(out)
	case "ttl", "pttl":
		it, ok := s.live(a[1])
		d := time.Duration(-2)
		if ok {
			d = -1
			if it.exp != 0 {
				d = time.Duration(it.exp - vsched.NowNanos())
			}
		}
		cmd.(*redis.DurationCmd).SetVal(d)
	case "scan":
		cur, _ := strconv.ParseUint(a[1], 10, 64)
		match, count := "*", s.Page
		for i := 2; i+1 < len(a); i += 2 {
			if strings.EqualFold(a[i], "match") {
				match = a[i+1]
			}
		}
		var todo []string
		if cur == 0 {
			todo = s.sorted()
		} else {
			todo = s.scans[cur]
			delete(s.scans, cur)
		}
		if count > len(todo) {
			count = len(todo)
		}
		var out []string
		for _, k := range todo[:count] {
			if _, ok := s.live(k); ok && Glob(match, k) {
				out = append(out, k)
			}
		}
		next := uint64(0)
		if rest := todo[count:]; len(rest) > 0 {
			s.cursor++
			next = s.cursor
			s.scans[next] = rest
		}
		cmd.(*redis.ScanCmd).SetVal(out, next)
	default:
		panic("fakeredis: command not supported: " + strings.Join(a, " "))
	}
	return nil
}

// Dump returns the live data.
func (s *Server) Dump() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]string{}
	for _, k := range s.sorted() {
		m[k] = s.data[k].val
	}
	return m
}

// TTL returns the remaining lifetime of a key (0: none, -1: absent).
func (s *Server) TTL(k string) time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	it, ok := s.live(k)
	if !ok {
		return -1
	}
	if it.exp == 0 {
		return 0
	}
	return time.Duration(it.exp - vsched.NowNanos())
}

// Put changes the data behind the client's back.
func (s *Server) Put(k, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	it := s.data[k]
	it.val = v
	s.data[k] = it
}

// PutTTL stores a key behind the client's back.
func (s *Server) PutTTL(k, v string, ttl time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.data[k] = item{v, vsched.NowNanos() + int64(ttl)}
}

// Drop removes a key behind the client's back.
func (s *Server) Drop(k string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.data, k)
}

// Val returns a value from within Fault.
func (s *Server) Val(k string) string { return s.data[k].val }

// Now changes the data from within Fault.
func (s *Server) Now(op, k string) {
	if op == "put" {
		s.data[k] = item{val: "v:" + k}
	} else {
		delete(s.data, k)
	}
}

// Glob is Redis' pattern matching.
func Glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if Glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || s[0] != p[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return len(s) == 0
}
