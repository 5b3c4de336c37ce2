package fakeredis

import (
	"strconv"
	"sync/atomic"
	"time"

	"github.com/kacheio/kache/pkg/provider"
)

const marker = "\x00sync"

// SyncClient waits after every asynchronous store until the (single) worker has handled it.
type SyncClient struct {
	provider.RemoteCacheClient
	s *Server
}

var markers atomic.Int64

// Sync makes a client whose asynchronous stores are finished when they return.
func (s *Server) Sync(cfg provider.RedisClientConfig) *SyncClient {
	cfg.MaxQueueConcurrency = 1
	return &SyncClient{s.Client(cfg), s}
}

func (c *SyncClient) StoreAsync(key string, value []byte, ttl time.Duration) error {
	err := c.RemoteCacheClient.StoreAsync(key, value, ttl)
	n := markers.Add(1)
	if c.RemoteCacheClient.StoreAsync(marker+strconv.FormatInt(n, 10), nil, time.Hour) != nil {
		return err
	}
	patience := 30 * time.Second
	if c.s.lost.Load() > 2 {
		patience = time.Second // stores do not arrive here
	}
	t := time.NewTimer(patience)
	defer t.Stop()
	for c.s.seen.Load() < n {
		select {
		case <-c.s.synced:
		case <-t.C:
			c.s.lost.Add(1)
			return err
		}
	}
	return err
}

// Provider makes a redis or layered store on s.
func (s *Server) Provider(layered bool, layeredTTL time.Duration, l1 provider.InMemoryCacheConfig, cfg provider.RedisClientConfig) (provider.Provider, func()) {
	cl := s.Sync(cfg)
	rc := provider.NewRedisCache("fake", cl)
	if !layered {
		return rc, cl.Stop
	}
	p, err := provider.NewCached(rc, "fake", layeredTTL, l1)
	if err != nil {
		panic(err)
	}
	return p, cl.Stop
}
