package hgrid

import (
	"context"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"kverif/fakeredis"
)

// Store returns a factory that hands out one emptied store of the given kind.
func Store(kind string, layered time.Duration) func() provider.Provider {
	l1 := provider.InMemoryCacheConfig{MaxSize: 1 << 24, MaxItemSize: 1 << 22}
	var p provider.Provider
	switch kind {
	case "redis":
		p, _ = fakeredis.New().Provider(false, 0, l1, provider.RedisClientConfig{})
	case "layered":
		p, _ = fakeredis.New().Provider(true, layered, l1, provider.RedisClientConfig{})
	default:
		var err error
		if p, err = provider.NewInMemoryCache(l1); err != nil {
			panic(err)
		}
	}
	return func() provider.Provider {
		_ = p.Flush(context.Background())
		return p
	}
}
