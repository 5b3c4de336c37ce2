package lrumodel

import (
	"context"
	"sort"

	"github.com/kacheio/kache/pkg/provider"
)

// Do runs an operation other than set and time on a store.
func Do(p provider.Provider, o Op) (r Res) {
	ctx := context.Background()
	switch o.Kind {
	case "get":
		v := p.Get(ctx, o.Key)
		r.Nil, r.Val = v == nil, string(v)
	case "del":
		r.Ok = p.Delete(ctx, o.Key)
	case "purge":
		if err := p.Purge(ctx, o.Key); err != nil {
			r.Err = err.Error()
		}
	case "flush":
		if err := p.Flush(ctx); err != nil {
			r.Err = err.Error()
		}
	case "keys":
		r.Keys = p.Keys(ctx, o.Key)
		sort.Strings(r.Keys)
	case "size":
		r.N = p.Size()
	}
	return
}
