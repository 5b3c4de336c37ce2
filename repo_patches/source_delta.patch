From 12a7189295899292c6756a2061d913dfd4fcce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 01/55] fix: enforce API access lists that contain only
 networks

The IP filter treated an access list without single addresses as empty and
admitted every request, ignoring the configured CIDR ranges.
---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From dc9a1e4db5f5a02303543a3551fba06b5a0a631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 02/55] fix: recognise IPv6 peer addresses in the API IP filter

The remote address was split at ':' and every IPv6 peer was refused, even if
it is on the access list.
---
 pkg/api/filter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..100554b 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -131,6 +131,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	addr := ""
 	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
 		addr = parts[0]
+	} else if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host // IPv6
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From 18f49828834638bb2e50b06a39f6ee05511cc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 03/55] fix: consider every X-Forwarded-For line in the API IP
 filter

Only the first header line was read, so a client-supplied line took precedence
over the one appended by the last proxy.
---
 pkg/api/filter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 100554b..64b2eac 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -136,7 +136,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	// The header may be repeated, the entries of all lines form one list.
+	if xff := strings.Trim(strings.Join(req.Header.Values("X-Forwarded-For"), ","), ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From 880d47afc4a159d53e1a346c18e010be80fca4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 04/55] fix: treat IPv4-mapped addresses as IPv4 in the API IP
 filter

Single addresses and networks disagreed: ::ffff:a.b.c.d matched a listed
network but not the listed address.
---
 pkg/api/filter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 64b2eac..3231c8d 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -67,7 +67,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 				continue
 			}
 			if addr, err := netip.ParseAddr(ip); err == nil {
-				allowedIPs[addr] = struct{}{}
+				allowedIPs[addr.Unmap()] = struct{}{}
 				continue
 			}
 			return nil, fmt.Errorf("malformed IP or CIDR address: %v", ip)
@@ -113,6 +113,7 @@ func (f *IPFilter) IsAllowed(ip netip.Addr) bool {
 	if !ip.IsValid() {
 		return false
 	}
+	ip = ip.Unmap() // an IPv4-mapped IPv6 address is the same as the IPv4 address.
 	if _, ok := f.allowedIPs[ip]; ok {
 		return true
 	}
-- 
2.43.0


From f4698ff74f74ff2efc872b62c1e47f2a7785039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 05/55] fix: answer 503 when no upstream matches the request

The transport returns the cancelation cause itself, which fell through to 500.
---
 pkg/server/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..3529141 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -139,6 +139,8 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
 	switch {
+	case errors.Is(err, ErrMatchingTarget): // the transport reports the cause of the cancelation
+		status = http.StatusServiceUnavailable
 	case errors.Is(err, context.Canceled):
 		ctx := req.Context()
 		cErr := context.Cause(ctx)
-- 
2.43.0


From caad583449dada4fd09993ab1c71cd38d2a9fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 06/55] fix: keep the broadcast queue alive when a delivery
 fails to connect

---
 pkg/cluster/rqueue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..ee5404b 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
-- 
2.43.0


From 9bedda48b6d3343b3e13b14e1fbb4f8abfa5f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 07/55] fix: resend the request body when a cluster broadcast
 is retried

---
 pkg/cluster/kubernetes.go | 2 +-
 pkg/cluster/rqueue.go     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..08d9736 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,7 +144,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
 		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
-		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
+		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
 			continue
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index ee5404b..c569074 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -125,6 +125,12 @@ func (q *RequestQueue) process() {
 
 func (q *RequestQueue) retry(msg Message) {
 	msg.Attempt++
+	if msg.Request.GetBody != nil {
+		// Rewind the body, it was consumed by the failed attempt.
+		if body, err := msg.Request.GetBody(); err == nil {
+			msg.Request.Body = body
+		}
+	}
 	if msg.Attempt < q.Options.MaxRetries {
 		go func() {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
-- 
2.43.0


From ebe051ecc2bedd5003781da267634e825ceb1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 08/55] fix: do not leak pending broadcast retries when the
 queue stops

---
 pkg/cluster/rqueue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index c569074..2f8e81e 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -136,7 +136,10 @@ func (q *RequestQueue) retry(msg Message) {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
 			time.Sleep(q.Options.Backoff)
-			q.Queue <- msg
+			select {
+			case q.Queue <- msg:
+			case <-q.done: // stopped, nobody is receiving anymore.
+			}
 		}()
 	}
 }
-- 
2.43.0


From 6cf0d20e752160f2f204dd550da71d9b6b338fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 09/55] fix: forward cluster broadcasts with an address the IP
 filter can parse

---
 pkg/cluster/kubernetes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 08d9736..026799c 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -150,7 +151,11 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		remote := req.RemoteAddr
+		if host, _, err := net.SplitHostPort(remote); err == nil {
+			remote = host // the header carries addresses without port.
+		}
+		out.Header.Set("X-Forwarded-For", remote)
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From 7dc6d1c0651dbeb3655f6816528aade6dc487caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 10/55] fix: do not reuse the port of another endpoint subset

---
 pkg/cluster/kubernetes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 026799c..67ec070 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -109,6 +109,7 @@ func (c *client) Endpoints(portname string) []Endpoint {
 	)
 
 	for _, e := range eps.Subsets {
+		port = 0 // ports are specific to the subset.
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
-- 
2.43.0


From ef2527415e3fecf54bbef7a62b9b510ee30c4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 11/55] fix: handle endpoint addresses without target reference
 and with IPv6

---
 pkg/cluster/kubernetes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 67ec070..854961d 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -121,8 +121,12 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
+			name := ""
+			if addr.TargetRef != nil { // optional
+				name = addr.TargetRef.Name
+			}
 			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+				Name: name,
 				Host: addr.IP,
 				Port: int(port),
 			})
@@ -145,7 +149,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
-		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
+		url := fmt.Sprintf("%s://%s%s", "http", net.JoinHostPort(ep.Host, fmt.Sprint(ep.Port)), path)
 		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
-- 
2.43.0


From 19cf911e22981f2ff0eb1bf19d4c1d8b3cca5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 12/55] fix: broadcast purges to a valid URL when the API
 prefix has no leading slash

---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..b1929da 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -137,5 +137,5 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
-		path.Join(s.cfg.API.GetPrefix(), "/cache/invalidate"))
+		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
 }
-- 
2.43.0


From acb2838182ae0a5dd12b9f801e1ab3ad35621855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 13/55] fix: purge keys with regex metacharacters exactly

---
 pkg/provider/inmemory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..34c9ed3 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -283,7 +283,7 @@ func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
 	if len(parts) == 1 {
 		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
+		return "^" + regexp.QuoteMeta(pattern) + "$"
 	}
 	var result strings.Builder
 	for i, p := range parts {
-- 
2.43.0


From dbac09981fd7664fec86fea8c1dee33b6cbf081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 14/55] fix: guard purging, flushing and listing the in-memory
 cache with its lock

---
 pkg/provider/inmemory.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 34c9ed3..ea29073 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -235,6 +235,8 @@ func (c *inMemoryCache) _delete(_ context.Context, key string) bool {
 // Keys returns a slice of the keys in the cache, from oldest to newest. It doesn't check TTL
 // of the returned keys (TODO).
 func (c *inMemoryCache) Keys(_ context.Context, prefix string) []string {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if prefix == "" {
 		return c.inner.Keys()
 	}
@@ -257,9 +259,11 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 	if err != nil {
 		return err
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	for _, k := range c.inner.Keys() {
 		if r.MatchString(k) {
-			c.Delete(ctx, k)
+			c._delete(ctx, k)
 		}
 	}
 	return nil
@@ -267,12 +271,16 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.reset()
 	return nil
 }
 
 // Size returns the number of entries currently stored in the Cache.
 func (c *inMemoryCache) Size() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return c.inner.Len()
 }
 
-- 
2.43.0


From 77f6537609730592609f3bbfa1f2643850c59eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 15/55] fix: drop the outdated in-memory value when its update
 is too large

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index ea29073..52fc33a 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -174,6 +174,7 @@ func (c *inMemoryCache) Set(key string, value []byte, ttl time.Duration) {
 	size := itemSize(value)
 	if size > c.maxItemSizeBytes {
 		log.Debug().Msg("Item is bigger than maxItemSize")
+		c._delete(context.Background(), key) // do not keep the outdated value.
 		return
 	}
 
-- 
2.43.0


From 5be7cbe54dd514dcac8779568763392d80d41739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 16/55] fix: forget the expiry of evicted in-memory items

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 52fc33a..89609f2 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -144,6 +144,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
 	c.curSize -= itemSize(val)
+	delete(c.ttl, key)
 }
 
 // Get retrieves an element based on the provided key.
-- 
2.43.0


From 6bdab1dda4b7d5682a187c04f1a5bacb7fb501e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 17/55] fix: expire in-memory items when default_ttl is not
 configured

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 89609f2..18894a0 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -100,6 +100,7 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
+		c.TTLEviction = true
 	} else {
 		c.TTLEviction = c.DefaultTTL != "-1"
 	}
-- 
2.43.0


From b650228a7f0094abde0edf2de849a2b3dadc9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 18/55] fix: expire items in the local tier of the layered
 cache

---
 pkg/provider/cached.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..a0b6a9d 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -61,6 +61,7 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 	l, err := NewInMemoryCache(InMemoryCacheConfig{
 		MaxSize:     config.MaxSize,
 		MaxItemSize: config.MaxItemSize,
+		DefaultTTL:  config.DefaultTTL,
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 04d41c14862c401fb9047d5bdbb5a6ba9aeb529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 19/55] fix: keep both tiers of the layered cache consistent
 under concurrency

---
 pkg/provider/cached.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index a0b6a9d..6e2b172 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -98,17 +98,17 @@ func (c *Cached) Get(ctx context.Context, key string) []byte {
 
 // Set adds an element to the cache.
 func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
-	c.inner.Set(key, value, ttl)
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.inner.Set(key, value, ttl)
 	c.outer.Set(key, value, ttl)
 }
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.outer.Delete(ctx, key)
-	c.mu.Unlock()
 	return c.inner.Delete(ctx, key)
 }
 
@@ -120,16 +120,16 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Purge(ctx, pattern)
-	c.mu.Unlock()
 	return c.inner.Purge(ctx, pattern)
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Flush(ctx)
-	c.mu.Unlock()
 	return c.inner.Flush(ctx)
 }
 
-- 
2.43.0


From 446c0105edd1ee5978a1fb251eef2980a940107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 20/55] fix: purge Redis keys with glob metacharacters exactly

---
 pkg/provider/redis_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..e4cf171 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -39,6 +39,9 @@ var (
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
 
+// globEscaper escapes the special characters of a Redis glob pattern, except the wildcard '*'.
+var globEscaper = strings.NewReplacer(`\`, `\\`, "?", `\?`, "[", `\[`, "]", `\]`)
+
 // RedisClientConfig holds the configuration for the Redis client.
 type RedisClientConfig struct {
 	// Endpoint holds the endpoint addresses of the Redis server.
@@ -158,7 +161,7 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, prefix+"*", 0).Iterator()
+	iter := c.Scan(ctx, 0, globEscaper.Replace(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
@@ -179,7 +182,7 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
-	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
+	iter := c.Scan(ctx, 0, globEscaper.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
 		key := iter.Val()
-- 
2.43.0


From dc3b1773d46343ee72b203ff6554a49efab3f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 21/55] fix: drop the outdated Redis value when its update is
 too large

---
 pkg/provider/redis_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index e4cf171..a635c09 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -130,6 +130,7 @@ func (c *redisClient) Fetch(ctx context.Context, key string) []byte {
 // Store stores a key and value into Redis.
 func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
+		_ = c.Delete(context.Background(), key) // do not keep the outdated value.
 		return ErrRedisMaxItemSize
 	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
-- 
2.43.0


From cf352788e971e9db594d7bfc0143f1600f4707c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 22/55] fix: recognise cache-control directives regardless of
 their case

---
 pkg/cache/cache_control.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..360bd58 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -185,6 +185,7 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
+	dir = strings.ToLower(dir) // directive names are case-insensitive.
 	return dir, arg
 }
 
-- 
2.43.0


From ebbd5db44b06f419d4296ddb034e2b2a51daa8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 23/55] fix: consider every Cache-Control header line

---
 pkg/cache/cacheable.go | 8 +++++++-
 pkg/cache/httpcache.go | 6 +++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..5d7353e 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -24,6 +24,7 @@ package cache
 
 import (
 	"net/http"
+	"strings"
 )
 
 type (
@@ -116,7 +117,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
+	cacheControl := headerList(res.Header, HeaderCacheControl)
 	resCacheControl := ParseResponseCacheControl(cacheControl)
 
 	// Only cache responses with enough data to calculate freshness lifetime:
@@ -132,6 +133,11 @@ func IsCacheableResponse(res *http.Response) bool {
 		hasValidationData
 }
 
+// headerList returns the value of a list-based header, which may be split over several lines.
+func headerList(h http.Header, name string) string {
+	return strings.Join(h.Values(name), ",")
+}
+
 // Contains checks if the given key is in the map.
 func Contains[K comparable, V any](m map[K]V, k K) bool {
 	if _, ok := m[k]; ok {
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..b26da8a 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -360,7 +360,7 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	cacheControl := headerList(req.Header, HeaderCacheControl)
 
 	if cacheControl != "" {
 		requestCacheControl = ParseRequestCacheControl(cacheControl)
@@ -369,7 +369,7 @@ func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *Look
 		// According to https://httpwg.org/specs/rfc7234.html#header.pragma, when the Cache-Control
 		// header is not set, the "Pragma:no-cache" directive is equivalent to "Cache-Control:no-cache",
 		// any other directives are ignored.
-		pragma := req.Header.Get(HeaderPragma)
+		pragma := headerList(req.Header, HeaderPragma)
 		requestCacheControl.MustValidate = ParseRequestCacheControl(pragma).MustValidate
 	}
 
@@ -404,7 +404,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(headerList(*header, HeaderCacheControl))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
-- 
2.43.0


From 9a6159e7cfe9d1d8d7b862c7a3e1f11a19baaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 24/55] fix: calculate age and freshness of responses without a
 valid Date

---
 pkg/cache/cache_control.go | 3 +++
 pkg/cache/httpcache.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 360bd58..7e3eff0 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -234,6 +234,9 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 	// Calculate apparent age.
 	date := parseHttpTime(headers.Get(HeaderDate))
 	apparentAge := max(0, int64(responseTime.Sub(date)))
+	if date.IsZero() { // missing or invalid, assume the response was generated on receipt.
+		apparentAge = 0
+	}
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index b26da8a..54e86fc 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -422,6 +422,9 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
 		freshness = expires.Sub(date)
+		if date.IsZero() || expires.IsZero() { // invalid, already expired.
+			freshness = time.Duration(-1)
+		}
 	}
 
 	if age > freshness { // Stale response.
-- 
2.43.0


From d3679264452f680fb0f4c914a926c0b4e3077679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 25/55] fix: cap excessive ages and delta-seconds instead of
 ignoring them

---
 pkg/cache/cache_control.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 7e3eff0..f45eec4 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -189,11 +189,18 @@ func splitDirective(s string) (dir string, arg string) {
 	return dir, arg
 }
 
+// maxDelta is the greatest duration used for delta-seconds, any greater value is capped.
+// https://httpwg.org/specs/rfc7234.html#delta-seconds
+const maxDelta = math.MaxInt32 * time.Second
+
 // parseDuration parses a directive argument and returns a valid duration in
 // seconds. Any invalid duration is ignored, returning a negative duration.
 // https://httpwg.org/specs/rfc7234.html#delta-seconds
 func parseDuration(s string) time.Duration {
 	s = strings.Trim(s, "\"'") // trim quotes
+	if n := strings.TrimLeft(s, "0"); len(n) > 9 && strings.Trim(n, "0123456789") == "" {
+		return maxDelta // too large to be represented, treated as infinity.
+	}
 	d, err := time.ParseDuration(s + "s")
 	if err != nil || d < 0 {
 		return time.Duration(-1)
@@ -240,8 +247,8 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
-	age, err := time.ParseDuration(headers.Get(HeaderAge) + "s")
-	if err != nil {
+	age := parseDuration(headers.Get(HeaderAge))
+	if age < 0 {
 		age = time.Duration(0 * time.Second)
 	}
 	correctedAge := age
-- 
2.43.0


From f8da4e638d8a918962d5c07a55bc563f216e9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 26/55] fix: pass a 304 through when no stored response is
 being validated

---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..df391f4 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -147,7 +147,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cached.Response() != nil {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From 58a0309ddbd9421ac8179fb5285ebc0dfcd29e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 27/55] fix: bypass the cache for range requests

---
 pkg/cache/cacheable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 5d7353e..8a59820 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -101,6 +101,12 @@ func IsCacheableRequest(req *http.Request) bool {
 		}
 	}
 
+	// Check if the request asks for a part of the response only.
+	// For now, range requests bypass the cache.
+	if _, ok := req.Header["Range"]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From 8e0963c96f3ecfa8093d7baf21d1984586f12baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 28/55] fix: do not mark cache hits when the marker is disabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index df391f4..188decb 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -188,7 +188,9 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From aafa9f4aae32780ab6eaea04c40276dd5641efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 29/55] fix: do not store the cache marker of validated
 responses

---
 pkg/server/middleware/httpcache.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 188decb..a59853e 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -124,9 +124,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return t.handleCacheHit(cacheKey, cached)
 
 	case cache.EntryRequiresValidation:
-		if t.Cache.MarkCachedResponses() {
-			cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
-		}
 		log.Debug().Str("cache-key", cacheKey).Interface("header", cached.Header()).
 			Msg("Cache HIT with validation")
 		req = t.injectValidationHeaders(lookup.Request, cached.Header())
@@ -146,6 +143,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return resp, err
 	}
 
+	validated := false
 	shouldUpdateCachedEntry := true
 	if resp.StatusCode == http.StatusNotModified && cached.Response() != nil {
 		// If the 304 response contains a strong validator (etag) that does not match
@@ -163,6 +161,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 		_ = resp.Body.Close()
 		resp = cached.Response()
+		validated = true
 	}
 
 	// Set or update custom cache control header.
@@ -182,6 +181,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		t.Cache.Delete(ctx, lookup)
 	}
 
+	// Mark the validated response, but not its stored copy.
+	if validated && t.Cache.MarkCachedResponses() {
+		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From 34b6a5a3b829bcee1aa51da3717d1d49caf296f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 30/55] fix: distinguish encoded path separators in cache keys

---
 pkg/cache/key.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..9200a76 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -36,6 +36,7 @@ type Key struct {
 	ClusterName string
 	Host        string
 	Path        string
+	RawPath     string
 	Query       string
 	Scheme      string
 }
@@ -50,6 +51,11 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		Query:       req.URL.Query().Encode(),
 		Scheme:      req.URL.Scheme,
 	}
+	// Keep the encoding of the path, e.g. an encoded slash is not a separator.
+	rawPath := cleanPath(req.URL.EscapedPath())
+	if path, err := url.PathUnescape(rawPath); err == nil {
+		key.Path, key.RawPath = path, rawPath
+	}
 	if key.Scheme == "" {
 		if req.TLS == nil {
 			key.Scheme = "http"
@@ -66,6 +72,7 @@ func (k Key) String() string {
 		Scheme:   k.Scheme,
 		Host:     k.Host,
 		Path:     k.Path,
+		RawPath:  k.RawPath,
 		RawQuery: k.Query,
 	}
 	return fmt.Sprintf("%s%s", k.ClusterName, url.String())
-- 
2.43.0


From e920cefa43403a1cabde3ac4dc8757cc15c20d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 31/55] fix: keep malformed queries in cache keys

---
 pkg/cache/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 9200a76..cc61c94 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -51,6 +51,9 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		Query:       req.URL.Query().Encode(),
 		Scheme:      req.URL.Scheme,
 	}
+	if _, err := url.ParseQuery(req.URL.RawQuery); err != nil {
+		key.Query = req.URL.RawQuery // malformed, do not drop any part of it.
+	}
 	// Keep the encoding of the path, e.g. an encoded slash is not a separator.
 	rawPath := cleanPath(req.URL.EscapedPath())
 	if path, err := url.PathUnescape(rawPath); err == nil {
-- 
2.43.0


From 5070d9a98f5219cbc3e36e47d415c8d50fc06a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 32/55] fix: keep the path encoding when joining the upstream
 path

---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 3529141..e150b29 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -192,6 +192,9 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Host = upstream.Host
 
 		// Path is forwarded as-is.
+		if req.URL.RawPath != "" || upstream.RawPath != "" {
+			req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.EscapedPath())
+		}
 		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
 
 		// Pass host header
-- 
2.43.0


From be8021ec14e276259386845a8904a515484f7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 33/55] fix: report an invalid config on every reload, not only
 the first

---
 pkg/config/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..28c01b3 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -77,7 +77,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -88,6 +87,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	}
 
 	l.config.Store(config)
+	l.configHash = hash
 
 	return true, nil
 }
-- 
2.43.0


From da8ef7539f85c61906717e2ab00c61e6835c040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 34/55] fix: serialize concurrent config reloads

---
 pkg/config/loader.go | 7 +++++++
 pkg/kache/kache.go   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 28c01b3..4180495 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -43,6 +44,7 @@ type Loader struct {
 	watch         bool
 	watchInterval time.Duration
 
+	mu         sync.Mutex // guards loading.
 	config     atomic.Pointer[Configuration]
 	configHash []byte
 
@@ -67,6 +69,9 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -104,6 +109,8 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	return hex.EncodeToString(l.configHash)
 }
 
diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..e9e217d 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -44,6 +45,7 @@ import (
 type Kache struct {
 	Config *config.Configuration
 	loader *config.Loader
+	mu     sync.Mutex
 
 	Registerer prometheus.Registerer
 
@@ -147,6 +149,8 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 
 // applyConfig applies the config to modules.
 func (t *Kache) applyConfig() {
+	t.mu.Lock() // config may be reloaded by signal, API and watcher.
+	defer t.mu.Unlock()
 	t.Config = t.loader.Config()
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
-- 
2.43.0


From 68be880469290285fd7289d3f94e42cfe7521055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 35/55] fix: do not crash when reloading a config without cache
 section

---
 pkg/cache/httpcache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 54e86fc..b14a3a0 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -157,6 +157,10 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+	if config == nil { // section removed, use the default.
+		config = &HttpCacheConfig{Strict: true}
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From d75a837ca5d655d08f64cb7661aa66a9a8cab0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 36/55] fix: do not modify a config that is in use while
 updating it

---
 pkg/cache/httpcache.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index b14a3a0..d76c563 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -161,6 +161,16 @@ func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 		config = &HttpCacheConfig{Strict: true}
 	}
 
+	// Work on a copy, the given config may already be in use.
+	updated := *config
+	updated.Timeouts = append(config.Timeouts[:0:0], config.Timeouts...)
+	if config.Exclude != nil {
+		exclude := *config.Exclude
+		exclude.Content = append(exclude.Content[:0:0], exclude.Content...)
+		updated.Exclude = &exclude
+	}
+	config = &updated
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From a9312f56acf4855837d1ed83a7737597c1222697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 37/55] fix: default to strict mode as documented

---
 pkg/config/loader.go   | 5 ++++-
 pkg/server/handlers.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 4180495..eb7ef8b 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -33,6 +33,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -86,7 +87,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	config := &Configuration{
+		HttpCache: &cache.HttpCacheConfig{Strict: true}, // default
+	}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index b1929da..bfa8bb1 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true} // default
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 4093e28d848bdc89b1082d0d11e8eb6af884e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 38/55] fix: judge a request by a single config while it is
 being updated

---
 pkg/cache/httpcache.go             | 7 +++++++
 pkg/server/middleware/httpcache.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index d76c563..0e18b61 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -155,6 +155,13 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 	return &HttpCacheConfig{}
 }
 
+// Snapshot returns a view of the cache that is bound to the current config.
+func (c *HttpCache) Snapshot() *HttpCache {
+	s := &HttpCache{cache: c.cache}
+	s.config.Store(c.loadConfig())
+	return s
+}
+
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 	if config == nil { // section removed, use the default.
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index a59853e..995d0e9 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -94,6 +94,11 @@ func NewCachedTransport(c *cache.HttpCache, reg prometheus.Registerer) *Transpor
 func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	ctx := req.Context()
 
+	// Apply one and the same config to the request, even if it gets updated meanwhile.
+	snapshot := *t
+	snapshot.Cache = t.Cache.Snapshot()
+	t = &snapshot
+
 	if t.Cache.IsExcludedPath(req.URL.Path) {
 		log.Debug().Interface("path", req.URL.Path).Str("x-cache", "PASS").Msg("Ignoring excluded path")
 		return t.send(req)
-- 
2.43.0


From ec58bd175f5f1d8b9c5e4da5fafd1a572f00064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 39/55] fix: do not reuse a response negotiated for another
 request

---
 pkg/cache/cacheable.go | 19 +++++++++++++++++++
 pkg/cache/entry.go     |  3 +++
 pkg/cache/httpcache.go |  9 +++++++++
 3 files changed, 31 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 8a59820..2d895d3 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -23,6 +23,7 @@
 package cache
 
 import (
+	"fmt"
 	"net/http"
 	"strings"
 )
@@ -53,6 +54,7 @@ const (
 	HeaderEtag         = "Etag"
 	HeaderExpires      = "Expires"
 	HeaderLastModified = "Last-Modified"
+	HeaderVary         = "Vary"
 )
 
 var (
@@ -144,6 +146,23 @@ func headerList(h http.Header, name string) string {
 	return strings.Join(h.Values(name), ",")
 }
 
+// Variant returns the values of the request headers that select the response, as specified by
+// its Vary header. Returns false if the response depends on more than the request headers.
+// https://httpwg.org/specs/rfc7234.html#caching.negotiated.responses
+func Variant(req http.Header, res http.Header) (string, bool) {
+	var variant strings.Builder
+	for _, name := range strings.Split(headerList(res, HeaderVary), ",") {
+		name = http.CanonicalHeaderKey(strings.TrimSpace(name))
+		if name == "*" {
+			return "", false
+		}
+		if name != "" {
+			_, _ = fmt.Fprintf(&variant, "%s: %q\n", name, req.Values(name))
+		}
+	}
+	return variant.String(), true
+}
+
 // Contains checks if the given key is in the map.
 func Contains[K comparable, V any](m map[K]V, k K) bool {
 	if _, ok := m[k]; ok {
diff --git a/pkg/cache/entry.go b/pkg/cache/entry.go
index 24a4580..1101c3b 100644
--- a/pkg/cache/entry.go
+++ b/pkg/cache/entry.go
@@ -68,6 +68,9 @@ type Entry struct {
 
 	// Timestamp is the time the body was last modified.
 	Timestamp int64
+
+	// Variant holds the values of the request headers selected by the Vary header.
+	Variant string
 }
 
 // TODO: Benchmark, encoding/decoding might slow down the hot path.
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 0e18b61..4b203c5 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -330,6 +330,9 @@ func (c *HttpCache) FetchResponse(ctx context.Context, lookup LookupRequest) *Lo
 		log.Error().Err(err).Send()
 		return &LookupResult{}
 	}
+	if variant, ok := Variant(lookup.Request.Header, res.Header); lookup.strict && ok && variant != entry.Variant {
+		return &LookupResult{} // negotiated for another request.
+	}
 	return lookup.makeResult(res, time.Unix(entry.Timestamp, 0))
 }
 
@@ -345,6 +348,7 @@ func (c *HttpCache) StoreResponse(_ context.Context, lookup *LookupRequest,
 		Body:      resp,
 		Timestamp: responseTime.Unix(),
 	}
+	entry.Variant, _ = Variant(lookup.Request.Header, response.Header)
 	enc, err := entry.Encode()
 	if err != nil {
 		log.Error().Err(err).Send()
@@ -433,6 +437,11 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 		return true
 	}
 
+	// A response that varies on anything is never known to match the request.
+	if _, ok := Variant(l.Request.Header, *header); !ok {
+		return true
+	}
+
 	// Valid expiration data is ensured by `IsCachableResponse(..)`.
 
 	// Calculate freshness lifetime.
-- 
2.43.0


From 6a1b32e7b9c7da595010a4731e46656e0a193a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 40/55] fix: keep coalesced callers independent

Callers are no longer coupled to the cancellation or panic of the initial
request, and responses are only shared with callers they are meant for.
---
 pkg/cache/cacheable.go             |   7 ++
 pkg/server/middleware/coalesce.go  | 109 +++++++++++++++++++++++++++--
 pkg/server/middleware/httpcache.go |   6 ++
 3 files changed, 116 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 2d895d3..db11a2e 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -141,6 +141,13 @@ func IsCacheableResponse(res *http.Response) bool {
 		hasValidationData
 }
 
+// IsShareableResponse checks if a response may be passed to a caller other than the one
+// that requested it, even though it is not stored.
+func IsShareableResponse(res *http.Response) bool {
+	cacheControl := ParseResponseCacheControl(headerList(res.Header, HeaderCacheControl))
+	return !cacheControl.NoStore && len(res.Header["Set-Cookie"]) == 0
+}
+
 // headerList returns the value of a list-based header, which may be split over several lines.
 func headerList(h http.Header, name string) string {
 	return strings.Join(h.Values(name), ",")
diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..697d205 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -25,10 +25,14 @@ package middleware
 import (
 	"bufio"
 	"bytes"
+	"context"
+	"errors"
+	"fmt"
 	"net/http"
 	"net/http/httputil"
 	"sync"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 )
 
@@ -57,8 +61,21 @@ type call struct {
 	coalesced bool
 	resp      []byte
 	err       error
+
+	// done indicates that the request is completed.
+	done bool
+	// canceled indicates that the context of the initial caller ended.
+	canceled bool
+	// shareable indicates if the result may be shared with the callers that
+	// requested the same variant, as selected by the response header.
+	shareable bool
+	variant   string
+	header    http.Header
 }
 
+// errRequestPanicked is passed to the callers waiting for a request that panics.
+var errRequestPanicked = errors.New("coalesced request panicked")
+
 // NewCoalesced returns a coalesced http roundtripper.
 func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 	return &requestCoalescer{
@@ -74,11 +91,11 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
 	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	if req.Method != http.MethodGet || !coalescer.coalescable(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
-	key := req.URL.String()
+	key := coalesceKey(req)
 	coalescer.Lock()
 	inflight, ok := coalescer.inflights[key]
 	if ok {
@@ -102,12 +119,38 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		// Mark that there is at least one call awaiting a shared response.
 		inflight.coalesced = true
 
+		// Wake up as well when the context of this caller ends.
+		ctx := req.Context()
+		stop := context.AfterFunc(ctx, func() {
+			inflight.L.Lock()
+			inflight.Broadcast()
+			inflight.L.Unlock()
+		})
+		defer stop()
+
 		// Suspend execution of current thread until inflight request is processed.
-		inflight.Wait()
+		for !inflight.done && ctx.Err() == nil {
+			inflight.Wait()
+		}
+		done := inflight.done
 
 		// Resume execution of waiting thread (woken up by initial thread broadcast).
 		inflight.L.Unlock()
 
+		if !done {
+			return nil, ctx.Err()
+		}
+
+		// The caller of the initial request is gone, try again.
+		if inflight.canceled {
+			return coalescer.RoundTrip(req)
+		}
+
+		// The response is not meant for this caller.
+		if !inflight.sharedWith(req) {
+			return coalescer.next.RoundTrip(req)
+		}
+
 		// Initial request completed.
 		if inflight.err != nil {
 			return nil, inflight.err
@@ -128,6 +171,20 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	coalescer.inflights[key] = inflight
 	coalescer.Unlock()
 
+	// Do not leave any caller waiting if the request panics.
+	defer func() {
+		if inflight.done {
+			return
+		}
+		coalescer.Lock()
+		delete(coalescer.inflights, key)
+		coalescer.Unlock()
+		inflight.L.Lock()
+		inflight.err, inflight.done = errRequestPanicked, true
+		inflight.Broadcast()
+		inflight.L.Unlock()
+	}()
+
 	// Execute e2e request.
 	resp, err := coalescer.next.RoundTrip(req)
 
@@ -143,13 +200,19 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	if inflight.coalesced {
 		if err != nil {
 			inflight.resp, inflight.err = nil, err
-		} else {
-			// Copy the response before releasing it to waiter(s).
-			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
+		} else if inflight.share(req, resp) {
+			// Copy the response before releasing it to waiter(s). Reading it
+			// may take a while, do not block waiters whose context ends.
+			inflight.L.Unlock()
+			dump, err := httputil.DumpResponse(resp, true)
+			inflight.L.Lock()
+			inflight.resp, inflight.err = dump, err
 		}
+		inflight.canceled = inflight.err != nil && req.Context().Err() != nil
 		// Wake up all waiting routines.
 		inflight.Broadcast()
 	}
+	inflight.done = true
 	inflight.L.Unlock()
 
 	if err != nil {
@@ -159,3 +222,37 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 
 	return resp, nil
 }
+
+// share decides whether the response to the initial request may be shared.
+func (c *call) share(req *http.Request, resp *http.Response) bool {
+	variant, ok := cache.Variant(req.Header, resp.Header)
+	c.shareable = ok && cache.IsShareableResponse(resp)
+	c.variant, c.header = variant, resp.Header.Clone()
+	return c.shareable
+}
+
+// sharedWith reports whether the completed request is shared with the given request.
+func (c *call) sharedWith(req *http.Request) bool {
+	if c.err != nil {
+		return true
+	}
+	variant, ok := cache.Variant(req.Header, c.header)
+	return ok && c.shareable && variant == c.variant
+}
+
+// coalescable checks if a request may wait for and share the response of another caller.
+func (coalescer *requestCoalescer) coalescable(req *http.Request) bool {
+	if !cache.IsCacheableRequest(req) || req.Header.Get("Cookie") != "" || req.ContentLength != 0 {
+		return false
+	}
+	if next, ok := coalescer.next.(interface{ Coalescable(*http.Request) bool }); ok {
+		return next.Coalescable(req)
+	}
+	return true
+}
+
+// coalesceKey returns the key shared by similar requests.
+func coalesceKey(req *http.Request) string {
+	return fmt.Sprintf("%s %q %q", req.URL.String(),
+		req.Header.Values(cache.HeaderCacheControl), req.Header.Values(cache.HeaderPragma))
+}
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 995d0e9..ea0cd17 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -194,6 +194,12 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	return resp, nil
 }
 
+// Coalescable reports whether the request may share the response of a concurrent one,
+// i.e. it is not excluded from caching.
+func (t *Transport) Coalescable(req *http.Request) bool {
+	return !t.Cache.IsExcludedPath(req.URL.Path) && !t.Cache.IsExcludedHeader(req.Header)
+}
+
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-- 
2.43.0


From 4cea9bb0b16efa92880951002c71dc8c9c34a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 41/55] fix: do not let an unresponsive endpoint block the
 broadcast queue

---
 pkg/cluster/rqueue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 2f8e81e..adee367 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -31,6 +31,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// requestTimeout limits a single delivery, so that no worker is stuck on an unresponsive endpoint.
+const requestTimeout = 10 * time.Second
+
 // Message wraps a HTTP request that gets processed by the queue.
 type Message struct {
 	Request *http.Request
@@ -90,6 +93,7 @@ func (q *RequestQueue) process() {
 
 	client := &http.Client{}
 	client.Transport = http.DefaultTransport
+	client.Timeout = requestTimeout
 
 	for {
 		select {
-- 
2.43.0


From a53035380f4de5f42be1196f954395af2d9c2853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 42/55] fix: ignore an invalid s-maxage instead of discarding
 max-age

---
 pkg/cache/cache_control.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index f45eec4..f66adcf 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -163,7 +163,9 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 		case "public":
 			cc.IsPublic = true
 		case "s-maxage":
-			cc.MaxAge = parseDuration(arg)
+			if d := parseDuration(arg); d >= 0 { // does not replace 'max-age' if invalid.
+				cc.MaxAge = d
+			}
 		case "max-age":
 			if cc.MaxAge < 0 {
 				cc.MaxAge = parseDuration(arg)
-- 
2.43.0


From f3973f32b0b88d7b914154c6ac058e6e070fb8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 43/55] fix: informational responses replace the final status
 (and error status) of the upstream

---
 pkg/server/server.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index e150b29..43c8ca1 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -128,12 +128,27 @@ func NewServer(
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	timeout := DefaultTimeout
 	http.TimeoutHandler(
-		s.proxy,
+		http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			s.proxy.ServeHTTP(finalWriter{w}, r)
+		}),
 		timeout,
 		fmt.Sprintf("Request timeout after %v", timeout),
 	).ServeHTTP(w, r)
 }
 
+// finalWriter drops informational responses of the upstream (e.g. 103 Early Hints),
+// as the timeout handler would take them for the final response.
+type finalWriter struct {
+	http.ResponseWriter
+}
+
+func (w finalWriter) WriteHeader(code int) {
+	if code < 200 && code != http.StatusSwitchingProtocols {
+		return
+	}
+	w.ResponseWriter.WriteHeader(code)
+}
+
 // errorHandler is the proxy error handler.
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
-- 
2.43.0


From e5d51b2ec5c5709e3751897210504b35cec7cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 44/55] fix: answer 503 when no upstream matches a request in
 origin form

---
 pkg/server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 43c8ca1..6f3e610 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -154,7 +154,8 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
 	switch {
-	case errors.Is(err, ErrMatchingTarget): // the transport reports the cause of the cancelation
+	case errors.Is(context.Cause(req.Context()), ErrMatchingTarget): // whatever the transport makes of it
+		err = ErrMatchingTarget
 		status = http.StatusServiceUnavailable
 	case errors.Is(err, context.Canceled):
 		ctx := req.Context()
@@ -199,6 +200,8 @@ func (s *Server) Director() func(req *http.Request) {
 			ctx, cancel := context.WithCancelCause(req.Context())
 			*req = *req.WithContext(ctx)
 			cancel(ErrMatchingTarget)
+			// Do not forward the request to, or look it up for, the host of an absolute request URI.
+			req.URL.Scheme, req.URL.Host, req.Host = "", "", ""
 			return
 		}
 		upstream := target.upstream
-- 
2.43.0


From 8e00f5a2b9755fb97f13550da3d33ac5b819cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 45/55] fix: share a coalesced response only between requests
 subject to the same cache config

---
 pkg/server/middleware/coalesce.go  | 26 +++++++++++++++++++-------
 pkg/server/middleware/httpcache.go |  7 ++++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 697d205..a294319 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -62,6 +62,9 @@ type call struct {
 	resp      []byte
 	err       error
 
+	// config is the cache config the initial request is subject to.
+	config *cache.HttpCacheConfig
+
 	// done indicates that the request is completed.
 	done bool
 	// canceled indicates that the context of the initial caller ended.
@@ -91,13 +94,19 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
 	// Only coalesce GET requests.
-	if req.Method != http.MethodGet || !coalescer.coalescable(req) {
+	config, ok := coalescer.coalescable(req)
+	if req.Method != http.MethodGet || !ok {
 		return coalescer.next.RoundTrip(req)
 	}
 
 	key := coalesceKey(req)
 	coalescer.Lock()
 	inflight, ok := coalescer.inflights[key]
+	if ok && inflight.config != config {
+		// The config has been updated since, do not share what was fetched by the previous one.
+		coalescer.Unlock()
+		return coalescer.next.RoundTrip(req)
+	}
 	if ok {
 		// At this point a similar request is already in-flight. Wait for response.
 
@@ -167,7 +176,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	// No similar request in flight (common case).
 
 	// Register a new call and execute the request.
-	inflight = &call{Cond: sync.NewCond(&sync.Mutex{})}
+	inflight = &call{Cond: sync.NewCond(&sync.Mutex{}), config: config}
 	coalescer.inflights[key] = inflight
 	coalescer.Unlock()
 
@@ -240,15 +249,18 @@ func (c *call) sharedWith(req *http.Request) bool {
 	return ok && c.shareable && variant == c.variant
 }
 
-// coalescable checks if a request may wait for and share the response of another caller.
-func (coalescer *requestCoalescer) coalescable(req *http.Request) bool {
+// coalescable checks if a request may wait for and share the response of another caller
+// and returns the cache config this depends on, if any.
+func (coalescer *requestCoalescer) coalescable(req *http.Request) (*cache.HttpCacheConfig, bool) {
 	if !cache.IsCacheableRequest(req) || req.Header.Get("Cookie") != "" || req.ContentLength != 0 {
-		return false
+		return nil, false
 	}
-	if next, ok := coalescer.next.(interface{ Coalescable(*http.Request) bool }); ok {
+	if next, ok := coalescer.next.(interface {
+		Coalescable(*http.Request) (*cache.HttpCacheConfig, bool)
+	}); ok {
 		return next.Coalescable(req)
 	}
-	return true
+	return nil, true
 }
 
 // coalesceKey returns the key shared by similar requests.
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index ea0cd17..40bcdc5 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -195,9 +195,10 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 }
 
 // Coalescable reports whether the request may share the response of a concurrent one,
-// i.e. it is not excluded from caching.
-func (t *Transport) Coalescable(req *http.Request) bool {
-	return !t.Cache.IsExcludedPath(req.URL.Path) && !t.Cache.IsExcludedHeader(req.Header)
+// i.e. it is not excluded from caching, and the config this is decided by.
+func (t *Transport) Coalescable(req *http.Request) (*cache.HttpCacheConfig, bool) {
+	c := t.Cache.Snapshot()
+	return c.Config(), !c.IsExcludedPath(req.URL.Path) && !c.IsExcludedHeader(req.Header)
 }
 
 // handleCacheHit handles a cache hit and sends the cached response downstream.
-- 
2.43.0


From 56cf209dcbe32dc6bf124b011bd044c7dd2e078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 46/55] fix: apply a config file loaded by another trigger or
 before the start

---
 pkg/kache/kache.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index e9e217d..74f03a7 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -134,25 +134,29 @@ func (t *Kache) setupModules() error {
 
 // reloadConfig reloads the config, triggered by SIGHUP event.
 func (t *Kache) reloadConfig(ctx context.Context) error {
-	reloaded, err := t.loader.Load(ctx)
-	if err != nil {
+	if _, err := t.loader.Load(ctx); err != nil {
 		return err
 	}
-	if !reloaded {
+	// The file may have been loaded already, but not been applied yet.
+	if !t.applyConfig() {
 		log.Info().Msg("Config not reloaded, no changes detected")
 		return nil
 	}
-	t.applyConfig()
 	log.Info().Msg("Config reloaded")
 	return nil
 }
 
-// applyConfig applies the config to modules.
-func (t *Kache) applyConfig() {
+// applyConfig applies the loaded config to modules, unless it is applied already.
+func (t *Kache) applyConfig() bool {
 	t.mu.Lock() // config may be reloaded by signal, API and watcher.
 	defer t.mu.Unlock()
-	t.Config = t.loader.Config()
+	config := t.loader.Config()
+	if t.Config == config {
+		return false
+	}
+	t.Config = config
 	t.Cache.UpdateConfig(t.Config.HttpCache)
+	return true
 }
 
 // Run starts the Kache and its services.
@@ -163,6 +167,7 @@ func (t *Kache) Run() error {
 			return err
 		}
 		defer t.loader.Close()
+		t.applyConfig() // the file may have changed since it was first loaded.
 		go func() {
 			for changed := range t.loader.Events {
 				if !changed {
-- 
2.43.0


From a4a41ded3911bbd19848f4c5203a11df8e0b7ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 47/55] fix: keep the client address named by a proxy in
 cluster broadcasts

A call that an access list admitted for its X-Forwarded-For or X-Real-Ip
address was refused by the other nodes, as the broadcast named the proxy
instead of the client.
---
 pkg/cluster/kubernetes.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 854961d..1426c93 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -156,11 +156,14 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		remote := req.RemoteAddr
-		if host, _, err := net.SplitHostPort(remote); err == nil {
-			remote = host // the header carries addresses without port.
+		if out.Header.Get("X-Forwarded-For") == "" && out.Header.Get("X-Real-Ip") == "" {
+			// Name the client for the access list, unless a proxy has done so already.
+			remote := req.RemoteAddr
+			if host, _, err := net.SplitHostPort(remote); err == nil {
+				remote = host // the header carries addresses without port.
+			}
+			out.Header.Set("X-Forwarded-For", remote)
 		}
-		out.Header.Set("X-Forwarded-For", remote)
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From 03bd87f198f77afdabc1492d27f62da8847d7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 48/55] fix: do not keep items with a ttl of zero forever in
 redis

---
 pkg/provider/redis_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index a635c09..34edea3 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -133,6 +133,9 @@ func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 		_ = c.Delete(context.Background(), key) // do not keep the outdated value.
 		return ErrRedisMaxItemSize
 	}
+	if ttl <= 0 {
+		return c.Delete(context.Background(), key) // expired already, Redis would keep it forever.
+	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
 	return err
 
-- 
2.43.0


From 5f4a70dd77045a05f17a9c31711765fe553e0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 49/55] fix: do not block a broadcast forever once the request
 queue is stopped

---
 pkg/cluster/kubernetes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 1426c93..18baf6a 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -168,6 +168,10 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 		out.Host = req.Host
 
 		// Dispatch message.
-		c.broadcast.Queue <- Message{out, 0}
+		select {
+		case c.broadcast.Queue <- Message{out, 0}:
+		case <-c.broadcast.done: // stopped, nobody is receiving anymore.
+			return
+		}
 	}
 }
-- 
2.43.0


From 712e66e69ea74bce890d003aeffc6b44511841bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 50/55] fix: refuse empty listener and upstream entries instead
 of crashing

---
 pkg/config/config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 9af8c2d..95bc994 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -24,6 +24,7 @@ package config
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/kacheio/kache/pkg/cache"
 	"github.com/kacheio/kache/pkg/cluster"
@@ -78,6 +79,11 @@ func (l Listeners) Validate() error {
 	if len(l) < 1 {
 		return errInvalidListenersConfig
 	}
+	for name, listener := range l {
+		if listener == nil {
+			return fmt.Errorf("%w: listener %q is empty", errInvalidListenersConfig, name)
+		}
+	}
 	return nil
 }
 
@@ -96,6 +102,11 @@ func (u Upstreams) Validate() error {
 	if len(u) < 1 {
 		return errInvalidUpstreamsConfig
 	}
+	for i, upstream := range u {
+		if upstream == nil {
+			return fmt.Errorf("%w: upstream %d is empty", errInvalidUpstreamsConfig, i+1)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From ee6b9300fe5c549b0caf7322132bd983a004b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 51/55] fix: refuse a config without provider or api section
 instead of crashing

---
 pkg/config/config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 95bc994..b8d0633 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -34,6 +34,8 @@ import (
 var (
 	errInvalidListenersConfig = errors.New("invalid listeners config")
 	errInvalidUpstreamsConfig = errors.New("invalid upstreams config")
+	errMissingProviderConfig  = errors.New("missing provider config")
+	errMissingAPIConfig       = errors.New("missing api config")
 )
 
 // TODO: set defaults
@@ -54,7 +56,15 @@ type Configuration struct {
 
 // Validate validates the configuration.
 func (c *Configuration) Validate() error {
+	var missing []error
+	if c.Provider == nil {
+		missing = append(missing, errMissingProviderConfig)
+	}
+	if c.API == nil {
+		missing = append(missing, errMissingAPIConfig)
+	}
 	return errors.Join(
+		errors.Join(missing...),
 		c.Listeners.Validate(),
 		c.Upstreams.Validate(),
 	)
-- 
2.43.0


From c1b610304bbd15fe5498d5125730818ab0a35e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 52/55] fix: validate the redis config, without workers nothing
 was ever stored

---
 pkg/provider/provider.go     | 3 +++
 pkg/provider/redis_client.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..f606b01 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, err
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 34edea3..abd4d2c 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -35,6 +35,7 @@ import (
 var (
 	ErrRedisConfigNoEndpoint    = errors.New("no redis endpoint configured")
 	ErrRedisMaxQueueConcurrency = errors.New("max job queue concurrency must be positive")
+	ErrRedisMaxQueueBufferSize  = errors.New("max job queue buffer size must not be negative")
 	ErrRedisMaxItemSize         = errors.New("max item size exceeded")
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
@@ -82,6 +83,9 @@ func (c *RedisClientConfig) Validate() error {
 	if c.MaxQueueConcurrency < 1 {
 		return ErrRedisMaxQueueConcurrency
 	}
+	if c.MaxQueueBufferSize < 0 {
+		return ErrRedisMaxQueueBufferSize
+	}
 	return nil
 }
 
-- 
2.43.0


From 777ffee0534bbd1b1d2dbb3302792fe465e07252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 53/55] fix: refuse a watch interval that is not positive
 instead of crashing

---
 pkg/config/loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index eb7ef8b..4af5a7e 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -124,6 +124,9 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
+	if l.watchInterval <= 0 {
+		return fmt.Errorf("invalid config watch interval: %v", l.watchInterval)
+	}
 	if _, err := l.Load(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From 434e031d9c0fe66be67cc01e7822c4fd7fbbc628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 54/55] fix: refuse an upstream path that never matches instead
 of ignoring the upstream

---
 pkg/server/server_target.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server_target.go b/pkg/server/server_target.go
index 71217a8..0116bdc 100644
--- a/pkg/server/server_target.go
+++ b/pkg/server/server_target.go
@@ -73,7 +73,9 @@ func NewTarget(cfg *config.Upstream) (*Target, error) {
 	}
 
 	r := mux.NewRouter()
-	r.PathPrefix(cfg.Path) // TODO: add host?
+	if err := r.PathPrefix(cfg.Path).GetError(); err != nil { // TODO: add host?
+		return nil, err
+	}
 
 	t := &Target{
 		name:     cfg.Name,
-- 
2.43.0


From 8c47c2fe416720b0e384d6e72d9b52120663e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 55/55] fix: a successful unsafe request invalidates what is
 stored for its target (RFC 9111, 4.4)

---
 pkg/cache/cacheable.go             | 10 ++++++++++
 pkg/server/middleware/httpcache.go | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index db11a2e..848ee42 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -120,6 +120,16 @@ func IsCacheableRequest(req *http.Request) bool {
 		(req.Method == http.MethodGet || req.Method == http.MethodHead)
 }
 
+// IsInvalidating checks if the response to the request invalidates what is stored for its target,
+// i.e. a request with an unsafe method has been successful.
+func IsInvalidating(req *http.Request, res *http.Response) bool {
+	switch req.Method {
+	case "", http.MethodGet, http.MethodHead, http.MethodOptions, http.MethodTrace:
+		return false
+	}
+	return res.StatusCode >= 200 && res.StatusCode < 400
+}
+
 // IsCacheableResponse checks if a response can be stored in cache.
 // Note that if a request is not cacheable according to `CanServeRequestFromCache`
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 40bcdc5..3092220 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -101,12 +101,12 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	if t.Cache.IsExcludedPath(req.URL.Path) {
 		log.Debug().Interface("path", req.URL.Path).Str("x-cache", "PASS").Msg("Ignoring excluded path")
-		return t.send(req)
+		return t.pass(req)
 	}
 
 	if t.Cache.IsExcludedHeader(req.Header) {
 		log.Debug().Interface("header", req.Header).Str("x-cache", "PASS").Msg("Ignoring excluded header")
-		return t.send(req)
+		return t.pass(req)
 	}
 
 	if !cache.IsCacheableRequest(req) {
@@ -114,7 +114,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		if t.Cache.MarkCachedResponses() {
 			req.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
 		}
-		return t.send(req)
+		return t.pass(req)
 	}
 
 	lookup := cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict())
@@ -210,6 +210,18 @@ func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*htt
 	return cached.Response(), nil
 }
 
+// pass issues an upstream request that bypasses the cache. What is stored for its target
+// is invalidated by a successful unsafe request.
+// https://httpwg.org/specs/rfc9111.html#invalidation
+func (t *Transport) pass(req *http.Request) (*http.Response, error) {
+	resp, err := t.send(req)
+	if err == nil && t.Cache.Strict() && cache.IsInvalidating(req, resp) {
+		lookup := cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict())
+		t.Cache.Delete(context.WithoutCancel(req.Context()), lookup)
+	}
+	return resp, err
+}
+
 // send issues an upstream request.
 func (t *Transport) send(req *http.Request) (*http.Response, error) {
 	transport := t.Transport
-- 
2.43.0

