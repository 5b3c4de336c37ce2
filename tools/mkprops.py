#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HC="pkg/cache/httpcache.go"; CC="pkg/cache/cache_control.go"; CB="pkg/cache/cacheable.go"; KEY="pkg/cache/key.go"
TR="pkg/server/middleware/httpcache.go"; CO="pkg/server/middleware/coalesce.go"
IM="pkg/provider/inmemory.go"; LA="pkg/provider/cached.go"; RE="pkg/provider/remote.go"; RC="pkg/provider/redis_client.go"; QU="pkg/provider/queue.go"; PR="pkg/provider/provider.go"
SV="pkg/server/server.go"; TG="pkg/server/server_target.go"; HD="pkg/server/handlers.go"; LI="pkg/server/server_listener.go"
API="pkg/api/api.go"; FI="pkg/api/filter.go"; K8="pkg/cluster/kubernetes.go"; RQ="pkg/cluster/rqueue.go"
LD="pkg/config/loader.go"; CF="pkg/config/config.go"; KA="pkg/kache/kache.go"

p("C01","A stale stored response is never served without successful validation",
  "In strict mode, a response taken from the cache without contacting the origin is always still fresh: its age (computed from Date, Age and residence time) does not exceed its freshness lifetime (s-maxage, else max-age, else Expires minus Date), unless the client's max-stale allows that staleness and the response does not carry must-revalidate or proxy-revalidate. A response or request marked no-cache (or Pragma: no-cache when the request has no Cache-Control), a request max-age below the age, or a min-fresh exceeding the remaining lifetime of a still fresh response likewise always forces the origin to be asked. Directive names are case-insensitive, all Cache-Control lines count, and unusable or missing time data never makes a stored response fresher than it is.",
  ["inputs","histories"],"all response/request cache-control combinations over a closed alphabet of directives, spellings, header splits, Date/Expires/Age values, at every residence time of a closed set around each boundary",
  "The unit tests check a few dozen directive combinations at one or two instants; the guarantee is over the whole product of request directives, response metadata and elapsed time.",
  [HC,CC,TR],[("requiresValidation / makeResult",HC),("CalculateAge, directive parsing",CC),("RoundTrip dispatch on entry status",TR)],
  observe=["whether a request reaches the origin through the caching transport"])
p("C02","Only responses that are allowed to be stored enter the cache",
  "In strict mode a response is kept only if the request was a GET without no-store, the response carries neither no-store nor private (any spelling, any Cache-Control line), its status is one that may be cached, and it carries enough data to compute a freshness lifetime (no-cache, max-age, s-maxage, or Date with Expires). A response that fails any of these, or that has an excluded content type or size, leaves nothing behind: no later request is answered from it, and an older entry for the same resource is gone.",
  ["inputs","histories"],"all combinations of method, request directives, response status, response directives (spelling, order, split over lines), time headers, and what was stored before",
  "Tests exercise a handful of statuses and directives one at a time, never the product with what the cache held before.",
  [CB,CC,TR],[("IsCacheableResponse / IsCacheableRequest",CB),("store-or-delete decision",TR)])
p("C03","The outcome of a revalidation decides what is served and what is kept",
  "When a stored response must be validated, the origin is asked with the stored validators; a 304 serves the stored status and body with headers refreshed from the 304 and the entry's freshness restarted (unless a strong etag mismatch forbids the update, in which case the entry is dropped), and any other answer is passed through unchanged and replaces or removes the stored entry. A failed origin request during validation yields that error to the client and never a stale answer presented as valid. A 304 that answers a request for which nothing was being validated is passed through and never crashes, hangs or fabricates a response.",
  ["histories","inputs","fault_sequences"],"all sequences (to a bounded depth) of requests, time steps and origin answers 200/304/404/5xx/error with matching, changed or absent etags",
  "Tests cover three hand-written validation histories; the guarantee is about every sequence of origin answers and time steps.",
  [TR,HC],[("RoundTrip validation branch, injectValidationHeaders",TR),("UpdateHeader",HC)])
p("C04","Requests that must not be answered from shared storage bypass the cache",
  "Requests carrying Authorization, a conditional header or Range, requests with a method other than GET or HEAD, and requests matching an operator-configured path or header exclusion always reach the origin unmodified in method, path, query and those headers. Their responses are never used to answer any later request, and they never alter what other clients are served from the cache, except that in strict mode a successful request with an unsafe method invalidates what is stored for its own URL.",
  ["inputs","histories"],"all request histories to a bounded depth over bypassing and ordinary requests for the same resource, in strict and non-strict mode, with every ordering of fills and bypasses",
  "Tests check the classification of single requests, never that a bypassing request leaves no trace that a later ordinary request can observe.",
  [CB,TR,HC],[("IsCacheableRequest",CB),("exclusion checks",HC),("RoundTrip bypass",TR)])
p("C05","Different resources never share a cache entry",
  "A response stored for one request is served only to requests for the same scheme, host, path and query; two requests whose URLs differ in any way an origin can distinguish never receive each other's stored response. The only identification allowed is the documented canonicalisation: query parameters compare as a multiset of key/value pairs irrespective of the order of different names, and dot segments, duplicate slashes and a trailing slash of the path are cleaned.",
  ["inputs"],"all ordered pairs of request URLs over a closed alphabet of schemes, hosts, path segments (plain, encoded and reserved octets, encoded slashes, dot segments) and query strings (ordering, repeats, blanks, malformed)",
  "Tests compare a dozen fixed URLs; uniqueness is a statement about all pairs.",
  [KEY,TR],[("key construction and encoding",KEY)])
p("C06","A cache hit reproduces the origin's response",
  "A GET answered from the cache has the status, body bytes and end-to-end headers of the origin response that was stored, apart from Age, the configured cache marker and headers refreshed by a 304; a HEAD answered from it has the same status and headers and no body. This holds for every framing the origin may use (Content-Length, chunked, connection close, no body), for repeated and unusual headers, and for any number of repeated hits or revalidations.",
  ["inputs","histories"],"all combinations of status, framing, body shape and header set over a closed alphabet, each followed by repeated hits, HEADs and revalidations on every provider",
  "Tests only compare tiny bodies with a content length; they never enumerate framings, empty bodies, repeated headers or repeated hits.",
  [HC,"pkg/cache/entry.go",TR],[("dump/encode and decode/read of stored responses",HC)])
p("C07","A fresh stored response is served without contacting the origin",
  "After a storable response has been received, every ordinary GET or HEAD for the same resource that arrives while it is fresh, unpurged and within its TTL, and whose own directives permit it, is answered from the cache with the correct Age and without any request to the origin. This applies in strict mode for as long as the freshness lifetime lasts and in non-strict mode until the entry's TTL ends, regardless of Cache-Control.",
  ["histories","inputs"],"all histories to a bounded depth of requests and time steps over several resources, response directives and both modes, for each backend",
  "Tests check one hit right after one fill; a cache that silently stops caching in some history still passes.",
  [HC,TR,IM],[("FetchResponse/StoreResponse",HC),("RoundTrip",TR)])
p("C08","Operator cache policy is applied exactly",
  "Per-path TTLs (first matching rule), the default TTL, path, header and content-type/size exclusions, default and forced Cache-Control and the cache-marker header take effect exactly as configured, for every request and response. In strict mode Cache-Control defaults and overrides are applied before deciding whether to store; an entry is never served from the cache after its configured TTL has elapsed; with the marker enabled every response served from the cache carries it under the configured name, and with it disabled none does.",
  ["configurations","inputs","histories"],"all combinations over a closed set of configuration options, request paths, content types, sizes and elapsed times",
  "Tests check individual matchers in isolation; the interaction of options, paths and time is a product no test enumerates.",
  [HC,TR],[("PathTTL/DefaultTTL, IsExcludedContent, XCache",HC),("updateCacheControl",TR)])
p("C09","Coalesced requests share one origin fetch and every caller is answered",
  "While an identical GET is in flight, later identical GETs wait for it instead of contacting the origin, and when it ends every waiter receives the same status, headers and complete body, each independently readable, or the same error. Under every interleaving, and whether the fetch succeeds, fails or panics, every caller returns, no caller of a different resource is blocked, and a request arriving afterwards starts a new fetch.",
  ["schedules","fault_sequences"],"all interleavings (to a preemption bound) of 2-4 concurrent requests over one or two URLs with every origin outcome: success, error, panic, unreadable body",
  "The one concurrency test runs a single scheduler-chosen interleaving with a sleeping leader and a successful origin.",
  [CO],[("in-flight table, condition variable, broadcast",CO)],state=[("inflights","requests in flight by key",CO)])
p("C10","Coalescing never leaks or couples requests that must stay independent",
  "A response is shared with a concurrent caller only if both requests are plain GETs for the same URL without credentials, conditions or ranges and with no headers that make the answer specific to one caller, and a response marked private or no-store is never given to a caller other than the one that fetched it. A caller whose own context ends returns promptly, and one caller's cancellation or disconnect never fails another caller's request.",
  ["schedules","inputs","fault_sequences"],"all interleavings of pairs and triples of concurrent requests over a closed set of header combinations, response directives and cancellation points",
  "No test coalesces requests that differ in headers, or cancels any of them.",
  [CO,SV],[("coalescing eligibility and sharing",CO)])
p("C11","The in-memory cache is a byte-bounded LRU map with expiry",
  "For every sequence of operations the in-memory cache answers exactly like a map: a read returns the last value set for that key unless it was deleted, purged, flushed, evicted or expired, and never after its TTL has elapsed (when TTL eviction is in force). The bytes held never exceed the configured maximum, entries are evicted only when needed to make room and in least-recently-used order, an item over the item limit is not stored and does not leave an outdated value behind, and the key listing and size agree with the entries held (an expired entry may be listed until it is touched).",
  ["histories","configurations"],"all operation sequences to a bounded depth over three keys, several value sizes around the limits, TTLs and clock steps, from empty and from full caches",
  "Tests run a few fixed sequences; accounting drift and eviction-order errors need particular multi-step histories.",
  [IM],[("Set/Get/ensureCapacity/onEvict/reset",IM)],state=[("curSize","bytes accounted",IM),("ttl","expiry per key",IM)])
p("C12","The in-memory cache is linearizable under concurrent use",
  "Concurrent reads, writes, deletes, purges, flushes and listings behave as if executed one at a time in an order consistent with real time, never tear or mix values, never crash, deadlock or race on shared state, and leave the byte accounting equal to the size of the entries actually held. In particular once a flush or purge has returned, no entry set before it began can be read.",
  ["schedules"],"all interleavings (to a preemption bound) of 2-3 threads with 1-3 operations each on colliding keys, with and without eviction pressure and expiry",
  "Tests call the cache from one goroutine only.",
  [IM],[("the cache mutex and the inner LRU",IM)])
p("C13","Purging removes exactly the matching keys",
  "Purging a pattern removes every stored key that matches it and no other key, where * stands for any run of characters and every other character, including ? [ ] \\ . ( ) + ^ $ |, stands for itself; a pattern without * removes exactly the key equal to it, and an empty pattern on the in-memory store removes everything. The in-memory, Redis and layered stores agree on this, and an acknowledged purge is complete.",
  ["inputs","histories"],"all patterns and key sets over a closed alphabet including every wildcard and regex metacharacter, to bounded length, on each backend",
  "Tests purge three or four well-behaved patterns.",
  [IM,RC,LA],[("wildcardToRegex, Purge",IM),("Redis SCAN/DEL purge",RC)])
p("C14","The layered cache never serves what has been overwritten or removed",
  "In the two-tier cache, given a remote tier that applies writes in the order they were issued, once a delete, purge or flush has been acknowledged no read of the same node returns a value stored before it began, and after a set a read returns that or a later value, under every interleaving of concurrent reads, writes and removals. A read falls through to the remote tier only when the local tier has no live entry, what it finds is kept locally for no longer than the layered TTL, and the key listing reflects the remote tier.",
  ["schedules","histories"],"all interleavings (to a preemption bound) of 2-3 threads over one or two keys with a remote tier whose calls interleave freely, plus all sequential histories with clock steps to a bounded depth",
  "Tests exercise the two tiers sequentially once.",
  [LA,IM,RE],[("two-tier locking and order of operations",LA)])
p("C15","Asynchronous stores run exactly once, in bounded space, and never block",
  "Every accepted asynchronous job is executed exactly once by one worker while the queue runs, a job is refused with an error (and never executed) only when the buffer is full, dispatching never blocks the caller, and at most the configured number of jobs run at a time. Stopping waits for running jobs, starts no further ones after it returns, and never deadlocks or crashes, under every interleaving.",
  ["schedules"],"all interleavings (to a preemption bound) of 1-2 dispatchers, 1-2 workers, buffer sizes 0-2 and a stopper",
  "Tests run a queue with real sleeps along one schedule.",
  [QU,RC],[("bounded channel, workers, stop channel",QU)])
p("C16","Cache backend faults never break or corrupt proxying",
  "Whatever the remote cache does - fails, loses or evicts values, returns errors on any operation, or returns truncated or foreign bytes (anything but a complete entry written by kache) - every client request is still answered with a correct origin response (a backend fault is at worst a miss), and no fault makes the proxy crash, hang or serve a corrupted or wrong response. Management operations that could not be carried out on the backend report failure rather than success.",
  ["fault_sequences","histories"],"all placements of up to two faults (error, lost write, lost value, truncated, garbage or empty value, iterator error) over the backend calls of every bounded request/management history, plain and layered",
  "No test injects a backend fault into the request path.",
  [RC,RE,LA,HC],[("error handling of fetch/store/keys/purge",RC),("decode failures are misses",HC)])
p("C17","Upstream failures are reported and never cached",
  "When the origin refuses, resets, stalls, truncates or garbles its answer, the client receives a gateway error status or a visibly aborted response and never a truncated body presented as complete; nothing from the failed exchange is stored, previously stored fresh entries stay usable (unless a write was answered with a non-error status before its answer broke off), and the next request to a recovered origin succeeds. This holds for the initiating request and every request coalesced with it.",
  ["fault_sequences","histories"],"every truncation point and fault kind of the origin exchange crossed with framing, cache state before, and follow-up requests",
  "Tests never cut an upstream response short.",
  [SV,TR,CO,HC],[("errorHandler",SV),("StoreResponse body read",HC),("coalescer body dump",CO)])
p("C18","Each request goes to the first upstream whose path prefix matches",
  "A request is forwarded to the first configured upstream whose path is a prefix of the request path, with method, path (joined to the upstream's base path, encoding preserved), query, body and end-to-end headers unchanged and Host set to the upstream's. The upstream's final status, end-to-end headers and body reach the client unchanged. If none matches, the client gets 503 Service Unavailable and no upstream is contacted.",
  ["configurations","inputs"],"all ordered lists of up to three upstreams over a closed set of prefixes and base paths, crossed with a closed set of request paths, encodings, queries and methods",
  "Tests try a few paths on one configuration, and the no-match test is known to fail.",
  [SV,TG],[("MatchTarget",TG),("Director",SV),("errorHandler",SV)])
p("C19","The API admits exactly the addresses in its access list",
  "With a non-empty access list every API route (management, purge, version, metrics, debug, config reload) answers only requests whose client address (last X-Forwarded-For entry, else X-Real-Ip, else the peer address; IPv4 or IPv6) equals a listed address or lies in a listed network, and refuses all others with 401 without performing the operation. With an empty list every request is admitted, and a malformed list is rejected at start.",
  ["inputs","configurations"],"all routes crossed with all access lists of up to two entries and all address presentations over a closed alphabet",
  "Tests use one list with a plain IPv4 address, on the filter alone.",
  [FI,API],[("IPFilter, originalIP",FI),("router middleware",API)])
p("C20","Management operations do exactly what they acknowledge",
  "Through the API, purge and invalidate remove exactly the keys matching the given pattern, flush removes everything, the key listing returns exactly the keys held and the config endpoint returns the configuration in force, each on the documented method and configured prefix only; wrong methods and paths change nothing. A success status means later client requests observe the effect, and a refused request (wrong method or path, malformed content) changes nothing.",
  ["histories","inputs"],"all sequences to a bounded depth of management calls and client requests, over methods, prefixes and patterns",
  "Tests hit each endpoint once or not at all and never check the effect on client traffic.",
  [HD,API],[("handlers",HD),("createRoutes",API)])
p("C21","Runtime configuration updates are atomic and take effect",
  "After a configuration update is acknowledged, every request that starts later follows the new configuration entirely; a request concurrent with updates is judged by one configuration, old or new, and never crashes, races or sees a half-initialised one. A rejected or malformed update leaves the configuration in force unchanged.",
  ["schedules","histories","inputs"],"all interleavings (to a preemption bound) of requests with one or two updates over several configuration pairs, and all sequences of valid and invalid updates to a bounded depth",
  "Tests set a configuration once before serving.",
  [HC,HD],[("atomic config pointer, matcher compilation",HC),("CacheConfigUpdateHandler",HD)])
p("C22","Configuration reloads follow the file and never break a running proxy",
  "After any history of file changes and reload triggers (signal, API call, automatic watch), the cache configuration in force is that of the last valid file content a trigger observed: an unreadable, invalid or unchanged file changes nothing and is reported as failure when invalid, a later valid file always takes effect, and no content crashes the process. Unset options take their documented defaults, in particular strict mode is on unless switched off.",
  ["histories","inputs","schedules"],"all sequences to a bounded depth of file contents (valid variants, invalid, partial, missing, sections absent) and triggers, and all interleavings of two concurrent reload triggers",
  "There is no test of the loader or of reloading at all.",
  [LD,KA,HC,CF],[("Load/Watch and checksum",LD),("reloadConfig/applyConfig",KA)])
p("C23","Cluster broadcasts reach every other node despite transient failures",
  "A broadcast operation is delivered to every ready endpoint of the named port with its method, path, body and headers intact and marked so that receivers do not rebroadcast; a delivery that fails with a connection error or error status is retried with the full request after the backoff, up to the configured limit, without affecting deliveries to other nodes. No endpoint list, peer failure or interleaving crashes or wedges the process or loses an undelivered message while retries remain.",
  ["fault_sequences","schedules","configurations"],"all outcome sequences per delivery (success, error status, connection error) to the retry limit, all endpoint topologies over a closed set, all interleavings of deliveries with shutdown to a preemption bound",
  "Tests broadcast to healthy fake endpoints only.",
  [K8,RQ,HD],[("Endpoints, Broadcast",K8),("process/retry",RQ)])
p("C24","A purge on any node takes effect on the whole cluster",
  "With layered caches sharing one remote store and a healthy cluster, once a purge accepted by one node has been broadcast and delivered, no node answers any later request from a copy stored before the purge; nodes restrict cluster-internal calls by their access list like any other caller and never broadcast a received broadcast again. A configuration update accepted by one node likewise reaches every node.",
  ["histories","configurations"],"all histories to a bounded depth of client requests, purges and config updates over two or three nodes and all delivery orders",
  "No test runs more than one node.",
  [HD,K8,LA],[("broadcastPurge, CacheInvalidateHandler, CacheConfigUpdateHandler",HD)])
p("C25","Negotiated variants are never mixed up",
  "In strict mode a stored response whose Vary names request headers is reused only for requests with the same values of those headers, and one with Vary: * is never reused without validation. This holds for hits, revalidations and requests coalesced with one in flight.",
  ["inputs","histories","schedules"],"all histories to a bounded depth over requests with a closed set of negotiation header values and responses with a closed set of Vary values",
  "No test sends a Vary header.",
  [HC,TR,CO],[("variant selection on lookup",HC)])
p("C26","Shutdown drains requests in flight and stops accepting new ones",
  "On SIGTERM or SIGINT the process stops accepting connections on every listener, lets every request in flight finish with its complete response (within the shutdown grace period), and then exits successfully, regardless of what each request was waiting for when the signal arrived. No interleaving of shutdown with requests, reloads or broadcasts hangs or crashes the process.",
  ["schedules","crash_points"],"signal delivered at every protocol step of requests in flight (idle, upstream pending, coalesced waiter, response partly sent, cache hit) on the real process",
  "Tests only start and stop an idle listener.",
  [LI,SV,KA],[("Listeners.Stop/Shutdown",LI),("Server.Start/Stop/Await",SV)])
p("C27","Nothing is left behind by a request",
  "Whatever the outcome of a request (hit, miss, revalidation, bypass, coalesced, failed, canceled, panicked, client gone early), once its callers have their answers every answer of an origin it fetched has been read to its end or closed, no goroutine started for it remains, no lock is held and its resource is served again; neither memory nor connections are kept beyond what the store and the connection pool are configured to keep, so that any number of requests leaves the process as able to serve as before.",
  ["histories","schedules","fault_sequences"],"all pairs (triples over a reduced set) of request kinds, origin outcomes and client behaviours, all interleavings of 2-3 concurrent callers with cancellation and early leaving to a preemption bound, and each step repeated for many resources",
  "No test looks at what remains after a request.",
  [TR,CO,SV],[("RoundTrip: body and in-flight bookkeeping",CO),("304 handling closes the answer",TR)])
p("C28","A start is refused with an explanation or serves completely what is configured",
  "Whatever configuration file and flags kache is started with, it either refuses to start, ending with a non-zero exit status and a message naming the cause, or serves completely what it was asked to: every configured listener answers, each upstream path reaches its own target and no other, the configured cache stores (with the configured remote database and credentials), the API answers under its prefix, only callers its access list admits, and debug endpoints only when enabled, and logs go where and at the level asked for. A part that is faulty or missing is never skipped silently and never crashes the process, at start or later; any configuration offered to a running instance by a reload leaves it serving.",
  ["inputs","configurations"],"all single variants and pairs of variants (about 190 variants over the listeners, upstreams, provider, cache, API, logging, cluster and flag sections), and each variant offered on reload by signal and by API, against the real program",
  "No test starts the program; the config tests parse one valid file.",
  [CF,LD,KA,SV,LI],[("Validate",CF),("applyConfig, runWatch",KA),("NewListeners",LI)])
p("C29","A successful write invalidates what is stored for its resource",
  "In strict mode, once a request with an unsafe method (POST, PUT, PATCH, DELETE) has been answered with a non-error status (2xx or 3xx), no request that begins later is answered from a response stored for the same URL before, in any tier, unless that response was fetched by a request still going on when the write was sent or is shared with a request that began before the write was answered. A write that fails, and a request with a safe method, invalidates nothing; no write affects what is stored for another URL.",
  ["histories","schedules","inputs"],"all combinations of fill, residence, method, status, request headers and probing request over closed alphabets, all sequences of reads and writes to a bounded depth, and all interleavings of 2-3 concurrent readers and writers to a preemption bound, over memory and layered stores",
  "No test sends a write to a resource that is stored.",
  [TR,CB,HC],[("RoundTrip: requests that bypass the cache",TR),("IsInvalidating",CB),("Delete",HC)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
