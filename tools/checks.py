NA = {}
HTTP = "Every history of the stated alphabet and depth is run through the real caching transport (virtual clock, scripted origin sending raw HTTP/1.1 bytes) and every answer, every origin request and the store are compared with an independent RFC 9111 reference model. Bounded by the alphabet listed in the evidence."
CHECKS = {
 "C01": (SEQ, HTTP),
 "C02": (SEQ, HTTP),
 "C03": (SEQ, HTTP),
 "C04": (SEQ, HTTP),
 "C06": (SEQ, HTTP),
 "C07": (SEQ, HTTP),
 "C08": (SEQ, HTTP),
 "C09": (SCHED, "Every schedule of 2-4 callers on the real coalescer (alone and above the real caching transport) with up to 1-4 preemptions (bound per scenario in the evidence), for every scripted origin outcome; plus a race-detector pass. Assumes sequentially consistent memory between the instrumented points."),
 "C10": (SCHED, "Every schedule of 2-3 callers on the real coalescer (alone and above the real caching transport) with up to 1-3 preemptions, over all pairs of request kinds and response headers, with cancellation at every point; plus a race-detector pass. Assumes sequentially consistent memory between the instrumented points."),
 "C15": (SCHED, "Every schedule of dispatchers, workers and stop with up to 3 (thorough: 5) preemptions is executed on the real queue, and of asynchronous stores by the real Redis client (plain and layered) on a stalling in-process backend; plus a race-detector pass. Assumes sequentially consistent memory between the instrumented points and Go's documented select semantics."),
 "C25": (SCHED, "Every history of the stated alphabet through the real caching transport (compared with the reference model) and every schedule of 2-3 callers on the real coalescer above it with up to 1-2 preemptions, over all pairs of request header values and Vary lists; plus a race-detector pass. Assumes sequentially consistent memory between the instrumented points."),
 "C05": (SEQ, "Every URL of the stated families (all paths and queries over token alphabets up to a length, products of schemes, hosts, paths and queries) is stored and asked for through the real caching transport and the complete proxy; an answer from the store must belong to the same canonical URL. All ordered pairs of a smaller universe are also run with one request in flight. Bounded by the token alphabets and lengths."),
 "C11": (SEQ, "Every operation sequence up to the stated depth over alphabets built around the size, item and TTL limits is run on the real in-memory cache (virtual clock) and compared after every step with an independent model of a byte-bounded LRU map; a fixed suffix exposes hidden order and accounting. Bounded by the alphabets (2-5 keys) and depths in the evidence."),
 "C12": (SCHED, "Every schedule (up to 1-4 preemptions, statement-level points for pairs) of 2-3 threads running every program of 1-2 operations on the real in-memory cache; each history must have a linearization of the reference model that also explains order and accounting afterwards; plus a race-detector pass. Assumes sequentially consistent memory between the instrumented points."),
 "C13": (SEQ, "Every pattern up to 4 tokens over alphabets of metacharacters and words is purged on stores holding every key up to 2-3 tokens (in-memory, Redis client on an in-process Redis with paged scans, layered, and a real RESP server for a smaller universe), and what is left is compared with an independent matcher; keys also appear or vanish at every command of a purge. Bounded by the token alphabets and lengths."),
 "C14": (SCHED, "Every schedule (up to 1-3 preemptions) of 2-3 threads running every program of 1-2 operations on the real layered cache over the real Redis client (in-process Redis, writes applied in order), and every operation sequence up to a depth with expiry, against a model of the two tiers; plus a race-detector pass. Assumes sequentially consistent memory between the instrumented points."),
 "C16": (FAULT, "Every history of requests, content changes, waits, purges and flushes up to the stated depth is run through the real caching transport on the real Redis client and layered cache, with each of 19 faults at every remote command, pairs of faults and outages from every command on, and every truncation of a stored entry; each answer is compared with what the origin gave. Bounded by alphabet and depth."),
 "C17": (FAULT, "Every cut (orderly and by reset) of answers in every framing, garbled answers, refusals and stalls are played by a raw origin to the complete proxy over loopback, within histories of plain, no-cache, HEAD, POST, Range and concurrent requests up to a depth; each answer and the store are compared with a model of what may be kept. Real sockets: the interleaving of concurrent requests is not controlled here (C09 does that). Bounded by the listed answers and depth."),
 "C18": (SEQ, "Every list of up to 3 upstreams over a set of prefixes and base paths with every listed path, the products of paths and queries, of methods, bodies, framings and headers, and of status codes, headers and framings of the answer are sent through the complete proxy over loopback; what reaches the upstreams and the client is compared byte for byte with an independent routing and joining rule. All ordered pairs of a set of requests also run with one in flight. Bounded by the listed sets."),
 "C19": (SEQ, "Every prefix length with every client address one bit away, every list of up to 3 of a set of entries, every combination of address sources on every route and prefix, and other methods and spellings are put to the real API handler and compared with an independent bit-string model; operations must have their effect exactly when admitted. The real program is probed on every route with 6 lists. Bounded by the listed sets."),
 "C20": (SEQ, "Every management operation (with 25 patterns and 11 config bodies, and on other methods, paths and prefixes), every pair of operations and every sequence of a smaller alphabet up to the stated depth, mixed with client requests, content changes and waits, goes through the real API handler on the in-memory, Redis and layered stores, also with each backend command of a management request failing; after every step the key listing and config endpoint, and the answers to later client requests, are compared with a model. Bounded by alphabet and depth."),
 "C21": (SCHED, "All schedules (to the preemption bound) of requests with one or two updates over 12 configurations (132 ordered pairs, 15 request/store situations each), including statement-level interleavings, malformed updates, the config endpoint and coalesced requests; each observation must equal what one of the configurations in force during the request gives when used alone. All sequences of valid, malformed and interrupted updates to the stated depth. Bounded by alphabet, preemptions and depth."),
 "C22": (SCHED, "The whole program (kache.New and Run) runs under the controlled scheduler with virtual signals, time and listeners. All sequences to the stated depth of file contents (24: valid, partial, invalid, missing, directory; every prefix of one file) and triggers (API, SIGHUP, watch interval, config PUT), and all schedules to the preemption bound of two or three concurrent triggers and writers, are compared with a model of the configuration in force. File times also go backwards or stay the same. A set of histories is repeated on the real binary. Bounded by alphabet, depth and preemptions."),
 "C23": (SCHED, "All schedules (to the preemption bound) of broadcasts, workers, retries and closing on the real client and request queue, with every sequence of outcomes up to the retry limit, exchanges replaced at http.DefaultTransport; every endpoint list over 40 subsets and every outcome sequence to a depth again with real peers over loopback sockets; plus a race-detector pass. Idle workers are taken to be interchangeable; the peers' network stack is the standard library's."),
 "C24": (SCHED, "Every history to the stated depth of requests, purges and updates at any of 2-3 real nodes (API with access list, caching transport, layered store, request queue) sharing one in-process Redis, with every order of deliveries, failed deliveries, lost answers and waits; all callers against all arrangements of access lists; all schedules (to the preemption bound) of purges and updates with requests; plus a race-detector pass. Writes to the remote store are applied when they are issued; exchanges between nodes are replaced at http.DefaultTransport."),
 "C26": (FAULT, "The real program is run with every kind of request (22 kinds) stopped at every step of its protocol, alone and in pairs (thorough: triples) on two listeners, with sequences of TERM, INT and HUP; new connections must be refused, every request in flight must get its complete answer, and the program must end successfully within its grace period. The whole program also runs under the controlled scheduler (virtual signals, time, listeners, upstream, cluster), all schedules up to 2-3 departures from the default order, with requests, reloads, watch, updates, purges and broadcasts around the signal. Assumes net/http's documented Serve/Shutdown/Close under the scheduler; signals before the handler is installed are not covered."),
 "C27": (SCHED, "Every pair of 706 steps (request kind, answer or failure of the origin, client behaviour, fresh or stale entry) and triples of a reduced set run through the real coalescing and caching transports with answers that know whether they were read or closed; goroutines are counted and the resource asked for again. 2-3 concurrent callers with every outcome, cancellation and early leaving run under the controlled scheduler, all schedules to the preemption bound. Each step is repeated for thousands of different resources with the heap measured, and histories run through the complete proxy between sockets with goroutines and origin connections counted. Memory below 60 bytes per request counts as noise; bounded by alphabet, depth and preemptions."),
"C28": (FAULT, "The real program is started with every one of about 190 variants of its configuration (eight sections: listeners, upstreams, provider, cache, API, logging, cluster, file and flags) and with all pairs of variants of different sections, in a scratch directory against an in-process origin and Redis; it must be refused with an explanation or serve what the variant asks for, observed through every listener, route, API path, store and log. Each variant is also offered to a running instance by signal and by API. What is refused and what runs is listed per variant; bounded by the list of variants and pairs (thorough: reloads of pairs)."),
"C29": (SEQ, "Every combination of what is stored, how long ago, unsafe or safe method, 29 statuses, request headers and probing read, all sequences of reads and writes to the stated depth, and neighbouring URLs, run through the real coalescing and caching transports over memory and layered stores and are judged by the reference model of the store. 2-3 concurrent readers and writers run under the controlled scheduler, all schedules to the preemption bound, plus a race-detector pass. Exchanges begun before the write and answers shared with earlier requests are tolerated."),
}
