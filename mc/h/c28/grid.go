package main

import (
	"strings"

	"github.com/alicebob/miniredis/v2"
)

// what becomes of a configuration
const (
	run_   = iota // it must run
	either        // refused, or running as far as described
	refuse        // it must be refused
)

// what the store does
const (
	any_ = iota
	yes
	no
)

// exp is what is expected of a running program.
type exp struct {
	verdict    int
	listen     []string
	routes     [][2]string // request path, origin and its path
	api        bool
	prefix     string
	debug      bool
	allowed    bool
	store      int
	strict     bool
	loose      bool // what the response says is overruled
	small      bool // 100000 bytes are too much for the store
	db         string
	redis      func() *miniredis.Miniredis
	config     []string // parts of the configuration in force
	xname      string
	level      string
	json       bool
	log        string
	mute       bool // the log level hides the reason
	kube       bool
	file       string
	args       []string
	rewrite    func(string) string
	info       bool // it prints something and ends with 0
	dwell      bool // the fault may show later
	absent     bool // the file is gone
	unreadable bool // the file is no configuration
}

type variant struct {
	name    string
	verdict int
	yaml    string
	exp     func(*exp)
	key     bool // takes part in triples
}

type section struct {
	name string
	vars []variant
}

func listen(a ...string) func(*exp) { return func(e *exp) { e.listen = a } }
func routes(r ...string) func(*exp) {
	return func(e *exp) {
		e.routes = nil
		for i := 0; i < len(r); i += 2 {
			e.routes = append(e.routes, [2]string{r[i], r[i+1]})
		}
	}
}
func blind(e *exp)               { e.listen = nil }
func storeAny(e *exp)            { e.store = any_ }
func storeNo(e *exp)             { e.store = no }
func noAPI(e *exp)               { e.api = false }
func syntax(e *exp)              { e.unreadable = true }
func prefix(s string) func(*exp) { return func(e *exp) { e.prefix = s } }
func lvl(l string) func(*exp)    { return func(e *exp) { e.level = l } }
func js(e *exp)                  { e.json = true }
func small(e *exp)               { e.small = true }
func inDB(db string, r func() *miniredis.Miniredis) func(*exp) {
	return func(e *exp) { e.db, e.redis = db, r }
}
func plainRedis() *miniredis.Miniredis  { return redis }
func lockedRedis() *miniredis.Miniredis { return locked }
func conf(w ...string) func(*exp)       { return func(e *exp) { e.config = w } }
func muted(e *exp)                      { e.mute = true }
func file(f string) func(*exp)          { return func(e *exp) { e.log = f } }
func args(a ...string) func(*exp)       { return func(e *exp) { e.args = a } }
func rewrite(f func(string) string) func(*exp) {
	return func(e *exp) { e.rewrite = f }
}
func broken(f func(string) string) func(*exp) {
	return func(e *exp) { e.rewrite, e.unreadable = f, true }
}
func all(f ...func(*exp)) func(*exp) {
	return func(e *exp) {
		for _, f := range f {
			f(e)
		}
	}
}

const mem = "provider:\n  backend: inmemory\n"
const red = "provider:\n  backend: redis\n  redis:\n    endpoint: \"{REDIS}\"\n    max_queue_concurrency: 4\n    max_queue_buffer_size: 50\n"
const ups = "upstreams:\n- name: u\n  addr: http://{A}\n  path: /\n"

var sections = []section{
	{"listeners", []variant{
		{"one", run_, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n", nil, true},
		{"two", run_, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n  b:\n    addr: 127.0.0.1:{L2}\n", listen("127.0.0.1:{L1}", "127.0.0.1:{L2}"), true},
		{"three", run_, "listeners:\n  a:\n    addr: :{L1}\n  b:\n    addr: localhost:{L2}\n  c:\n    addr: 127.0.0.1:{L3}\n", listen("127.0.0.1:{L1}", "127.0.0.1:{L2}", "127.0.0.1:{L3}"), false},
		{"absent", refuse, "", nil, true},
		{"empty", refuse, "listeners: {}\n", nil, false},
		{"null", refuse, "listeners:\n", nil, false},
		{"a null entry", either, "listeners:\n  a:\n", blind, true},
		{"a good and a null entry", either, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n  b:\n", nil, true},
		{"no address", either, "listeners:\n  a: {}\n", blind, false},
		{"taken", refuse, "listeners:\n  a:\n    addr: :{TAKEN}\n", nil, true},
		{"the first taken", refuse, "listeners:\n  a:\n    addr: :{TAKEN}\n  b:\n    addr: 127.0.0.1:{L1}\n", nil, false},
		{"the last taken", refuse, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n  b:\n    addr: :{TAKEN}\n", nil, true},
		{"the middle taken", refuse, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n  b:\n    addr: :{TAKEN}\n  c:\n    addr: 127.0.0.1:{L2}\n", nil, false},
		{"the same twice", refuse, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n  b:\n    addr: 127.0.0.1:{L1}\n", nil, false},
		{"no port", refuse, "listeners:\n  a:\n    addr: localhost\n", nil, false},
		{"port too high", refuse, "listeners:\n  a:\n    addr: 127.0.0.1:99999\n", nil, false},
		{"no such host", refuse, "listeners:\n  a:\n    addr: 999.0.0.1:{L1}\n", nil, false},
		{"a list", refuse, "listeners:\n- addr: 127.0.0.1:{L1}\n", syntax, false},
		{"a string", refuse, "listeners: 127.0.0.1:{L1}\n", syntax, false},
		{"unknown key", refuse, "listeners:\n  a:\n    addr: 127.0.0.1:{L1}\n    tls: true\n", syntax, false},
	}},
	{"upstreams", []variant{
		{"one", run_, ups, nil, true},
		{"two", run_, "upstreams:\n- name: s\n  addr: http://{B}\n  path: /b\n- name: u\n  addr: http://{A}\n  path: /\n", routes("/x", "A /x", "/b", "B /b", "/b/c", "B /b/c"), true},
		{"without /", run_, "upstreams:\n- name: s\n  addr: http://{B}/\n  path: /b\n- name: u\n  addr: http://{A}/base\n  path: /a/\n", routes("/b", "B /b", "/a", "A /base/a"), false},
		{"no name", run_, "upstreams:\n- addr: http://{A}\n  path: /\n", nil, false},
		{"no path", either, "upstreams:\n- name: u\n  addr: http://{A}\n", nil, false},
		{"path without /", either, "upstreams:\n- name: s\n  addr: http://{B}\n  path: b\n- name: u\n  addr: http://{A}\n  path: /\n", routes("/x", "A /x", "/b", "B /b"), true},
		{"path with a brace", either, "upstreams:\n- name: s\n  addr: http://{B}\n  path: /b{\n- name: u\n  addr: http://{A}\n  path: /\n", routes("/x", "A /x", "/b%7B", "B /b{"), false},
		{"absent", refuse, "", nil, true},
		{"empty", refuse, "upstreams: []\n", nil, false},
		{"null", refuse, "upstreams:\n", nil, false},
		{"a null entry", either, "upstreams:\n-\n", nil, true},
		{"a good and a null entry", either, ups + "-\n", nil, true},
		{"a null and a good entry", either, "upstreams:\n-\n- name: u\n  addr: http://{A}\n  path: /\n", nil, false},
		{"no address", either, "upstreams:\n- name: u\n  path: /\n", all(routes(), storeAny), false},
		{"address without scheme", either, "upstreams:\n- name: u\n  addr: \"{A}\"\n  path: /\n", all(routes(), storeAny), false},
		{"no URL", refuse, "upstreams:\n- name: u\n  addr: \"http://[::1\"\n  path: /\n", nil, true},
		{"no URL, then a good one", refuse, "upstreams:\n- name: s\n  addr: \"http://%zz\"\n  path: /b\n- name: u\n  addr: http://{A}\n  path: /\n", nil, false},
		{"a good one, then no URL", refuse, ups + "- name: s\n  addr: \"http://h:port\"\n  path: /b\n", nil, true},
		{"a map", refuse, "upstreams:\n  u:\n    addr: http://{A}\n", syntax, false},
		{"unknown key", refuse, ups + "  weight: 3\n", syntax, false},
	}},
	{"provider", []variant{
		{"memory", run_, mem, nil, true},
		{"memory with sizes", run_, mem + "  inmemory:\n    max_size: 1000000\n    max_item_size: 90000\n    default_ttl: 50s\n", small, false},
		{"memory with large sizes", run_, mem + "  inmemory:\n    max_size: 1000000\n    max_item_size: 500000\n", nil, false},
		{"memory with a size below the default item size", refuse, mem + "  inmemory:\n    max_size: 90000\n", nil, false},
		{"memory without eviction", run_, mem + "  inmemory:\n    default_ttl: \"-1\"\n", nil, false},
		{"memory, lifetime unreadable", either, mem + "  inmemory:\n    default_ttl: soon\n", nil, false},
		{"redis", run_, red, inDB("0", plainRedis), true},
		{"redis, database", run_, red + "    db: 3\n", inDB("3", plainRedis), false},
		{"redis, item size", run_, red + "    max_item_size: 90000\n", small, false},
		{"redis, large item size", run_, red + "    max_item_size: 500000\n", nil, false},
		{"redis, password", run_, strings.Replace(red, "{REDIS}", "{LOCKED}", 1) + "    username: u\n    password: pw\n", inDB("0", lockedRedis), true},
		{"redis, wrong password", refuse, strings.Replace(red, "{REDIS}", "{LOCKED}", 1) + "    username: u\n    password: wp\n", nil, true},
		{"redis, wrong user", refuse, strings.Replace(red, "{REDIS}", "{LOCKED}", 1) + "    username: v\n    password: pw\n", nil, false},
		{"redis, no password", refuse, strings.Replace(red, "{REDIS}", "{LOCKED}", 1), nil, false},
		{"redis, layered, in the database", run_, red + "    db: 5\n  layered: true\n", inDB("5", plainRedis), false},
		{"redis, layered, small memory", run_, red + "  layered: true\n  inmemory:\n    max_size: 1000\n    max_item_size: 500\n", nil, false},
		{"redis, layered", run_, red + "  layered: true\n  layered_ttl: 10s\n", nil, true},
		{"redis, layered, lifetime unreadable", either, red + "  layered: true\n  layered_ttl: soon\n", nil, false},
		{"redis, one worker", run_, strings.Replace(red, "rency: 4", "rency: 1", 1), nil, false},
		{"redis, no workers", either, strings.Replace(red, "rency: 4", "rency: 0", 1), nil, true},
		{"redis, negative workers", either, strings.Replace(red, "rency: 4", "rency: -1", 1), nil, false},
		{"redis, workers not given", either, "provider:\n  backend: redis\n  redis:\n    endpoint: \"{REDIS}\"\n", nil, true},
		{"redis, negative queue", either, strings.Replace(red, "size: 50", "size: -1", 1), nil, false},
		{"redis down", refuse, strings.Replace(red, "{REDIS}", "{DEAD}", 1), nil, false},
		{"redis down, layered", refuse, strings.Replace(red, "{REDIS}", "{DEAD}", 1) + "  layered: true\n", nil, false},
		{"redis without endpoint", refuse, strings.Replace(red, "{REDIS}", "", 1), nil, true},
		{"redis without section", refuse, "provider:\n  backend: redis\n", nil, false},
		{"redis, layered, sizes the wrong way", refuse, red + "  layered: true\n  inmemory:\n    max_size: 1000\n    max_item_size: 100000\n", nil, true},
		{"memory, sizes the wrong way", refuse, mem + "  inmemory:\n    max_size: 1000\n    max_item_size: 100000\n", nil, true},
		{"memory, negative size", refuse, mem + "  inmemory:\n    max_size: -5\n", syntax, false},
		{"unknown backend", refuse, "provider:\n  backend: memcached\n", nil, true},
		{"no backend", refuse, "provider:\n  layered: true\n", nil, false},
		{"empty", refuse, "provider: {}\n", nil, false},
		{"absent", either, "", nil, true},
		{"null", either, "provider:\n", nil, true},
		{"a string", refuse, "provider: inmemory\n", syntax, false},
		{"unknown key", refuse, mem + "  size: 5\n", syntax, false},
	}},
	{"cache", []variant{
		{"strict", run_, "cache:\n  strict: true\n", nil, true},
		{"absent", run_, "", nil, true},
		{"null", run_, "cache:\n", nil, true},
		{"empty", run_, "cache: {}\n", nil, false},
		{"not strict", run_, "cache:\n  strict: false\n  default_ttl: 100s\n", all(func(e *exp) { e.strict = false }, conf(`"strict":false`, `"default_ttl":"100s"`)), false},
		{"marker", run_, "cache:\n  x_header: true\n", func(e *exp) { e.xname = "X-Kache" }, true},
		{"marker, named", run_, "cache:\n  x_header: true\n  x_header_name: x-from\n", func(e *exp) { e.xname = "X-From" }, false},
		{"everything", run_, "cache:\n  strict: true\n  x_header: true\n  x_header_name: x-from\n  default_ttl: 77s\n  default_cache_control: max-age=33\n  force_cache_control: true\n  timeouts:\n  - path: /q\n    ttl: 5s\n  - path: /r\n    ttl: 1m\n  exclude:\n    path: [/ex, /ey]\n    header: {x-test: \"on\"}\n    content:\n    - type: image/png\n      size: 12\n", all(func(e *exp) { e.xname, e.loose = "X-From", true }, conf(`"strict":true`, `"x_header":true`, `"x_header_name":"x-from"`, `"default_ttl":"77s"`, `"default_cache_control":"max-age=33"`, `"force_cache_control":true`, `{"path":"/q","ttl":5000000000}`, `{"path":"/r","ttl":60000000000}`, `"/ex","/ey"`, `"x-test":"on"`, `"type":"image/png","size":12`)), true},
		{"excluded path", run_, "cache:\n  exclude:\n    path: [\"^/\"]\n", storeNo, true},
		{"excluded type", run_, "cache:\n  exclude:\n    content:\n    - type: \"text/.*\"\n", storeNo, false},
		{"no-store forced", run_, "cache:\n  default_cache_control: no-store\n  force_cache_control: true\n", storeNo, false},
		{"timeouts", run_, "cache:\n  timeouts:\n  - path: \"^/\"\n    ttl: 100s\n", nil, false},
		{"excluded path unreadable", either, "cache:\n  exclude:\n    path: [\"(\"]\n", storeAny, true},
		{"excluded type unreadable", either, "cache:\n  exclude:\n    content:\n    - type: \"(\"\n", storeAny, true},
		{"timeout path unreadable", either, "cache:\n  timeouts:\n  - path: \"(\"\n    ttl: 10s\n", storeAny, true},
		{"timeout unreadable", refuse, "cache:\n  timeouts:\n  - path: /x\n    ttl: soon\n", syntax, false},
		{"lifetime unreadable", either, "cache:\n  default_ttl: soon\n", storeAny, false},
		{"null entries", either, "cache:\n  exclude:\n    path: [null]\n    content: [null]\n    header: {a: null}\n  timeouts: [null]\n", storeAny, true},
		{"null lists", either, "cache:\n  exclude:\n    path:\n    content:\n    header:\n  timeouts:\n", storeAny, false},
		{"wrong type", refuse, "cache:\n  strict: perhaps\n", syntax, true},
		{"unknown key", refuse, "cache:\n  stict: true\n", syntax, false},
		{"a list", refuse, "cache: [strict]\n", syntax, false},
	}},
	{"api", []variant{
		{"plain", run_, "api:\n  port: {API}\n", nil, true},
		{"debug", run_, "api:\n  port: {API}\n  debug: true\n", func(e *exp) { e.debug = true }, true},
		{"prefix", run_, "api:\n  port: {API}\n  prefix: /admin\n", prefix("/admin"), true},
		{"prefix without /", run_, "api:\n  port: {API}\n  prefix: admin/kache\n", prefix("/admin/kache"), false},
		{"prefix ending in /", run_, "api:\n  port: {API}\n  prefix: /admin/\n", prefix("/admin"), false},
		{"prefix /", run_, "api:\n  port: {API}\n  prefix: /\n", prefix(""), false},
		{"acl that allows", run_, "api:\n  port: {API}\n  acl: 10.0.0.1, 127.0.0.0/8\n", nil, true},
		{"acl that denies", run_, "api:\n  port: {API}\n  debug: true\n  acl: 10.0.0.1,192.168.0.0/16\n", func(e *exp) { e.allowed, e.debug = false, true }, true},
		{"acl unreadable", refuse, "api:\n  port: {API}\n  acl: everybody\n", nil, true},
		{"acl unreadable at the end", refuse, "api:\n  port: {API}\n  acl: 10.0.0.1, 10.0.0.0/33\n", nil, false},
		{"acl unreadable at the start", refuse, "api:\n  port: {API}\n  acl: 10.0.0.300, 127.0.0.1\n", nil, false},
		{"port taken", refuse, "api:\n  port: {TAKEN}\n", noAPI, true},
		{"port of a listener", refuse, "api:\n  port: {L1}\n", noAPI, false},
		{"port too high", refuse, "api:\n  port: 70000\n", noAPI, false},
		{"port negative", refuse, "api:\n  port: -1\n", noAPI, true},
		{"port no number", refuse, "api:\n  port: http\n", all(noAPI, syntax), false},
		{"port not given", either, "api:\n  debug: true\n", noAPI, false},
		{"absent", either, "", noAPI, true},
		{"null", either, "api:\n", noAPI, true},
		{"empty", either, "api: {}\n", noAPI, false},
		{"unknown key", refuse, "api:\n  port: {API}\n  user: x\n", syntax, false},
	}},
	{"logging", []variant{
		{"absent", run_, "", nil, true},
		{"null", run_, "logging:\n", nil, false},
		{"empty", run_, "logging: {}\n", nil, false},
		{"debug", run_, "logging:\n  level: debug\n  color: true\n", lvl("debug"), true},
		{"trace, json", run_, "logging:\n  level: trace\n  format: json\n", all(lvl("trace"), js), false},
		{"info", run_, "logging:\n  level: info\n", lvl("info"), false},
		{"warn", run_, "logging:\n  level: WARN\n", lvl("warn"), false},
		{"error", run_, "logging:\n  level: error\n", lvl("error"), false},
		{"fatal", run_, "logging:\n  level: fatal\n", all(muted, lvl("fatal")), true},
		{"panic", run_, "logging:\n  level: panic\n", all(muted, lvl("panic")), true},
		{"disabled", run_, "logging:\n  level: disabled\n", all(muted, lvl("disabled")), true},
		{"unknown level", either, "logging:\n  level: loud\n", nil, false},
		{"file", run_, "logging:\n  level: debug\n  file: \"{DIR}/kache.log\"\n", all(file("{DIR}/kache.log"), lvl("debug")), true},
		{"file with limits, json", run_, "logging:\n  file: \"{DIR}/kache.log\"\n  format: json\n  max_size: 1\n  max_age: 1\n  max_backups: 2\n", all(file("{DIR}/kache.log"), lvl("info"), js), false},
		{"file in a new folder", either, "logging:\n  file: \"{DIR}/logs/kache.log\"\n", all(file("{DIR}/logs/kache.log"), lvl("info")), false},
		{"file is a folder", either, "logging:\n  file: \"{DIR}\"\n", muted, true},
		{"wrong type", refuse, "logging:\n  max_size: big\n", syntax, false},
		{"unknown key", refuse, "logging:\n  verbose: true\n", syntax, false},
	}},
	{"cluster", []variant{
		{"absent", run_, "", nil, true},
		{"null", run_, "cluster:\n", nil, false},
		{"kubernetes", run_, "cluster:\n  discovery: kubernetes\n  namespace: n\n  service: s\n", func(e *exp) { e.kube = true }, true},
		{"kubernetes, no access", refuse, "cluster:\n  discovery: kubernetes\n  namespace: n\n  service: s\n", nil, true},
		{"unknown", refuse, "cluster:\n  discovery: dns\n", nil, true},
		{"empty", refuse, "cluster: {}\n", nil, false},
		{"unknown key", refuse, "cluster:\n  discovery: kubernetes\n  port: 1\n", syntax, false},
		{"wrong type", refuse, "cluster: kubernetes\n", syntax, false},
	}},
	{"file", []variant{
		{"given", run_, "", nil, true},
		{"default name", run_, "", func(e *exp) { e.file, e.args = "kache.yml", []string{} }, true},
		{"relative", run_, "", args("-config.file=./k.yml"), false},
		{"missing", refuse, "", func(e *exp) { e.file, e.absent, e.unreadable = "", true, true }, true},
		{"a folder", refuse, "", args("-config.file", "{DIR}"), false},
		{"empty", refuse, "", broken(func(string) string { return "" }), true},
		{"comments only", refuse, "", broken(func(string) string { return "# nothing\n\n" }), false},
		{"null document", refuse, "", rewrite(func(string) string { return "---\n~\n" }), false},
		{"no yaml", refuse, "", broken(func(string) string { return "listeners: [\n" }), true},
		{"a list", refuse, "", broken(func(string) string { return "- a\n- b\n" }), false},
		{"cut short", refuse, "", broken(func(s string) string { return s + "zz: {" }), false},
		{"unknown section", refuse, "", broken(func(s string) string { return s + "tls:\n  cert: x\n" }), true},
		{"section twice", refuse, "", broken(func(s string) string { return s + "listeners:\n  z:\n    addr: 127.0.0.1:1\nlisteners: {}\n" }), false},
		{"lines ending in CRLF", run_, "", rewrite(func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }), false},
		{"with a comment", run_, "", rewrite(func(s string) string { return "# kache\n---\n" + s + "# end\n" }), false},
		{"watched", run_, "", args("-config.file", "{DIR}/k.yml", "-config.auto-reload", "-config.watch-interval", "10ms"), true},
		{"watched with interval 0", either, "", all(args("-config.file", "{DIR}/k.yml", "-config.auto-reload", "-config.watch-interval", "0s"), func(e *exp) { e.dwell = true }), true},
		{"watched with a negative interval", either, "", all(args("-config.file", "{DIR}/k.yml", "-config.auto-reload", "-config.watch-interval", "-1s"), func(e *exp) { e.dwell = true }), false},
		{"not watched with interval 0", either, "", args("-config.file", "{DIR}/k.yml", "-config.watch-interval", "0s"), false},
		{"interval unreadable", refuse, "", args("-config.file", "{DIR}/k.yml", "-config.watch-interval", "soon"), false},
		{"unknown flag", refuse, "", args("-config.file", "{DIR}/k.yml", "-tls"), false},
		{"version", refuse, "", all(args("-config.file", "{DIR}/k.yml", "-version"), func(e *exp) { e.info = true }), false},
	}},
}

const kubeconfig = `apiVersion: v1
kind: Config
clusters:
- name: c
  cluster:
    server: http://{DEAD}
contexts:
- name: c
  context:
    cluster: c
    user: u
current-context: c
users:
- name: u
  user: {}
`
