// Package world builds the systems the checks drive: the caching transport stack with a scripted
// origin, and the complete proxy between real sockets.
package world

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"kverif/vsched"
)

// Call is a request the origin received.
type Call struct {
	Method string
	Host   string
	URI    string // path and query as sent
	Header http.Header
	Body   []byte
	At     time.Duration // virtual time
	Req    *http.Request
}

func (c *Call) String() string {
	var hs []string
	for k, v := range c.Header {
		hs = append(hs, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%s %s%s %s", c.Method, c.Host, c.URI, strings.Join(hs, " "))
}

// Reply is the origin's answer.
type Reply struct {
	Raw  string // complete HTTP/1.1 response
	Err  error  // transport error instead
	Body io.ReadCloser
}

// Origin is the scripted origin, used as the innermost RoundTripper.
type Origin struct {
	Calls []*Call
	Reply func(c *Call) Reply
	Keep  int // calls kept (0: all)
}

func (o *Origin) RoundTrip(req *http.Request) (*http.Response, error) {
	c := &Call{Method: req.Method, Host: req.Host, URI: req.URL.RequestURI(), Header: req.Header.Clone(), At: Now(), Req: req}
	if req.Body != nil {
		c.Body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	o.Calls = append(o.Calls, c)
	r := o.Reply(c)
	if r.Err != nil {
		return nil, r.Err
	}
	res, err := Parse(r.Raw, req)
	if err != nil {
		return nil, err
	}
	if r.Body != nil {
		res.Body = r.Body
	}
	return res, nil
}

// Parse reads a scripted answer.
func Parse(raw string, req *http.Request) (*http.Response, error) {
	res, err := http.ReadResponse(bufio.NewReader(strings.NewReader(raw)), req)
	if err != nil {
		return nil, fmt.Errorf("origin reply: %w", err)
	}
	return res, nil
}

// Chain is the transport stack below the reverse proxy.
type Chain struct {
	Provider provider.Provider
	Cache    *cache.HttpCache
	RT       http.RoundTripper
	Origin   *Origin
}

// Epoch is virtual time zero.
var Epoch = time.Unix(1700000000, 0).UTC()

// Now is the virtual time since Epoch.
func Now() time.Duration { return time.Duration(vsched.NowNanos() - Epoch.UnixNano()) }

// Date formats virtual time d as an HTTP date.
func Date(d time.Duration) string { return Epoch.Add(d).UTC().Format(http.TimeFormat) }

// NewProvider makes the default in-memory store.
func NewProvider() provider.Provider {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 26, MaxItemSize: 1 << 24, DefaultTTL: "120s"})
	if err != nil {
		panic(err)
	}
	return p
}

// NewChain builds the stack on the given store.
func NewChain(cfg *cache.HttpCacheConfig, p provider.Provider) *Chain {
	hc, err := cache.NewHttpCache(cfg, p)
	if err != nil {
		panic(err)
	}
	o := &Origin{}
	tr := middleware.NewCachedTransport(hc, nil)
	tr.Transport = o
	return &Chain{Provider: p, Cache: hc, RT: middleware.NewCoalesced(tr), Origin: o}
}

// NewChainRT builds the stack above the given transport.
func NewChainRT(cfg *cache.HttpCacheConfig, p provider.Provider, rt http.RoundTripper) http.RoundTripper {
	hc, err := cache.NewHttpCache(cfg, p)
	if err != nil {
		panic(err)
	}
	tr := middleware.NewCachedTransport(hc, nil)
	tr.Transport = rt
	return middleware.NewCoalesced(tr)
}

// Result is what the client of the stack got.
type Result struct {
	Err     error
	Status  int
	Header  http.Header
	Body    []byte
	BodyErr error
	Calls   []*Call // origin requests made meanwhile
}

func (r *Result) String() string {
	if r.Err != nil {
		return "error " + r.Err.Error()
	}
	return fmt.Sprintf("%d %v body=%q bodyerr=%v origin=%d", r.Status, HeaderString(r.Header), r.Body, r.BodyErr, len(r.Calls))
}

// HeaderString renders a header deterministically.
func HeaderString(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, h[k])
	}
	return strings.TrimSpace(b.String())
}

// NewRequest builds a request as the reverse proxy hands it to the stack.
func NewRequest(ctx context.Context, method, rawurl string, h http.Header, body string) *http.Request {
	u, err := url.Parse(rawurl)
	if err != nil {
		panic(err)
	}
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req, err := http.NewRequestWithContext(ctx, method, rawurl, rd)
	if err != nil {
		panic(err)
	}
	req.URL = u
	req.Host = u.Host
	if h != nil {
		req.Header = h.Clone()
	}
	return req
}

// Do sends one request through the stack and reads the response completely.
func (c *Chain) Do(method, rawurl string, h http.Header, body string) *Result {
	return c.DoCtx(context.Background(), method, rawurl, h, body)
}

func (c *Chain) DoCtx(ctx context.Context, method, rawurl string, h http.Header, body string) *Result {
	n := len(c.Origin.Calls)
	res, err := c.RT.RoundTrip(NewRequest(ctx, method, rawurl, h, body))
	r := ReadResult(res, err)
	r.Calls = append([]*Call(nil), c.Origin.Calls[n:]...)
	if c.Origin.Keep > 0 && len(c.Origin.Calls) > c.Origin.Keep {
		c.Origin.Calls = c.Origin.Calls[:0]
	}
	return r
}

// ReadResult consumes a response.
func ReadResult(res *http.Response, err error) *Result {
	if err != nil {
		return &Result{Err: err}
	}
	if res == nil {
		return &Result{Err: errors.New("nil response and nil error")}
	}
	r := &Result{Status: res.StatusCode, Header: res.Header}
	if res.Body != nil {
		r.Body, r.BodyErr = io.ReadAll(res.Body)
		res.Body.Close()
	}
	return r
}

// Raw composes an HTTP/1.1 response. Header lines are "Name: value".
func Raw(status int, body string, headers ...string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %03d %s\r\n", status, http.StatusText(status))
	cl := false
	for _, h := range headers {
		b.WriteString(h + "\r\n")
		l := strings.ToLower(h)
		if strings.HasPrefix(l, "content-length:") || strings.HasPrefix(l, "transfer-encoding:") {
			cl = true
		}
	}
	if !cl && status != 304 && status != 204 && status >= 200 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n" + body)
	return b.String()
}

// RawClose composes a response that is delimited by the end of the connection.
func RawClose(status int, body string, headers ...string) string {
	return strings.Replace(Raw(status, body, append(headers, "Content-Length: delimited")...), "Content-Length: delimited\r\n", "", 1)
}

// Chunked composes a chunked response in chunks of n bytes.
func Chunked(status int, body string, n int, headers ...string) string {
	var b strings.Builder
	for len(body) > 0 {
		k := min(n, len(body))
		fmt.Fprintf(&b, "%x\r\n%s\r\n", k, body[:k])
		body = body[k:]
	}
	return Raw(status, b.String()+"0\r\n\r\n", append(headers, "Transfer-Encoding: chunked")...)
}

// H builds a header from name, value pairs.
func H(kv ...string) http.Header {
	h := http.Header{}
	for i := 0; i+1 < len(kv); i += 2 {
		h.Add(kv[i], kv[i+1])
	}
	return h
}
