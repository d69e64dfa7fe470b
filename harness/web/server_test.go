package web

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/textproto"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// SOp is one step of a scripted handler.
type SOp struct {
	Op  string // header trailer wh write copy flush body bodyall hijack panic route rewrite
	N   int
	S   S
	Big int // H05: this much is written instead of S
}

func (o SOp) data() string {
	if o.Big > 0 {
		return string(pattern(o.Big, o.N))
	}
	return string(o.S)
}

// SReq is a request.
type SReq struct {
	Method  string
	Target  string
	Host    string
	UA      string
	Headers [][2]string
	Body    int // -1 none
	Chunked bool
	H2      bool
	Trailer bool // the request has trailers
}

// SCase is one exchange.
type SCase struct {
	Req     SReq
	Ops     []SOp
	Public  bool
	Fmt     int
	HealthF bool
	NameF   bool
	Mux     bool // the handler is wrapped by WithRouteTag
	Default bool // the handler is http.DefaultServeMux
	Outer   bool // tags in the incoming context
	OuterH  bool // HTTP tags, too
}

var statuses = []int{200, 201, 204, 206, 301, 304, 400, 401, 403, 404, 409, 418, 422, 429, 499, 500, 501, 503, 504, 599, 999, 102, 103}

var targets = []string{"/", "/a/b", "/a/b?q=1&z=%20", "/caf%C3%A9", "/x%2Fy", "/" + strings.Repeat("p", 300), "/healthz", "/_ah/health", "/healthz/", "/health"}

func genReq(t *rapid.T) SReq {
	r := SReq{Method: Pick(t, "method", "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "CUSTOM"), Target: rapid.SampledFrom(targets).Draw(t, "target"),
		Host: Pick(t, "host", "example.com", "example.com", "h:81", strings.Repeat("h", 260)), UA: Pick(t, "ua", "", "agent/1", "agent"), Body: -1, H2: OneIn(t, "h2", 4)}
	if Bool(t, "hasBody") && r.Method != "HEAD" {
		r.Body = Pick(t, "body", 0, 1, 10, 100, 5000, 20000)
		r.Chunked = OneIn(t, "chunked", 3)
		r.Trailer = r.Chunked && OneIn(t, "trailer", 3)
	}
	if Bool(t, "hdr") {
		r.Headers = append(r.Headers, [2]string{"X-Custom", "v"}, [2]string{"X-Custom", "w"})
	}
	switch Int(t, "trace", 0, 5) {
	case 1:
		r.Headers = append(r.Headers, [2]string{"X-B3-TraceId", "463ac35c9f6413ad48485a3953bb6124"}, [2]string{"X-B3-SpanId", "a2fb4a1d1a96d312"}, [2]string{"X-B3-Sampled", "1"})
	case 2:
		r.Headers = append(r.Headers, [2]string{"Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"}, [2]string{"Tracestate", "a=b"})
	case 3:
		r.Headers = append(r.Headers, [2]string{"X-B3-TraceId", "zz"}, [2]string{"Traceparent", "00-"})
	}
	return r
}

func genOps(t *rapid.T, extra ...string) []SOp {
	kinds := append([]string{"write", "write", "wh", "wh", "header", "copy", "flush", "body", "bodyall", "control"}, extra...)
	var first []SOp
	if OneIn(t, "limited", 6) { // a first write that may not fit
		first = []SOp{{Op: "header", N: 3, S: Pick[S](t, "length", "0", "5", "100")}, {Op: Pick(t, "how", "copy", "write"), N: Pick(t, "n", 0, 1, 5, 7, 100, 511)}}
	}
	return append(first, Slice(t, "ops", 0, 9, func(t *rapid.T) SOp {
		o := SOp{Op: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.Op {
		case "wh":
			o.N = rapid.SampledFrom(statuses).Draw(t, "status")
		case "write", "copy", "body":
			o.N = Pick(t, "n", 0, 1, 7, 100, 511, 3000, 9000)
		case "header", "trailer":
			o.N = Int(t, "which", 0, 4)
			o.S = Pick[S](t, "value", "5", "v", "text/x-odd", "0", "100")
		case "rewrite", "control":
			o.N = Int(t, "what", 0, 2)
		case "panic":
			o.N = Int(t, "value", 0, 7)
		case "route":
			o.S = Pick[S](t, "route", "/r", "/other", "r\u00fc", S(strings.Repeat("r", 256)), "")
		}
		return o
	})...)
}

var respHeaders = []string{"X-A", "X-B", "Content-Type", "Content-Length", "Trailer"}

// what both sides of an exchange see
type seen struct {
	handler []string // results inside the handler
	req     string
	client  []string
	status  int // 0: no response
	body    int // bytes received, -1 unknown
	wrote   int64
	readErr bool
	panicked,
	hijacked bool
	reqHost, reqPath string
	reqCL            int64
	noBody           bool
	start, end       time.Time
	span             trace.SpanContext
	sizes            []int64 // of every write
	timing           bool
}

func pattern(n, salt int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+salt)%26)
	}
	return b
}

func dumpHeader(h http.Header) string {
	var ks []string
	for k := range h {
		if k != "Date" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q;", k, h[k])
	}
	return b.String()
}

func ifaces(w http.ResponseWriter) string {
	_, a := w.(http.Hijacker)
	_, b := w.(http.CloseNotifier)
	_, c := w.(http.Pusher)
	_, d := w.(http.Flusher)
	_, e := w.(io.ReaderFrom)
	return fmt.Sprint(a, b, c, d, e)
}

func (s *seen) script(ops []SOp) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.reqHost, s.reqPath, s.reqCL = r.Host, r.URL.Path, r.ContentLength
		s.noBody = r.Body == nil || r.Body == http.NoBody
		s.req = fmt.Sprint(r.Method, " ", r.URL, " ", r.RequestURI, " ", r.Host, " ", r.Proto, " ", r.ContentLength, " ", r.TransferEncoding, " ", dumpHeader(r.Header), " ", dumpHeader(r.Trailer), r.Context().Value(http.ServerContextKey) != nil)
		if sp := trace.FromContext(r.Context()); sp != nil {
			s.span = sp.SpanContext()
		}
		say := func(format string, a ...interface{}) { s.handler = append(s.handler, fmt.Sprintf(format, a...)) }
		say("%s", ifaces(w))
		for _, o := range ops {
			// HTTP/2 resets a stream that does not keep to its length: when the handler notices is a matter of timing
			s.timing = s.timing || r.ProtoMajor == 2 && o.Op == "header" && respHeaders[o.N%len(respHeaders)] == "Content-Length"
		}
		for i, o := range ops {
			switch o.Op {
			case "header":
				w.Header().Add(respHeaders[o.N%len(respHeaders)], string(o.S))
				if o.N%len(respHeaders) == 3 && o.S == "v" {
					w.Header().Del("Content-Length")
				}
			case "trailer":
				w.Header().Add(http.TrailerPrefix+"X-T", string(o.S))
			case "wh":
				w.WriteHeader(o.N)
			case "write":
				n, err := w.Write(pattern(o.N, i))
				s.wrote += int64(n)
				s.sizes = append(s.sizes, int64(n))
				if s.timing {
					n, err = 0, nil
				}
				say("write %d %v", n, err)
			case "copy":
				src := io.Reader(bytes.NewReader(pattern(o.N, i)))
				n, err := io.Copy(w, struct{ io.Reader }{src})
				s.wrote += n
				s.sizes = append(s.sizes, n)
				if s.timing {
					n, err = 0, nil
				}
				say("copy %d %v", n, err)
			case "flush":
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
				}
			case "control": // which reaches the server's own writer
				c := http.NewResponseController(w)
				switch o.N % 3 {
				case 0:
					say("control %v", c.SetReadDeadline(time.Now().Add(time.Hour)))
				case 1:
					say("control %v", c.SetWriteDeadline(time.Now().Add(time.Hour)))
				case 2:
					say("control %v", c.SetWriteDeadline(time.Time{}))
				}
			case "body":
				n, err := io.ReadFull(r.Body, make([]byte, o.N))
				say("body %d %v", n, err)
			case "bodyall":
				b, err := io.ReadAll(r.Body)
				say("bodyall %d %x %v %s", len(b), sum(b), err, dumpHeader(r.Trailer))
			case "rewrite": // as routers and proxies do
				switch o.N % 3 {
				case 0:
					r.URL.Path, r.URL.RawPath, r.URL.Host = "/rewritten", "", "rewritten"
				case 1:
					r.Host = "rewritten"
				case 2:
					r.Header.Set("User-Agent", "rewritten")
				}
			case "route":
				ochttp.SetRoute(r.Context(), string(o.S))
			case "hijack":
				h, ok := w.(http.Hijacker)
				if !ok {
					say("no hijack")
					continue
				}
				io.Copy(io.Discard, r.Body) // so that closing does not reset the connection
				c, rw, err := h.Hijack()
				if err != nil {
					say("hijack %v", err)
					continue
				}
				s.hijacked = true
				fmt.Fprintf(rw, "HTTP/1.1 418 T\r\nContent-Length: 2\r\nConnection: close\r\n\r\nhi")
				say("flush %v", rw.Flush())
				c.Close()
				return
			case "panic":
				s.panicked = true
				panic([]interface{}{http.ErrAbortHandler, http.ErrHandlerTimeout, http.ErrBodyNotAllowed, "text", io.EOF, context.Canceled, 7, &url.Error{Op: "op"}}[o.N%8])
			}
		}
	})
}

func sum(b []byte) (x uint32) {
	for _, c := range b {
		x = x*31 + uint32(c)
	}
	return
}

// ---- one server for the whole process ----

var (
	srvOnce  sync.Once
	handlers sync.Map // id -> http.Handler
	nextID   atomic.Int64
	h1, h2   *http.Transport
)

func servers() {
	srvOnce.Do(func() {
		dir, err := os.MkdirTemp("", "verifweb")
		if err != nil {
			panic(err)
		}
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			id, _ := strconv.ParseInt(r.Header.Get("X-Verif-Case"), 10, 64)
			r.Header.Del("X-Verif-Case")
			x, ok := handlers.Load(id)
			if !ok {
				http.Error(w, "no such case", 500)
				return
			}
			x.(http.Handler).ServeHTTP(w, r)
		})
		mk := func(name string, secure bool) *http.Transport {
			sock := filepath.Join(dir, name)
			l, err := net.Listen("unix", sock)
			if err != nil {
				panic(err)
			}
			s := &httptest.Server{Listener: l, EnableHTTP2: secure, Config: &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}}
			tr := &http.Transport{
				DialContext:        func(ctx context.Context, _, _ string) (net.Conn, error) { return net.Dial("unix", sock) },
				DisableCompression: true,
				MaxIdleConns:       64, MaxIdleConnsPerHost: 64,
			}
			if secure {
				s.StartTLS()
				tr.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
				tr.ForceAttemptHTTP2 = true
			} else {
				s.Start()
			}
			os.Remove(sock + ".unused")
			return tr
		}
		h1, h2 = mk("h1", false), mk("h2", true)
		os.Remove(dir) // fails while the sockets exist; see TestMain
		cleanup = func() { os.RemoveAll(dir) }
	})
}

var cleanup = func() {}

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard) // net/http's client logs odd answers
	code := m.Run()
	cleanup()
	os.Exit(code)
}

// newRequest builds the client's request.
func newRequest(r SReq) *http.Request {
	scheme := "http"
	if r.H2 {
		scheme = "https"
	}
	var body io.Reader
	if r.Body >= 0 {
		body = bytes.NewReader(pattern(r.Body, 3))
		if r.Chunked {
			body = struct{ io.Reader }{body}
		}
	}
	req, err := http.NewRequest(r.Method, scheme+"://server"+r.Target, body)
	if err != nil {
		panic(err)
	}
	req.Host = r.Host
	if r.Trailer {
		req.Trailer = http.Header{"X-Req-Trailer": {"v", "w"}}
	}
	for _, h := range r.Headers {
		req.Header.Add(h[0], h[1])
	}
	req.Header.Set("User-Agent", r.UA)
	return req
}

// exchange runs one request against h and returns when the handler has returned.
func exchange(r SReq, s *seen, h http.Handler, rt func(http.RoundTripper) http.RoundTripper) error {
	servers()
	id := nextID.Add(1)
	done := make(chan struct{})
	var runs atomic.Int32
	handlers.Store(id, http.HandlerFunc(func(w http.ResponseWriter, hr *http.Request) {
		if runs.Add(1) > 1 { // net/http's client tries again on another connection
			panic(http.ErrAbortHandler)
		}
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				s.handler = append(s.handler, fmt.Sprintf("panic %T %v", p, p))
				panic(http.ErrAbortHandler)
			}
		}()
		h.ServeHTTP(w, hr)
	}))
	defer handlers.Delete(id)
	req := newRequest(r)
	req.Header.Set("X-Verif-Case", fmt.Sprint(id))
	ctx := httptrace.WithClientTrace(context.Background(), &httptrace.ClientTrace{Got1xxResponse: func(code int, _ textproto.MIMEHeader) error {
		s.client = append(s.client, fmt.Sprint("informational ", code))
		return nil
	}})
	req = req.WithContext(ctx)
	// a connection of its own, so that one exchange that ends badly (panic,
	// hijack) cannot disturb the next
	tr := h1.Clone()
	if r.H2 {
		tr = h2.Clone()
	}
	defer tr.CloseIdleConnections()
	var base http.RoundTripper = tr
	if rt != nil {
		base = rt(base)
	}
	s.start = time.Now()
	resp, err := base.RoundTrip(req)
	if err != nil {
		s.client = append(s.client, "no response")
		s.body = -1
	} else {
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		s.status, s.body, s.readErr = resp.StatusCode, len(b), err != nil
		if s.panicked { // how much arrives before the connection is cut is a matter of timing
			s.client = append(s.client, "aborted")
		} else if err != nil && resp.ProtoMajor == 2 {
			s.client = append(s.client, fmt.Sprint(resp.Status, resp.ContentLength, dumpHeader(resp.Header), " cut"))
		} else {
			s.client = append(s.client, fmt.Sprint(resp.Status, resp.Proto, " ", resp.ContentLength, resp.TransferEncoding, dumpHeader(resp.Header), dumpHeader(resp.Trailer), len(b), " ", sum(b), err != nil, resp.Close))
		}
	}
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return Errf("the handler did not finish")
	}
	s.end = time.Now()
	return nil
}

func (c *SCase) ochandler(inner http.Handler) *ochttp.Handler {
	if c.Mux {
		inner = ochttp.WithRouteTag(inner, "/mux")
	}
	h := &ochttp.Handler{Handler: inner, IsPublicEndpoint: c.Public, StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	if c.Default {
		h.Handler = nil
	}
	if c.Fmt == 1 {
		h.Propagation = &tracecontext.HTTPFormat{}
	}
	if c.HealthF {
		h.IsHealthEndpoint = func(r *http.Request) bool { return strings.HasSuffix(r.URL.Path, "health") }
	}
	if c.NameF {
		h.FormatSpanName = func(r *http.Request) string { return "name:" + r.Method }
	}
	return h
}

// ---- H01 ----

func genH01(t *rapid.T) SCase {
	c := SCase{Req: genReq(t), Public: Bool(t, "public"), Fmt: Int(t, "fmt", 0, 1), HealthF: Bool(t, "healthf"), NameF: Bool(t, "namef"), Mux: Bool(t, "mux"), Default: OneIn(t, "default", 6)}
	c.Ops = genOps(t, "trailer", "hijack", "panic")
	return c
}

func execH01(cx *Ctx, c SCase) error {
	var plain seen
	differ := func(show func(*seen) string, p, w map[string]*seen) bool {
		for _, x := range w {
			for _, y := range p {
				if show(x) == show(y) {
					return false
				}
			}
		}
		return true
	}
	parts := []struct {
		what string
		show func(*seen) string
	}{
		{"the handler sees the request", func(s *seen) string { return s.req }},
		{"the handler sees the results", func(s *seen) string { return fmt.Sprintf("%q", s.handler) }},
		{"the client sees", func(s *seen) string {
			if s.panicked {
				return "aborted"
			}
			return fmt.Sprintf("%q", s.client)
		}},
	}
	p, w := map[string]*seen{}, map[string]*seen{}
	all := func(s *seen) (o string) {
		for _, x := range parts {
			o += x.show(s) + "\n"
		}
		return o
	}
	// What net/http itself does can depend on timing (a connection cut while
	// something is in flight), so a difference must persist to count.
	oldMux := http.DefaultServeMux
	defer func() { http.DefaultServeMux = oldMux }()
	muxed := func(h http.Handler) http.Handler {
		if !c.Default {
			return h
		}
		http.DefaultServeMux = http.NewServeMux()
		http.DefaultServeMux.Handle("/a/", h)
		http.DefaultServeMux.Handle("/health", h)
		return http.DefaultServeMux
	}
	for round := 0; ; round++ {
		var a, b seen
		if err := exchange(c.Req, &a, muxed(a.script(c.Ops)), nil); err != nil {
			return Errf("without ochttp: %v", err)
		}
		if err := exchange(c.Req, &b, c.ochandler(muxed(b.script(c.Ops))), nil); err != nil {
			return Errf("with ochttp: %v", err)
		}
		p[all(&a)], w[all(&b)] = &a, &b
		plain = a
		if !differ(all, p, w) {
			cx.ClassIf(round > 0, "timing")
			break
		}
		if round < 12 {
			continue
		}
		for _, x := range parts {
			if differ(x.show, p, w) {
				return Errf("%s\n%s\nwithout ochttp:\n%s", x.what, x.show(&b), x.show(&a))
			}
		}
		return Errf("the exchange goes\n%s\nwithout ochttp:\n%s", all(&b), all(&a))
	}
	cx.ClassIf(c.Req.H2, "h2")
	cx.ClassIf(c.Default, "default-mux")
	cx.ClassIf(plain.panicked, "panic")
	cx.ClassIf(plain.hijacked, "hijacked")
	cx.ClassIf(plain.wrote > 0, "body")
	cx.Class("status-%dxx", plain.status/100)
	cx.NonTrivial(len(c.Ops) > 1)
	return nil
}

func TestH01(t *testing.T) {
	Check(t, "H01", "server", Opts{Quick: 4000, Thorough: 40000,
		Rule: "exchanges over HTTP/1.1 and HTTP/2 with a handler scripted to set headers, trailers and statuses (repeated and informational ones included), write, copy, flush, read the body, hijack or panic, run with and without ochttp.Handler; non-trivial when the script has two steps or more"},
		genH01, execH01)
}

// ---- H02, H06: stats and spans of the server ----

var userKey = tag.MustNewKey("verif.user")

var httpKeys = []tag.Key{ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode, ochttp.KeyServerRoute, ochttp.KeyClientMethod, ochttp.KeyClientPath, ochttp.KeyClientStatus, ochttp.KeyClientHost, userKey}

var serverViews = []*view.View{
	obs.Probe("verif/", ochttp.ServerRequestCount, httpKeys...), obs.Probe("verif/", ochttp.ServerRequestBytes, httpKeys...),
	obs.Probe("verif/", ochttp.ServerResponseBytes, httpKeys...), obs.Probe("verif/", ochttp.ServerLatency, httpKeys...),
	ochttp.ServerRequestCountView, ochttp.ServerRequestBytesView, ochttp.ServerResponseBytesView, ochttp.ServerLatencyView,
	ochttp.ServerRequestCountByMethod, ochttp.ServerResponseCountByStatusCode,
}

var spans = &obs.Spans{}

func init() {
	trace.RegisterExporter(spans)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()}) // the built-in one samples now and then
}

func setTag(m map[string]string, k tag.Key, v string) {
	if obs.Valid(v) {
		m[k.Name()] = v
	}
}

func cp(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// outerKeys may be in the incoming context already.
var outerKeys = []tag.Key{ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode, ochttp.KeyServerRoute, ochttp.KeyClientPath}

// outerHTTP reports whether they are: only if the request's own values are
// valid, what else should become of them is not laid down.
func (c *SCase) outerHTTP(s *seen) bool {
	return c.OuterH && len(c.Req.Target) < 256 && len(c.Req.Host) < 256 && !strings.Contains(c.Req.Target, "%C3") && !c.oddRoute()
}

func (c *SCase) oddRoute() bool {
	for _, o := range c.Ops {
		if o.Op == "route" && !obs.Valid(string(o.S)) {
			return true
		}
	}
	return false
}

// serverMeas is what one exchange must have recorded.
func (c *SCase) serverMeas(s *seen) (exp []obs.Meas) {
	base := map[string]string{}
	if c.outerHTTP(s) {
		for _, k := range outerKeys {
			base[k.Name()] = "outer"
		}
	}
	setTag(base, ochttp.Host, s.reqHost)
	setTag(base, ochttp.Path, s.reqPath)
	setTag(base, ochttp.Method, c.Req.Method)
	if c.Outer {
		base[userKey.Name()] = "u"
	}
	exp = append(exp, obs.Meas{Name: ochttp.ServerRequestCount.Name(), V: 1, Tags: base})
	end := cp(base)
	setTag(end, ochttp.StatusCode, fmt.Sprint(s.status))
	for _, o := range c.Ops {
		if o.Op == "route" && o.S != "" {
			setTag(end, ochttp.KeyServerRoute, string(o.S))
		}
		if o.Op == "route" && o.S == "" {
			delete(end, ochttp.KeyServerRoute.Name())
		}
	}
	if c.Mux {
		end[ochttp.KeyServerRoute.Name()] = "/mux"
	}
	exp = append(exp, obs.Meas{Name: ochttp.ServerLatency.Name(), Any: true, Max: float64(s.end.Sub(s.start)) / 1e6, Tags: end},
		obs.Meas{Name: ochttp.ServerResponseBytes.Name(), V: float64(s.wrote), Tags: end})
	if !s.noBody {
		if s.reqCL > 0 {
			exp = append(exp, obs.Meas{Name: ochttp.ServerRequestBytes.Name(), V: float64(s.reqCL), Tags: end})
		} else { // unknown length: 0 is recorded at most
			exp = append(exp, obs.Meas{Name: ochttp.ServerRequestBytes.Name(), V: 0, Tags: end})
		}
	}
	return exp
}

func genH02(extra ...string) func(t *rapid.T) SCase {
	return func(t *rapid.T) SCase {
		c := SCase{Req: genReq(t), Public: Bool(t, "public"), Fmt: Int(t, "fmt", 0, 1), HealthF: Bool(t, "healthf"), NameF: Bool(t, "namef"), Outer: Bool(t, "outer"), OuterH: OneIn(t, "outerh", 3)}
		if Bool(t, "routed") {
			c.Mux = true
			c.Ops = genOps(t, extra...)
		} else {
			c.Ops = genOps(t, append(extra, "route", "route")...)
		}
		if c.Req.Body >= 0 && c.Req.Chunked && c.Req.H2 {
			c.Req.Chunked, c.Req.Trailer = false, false
		}
		return c
	}
}

func (c *SCase) run(s *seen) error {
	h := http.Handler(c.ochandler(s.script(c.Ops)))
	if c.outerHTTP(s) {
		inner := h
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			ctx := r.Context()
			for _, k := range outerKeys {
				ctx, _ = tag.New(ctx, tag.Insert(k, "outer"))
			}
			inner.ServeHTTP(w, r.WithContext(ctx))
		})
	}
	if c.Outer {
		inner := h
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			ctx, _ := tag.New(r.Context(), tag.Insert(userKey, "u"))
			inner.ServeHTTP(w, r.WithContext(ctx))
		})
	}
	return exchange(c.Req, s, h, nil)
}

func execH02(cx *Ctx, c SCase) error {
	if err := obs.CheckDocs(serverDocs); err != nil {
		return err
	}
	if err := obs.Reset(serverViews); err != nil {
		return err
	}
	var s seen
	if err := c.run(&s); err != nil {
		return err
	}
	if s.panicked {
		// the status is not judged: only that everything is recorded once
		n := 0
		rows, err := view.RetrieveData(ochttp.ServerLatencyView.Name)
		if err != nil {
			return err
		}
		for _, r := range rows {
			n += int(r.Data.(*view.DistributionData).Count)
		}
		if n != 1 {
			return Errf("%d latencies recorded for a request whose handler panicked", n)
		}
		cx.Class("panic")
		return nil
	}
	if s.status == 0 || s.readErr && s.status/100 == 1 {
		cx.Class("no response")
		return nil
	}
	if !s.readErr && c.Req.Method != "HEAD" && s.body >= 0 && s.wrote != int64(s.body) {
		return Errf("the client received %d bytes, the handler wrote %d", s.body, s.wrote)
	}
	if err := obs.CheckAll(serverViews, c.serverMeas(&s)); err != nil {
		return err
	}
	cx.ClassIf(c.Req.H2, "h2")
	cx.ClassIf(c.outerHTTP(&s), "tagged-before")
	cx.ClassIf(s.wrote > 0, "body")
	cx.ClassIf(s.reqCL > 0, "request-body")
	cx.Class("status-%dxx", s.status/100)
	cx.NonTrivial(len(c.Ops) > 1)
	return nil
}

func TestH02(t *testing.T) {
	Check(t, "H02", "stats", Opts{Quick: 6000, Thorough: 40000,
		Rule: "exchanges as for H01 (no hijacking), with routes (invalid ones included), incoming tags and hosts or paths that cannot be tag values; the expected measurements are computed from what client and handler saw and compared on four probe views and the six predefined server views; non-trivial when the script has two steps or more"},
		genH02("panic", "rewrite"), execH02)
}

// wantStatus is the span status for an HTTP status code.
func wantStatus(code int) (int32, string) {
	type st struct {
		c int32
		s string
	}
	m := map[int]st{400: {3, "INVALID_ARGUMENT"}, 401: {16, "UNAUTHENTICATED"}, 403: {7, "PERMISSION_DENIED"}, 404: {5, "NOT_FOUND"}, 409: {6, "ALREADY_EXISTS"},
		422: {3, "INVALID_ARGUMENT"}, 429: {8, "RESOURCE_EXHAUSTED"}, 499: {1, "CANCELLED"}, 501: {12, "UNIMPLEMENTED"}, 503: {14, "UNAVAILABLE"}, 504: {4, "DEADLINE_EXCEEDED"}}
	if x, ok := m[code]; ok {
		return x.c, x.s
	}
	if code >= 200 && code < 400 {
		return 0, "OK"
	}
	return 2, "UNKNOWN"
}

func execH06(cx *Ctx, c SCase) error {
	spans.Take()
	var s seen
	if err := c.run(&s); err != nil {
		return err
	}
	if s.status == 0 && !s.panicked || s.status/100 == 1 {
		cx.Class("no response")
		return nil
	}
	got := spans.Take()
	health := s.reqPath == "/healthz" || s.reqPath == "/_ah/health" || c.HealthF && strings.HasSuffix(s.reqPath, "health")
	if health {
		if len(got) != 0 || (s.span != trace.SpanContext{}) {
			return Errf("a health check made %d spans, context %v", len(got), s.span)
		}
		cx.Class("health")
		return nil
	}
	if len(got) != 1 {
		return Errf("%d spans for one request", len(got))
	}
	d := got[0]
	name := s.reqPath
	if c.NameF {
		name = "name:" + c.Req.Method
	}
	if d.Name != name || d.SpanKind != trace.SpanKindServer || d.SpanContext.SpanID != s.span.SpanID || d.SpanContext.TraceID != s.span.TraceID {
		return Errf("span %q kind %d %v, want %q of kind server, the one in the handler's context %v", d.Name, d.SpanKind, d.SpanContext, name, s.span)
	}
	attrs := map[string]interface{}{"http.path": s.reqPath, "http.host": s.reqHost, "http.method": c.Req.Method}
	if c.Req.UA != "" {
		attrs["http.user_agent"] = c.Req.UA
	}
	if !s.panicked {
		attrs["http.status_code"] = int64(s.status)
		code, msg := wantStatus(s.status)
		if d.Status.Code != code || d.Status.Message != msg {
			return Errf("span status %v for response %d, want %d %s", d.Status, s.status, code, msg)
		}
	}
	url, _ := d.Attributes["http.url"].(string)
	if u := c.Req.Target; url != u {
		return Errf("http.url attribute %q, want %q", url, u)
	}
	for k, v := range attrs {
		if d.Attributes[k] != v {
			return Errf("attribute %s is %v, want %v", k, d.Attributes[k], v)
		}
	}
	if want := len(attrs) + 1; len(d.Attributes) != want && !s.panicked {
		return Errf("span attributes %v, want %d", d.Attributes, want)
	}
	// message events, as many as a span keeps
	var recv, sent []int64
	for _, m := range d.MessageEvents {
		if m.EventType == trace.MessageEventTypeRecv {
			recv = append(recv, m.UncompressedByteSize)
		} else {
			sent = append(sent, m.UncompressedByteSize)
		}
	}
	var wantRecv []int64
	if !s.noBody && s.reqCL > 0 {
		wantRecv = []int64{s.reqCL}
	}
	if fmt.Sprint(recv) != fmt.Sprint(wantRecv) {
		return Errf("message receive events of sizes %v, want %v", recv, wantRecv)
	}
	total := int64(0)
	for _, n := range sent {
		total += n
	}
	if total != s.wrote {
		return Errf("message send events of sizes %v, the handler wrote %v", sent, s.sizes)
	}
	if d.EndTime.Before(d.StartTime) || d.StartTime.Before(s.start) || d.EndTime.After(s.end) {
		return Errf("span lasts from %v to %v, the exchange from %v to %v", d.StartTime, d.EndTime, s.start, s.end)
	}
	cx.ClassIf(len(sent) > 0, "sent")
	cx.ClassIf(len(recv) > 0, "received")
	cx.ClassIf(s.panicked, "panic")
	cx.Class("status-%dxx", s.status/100)
	cx.NonTrivial(len(c.Ops) > 1)
	return nil
}

// H06SCase is a status.
type H06SCase struct{ Code int }

func TestH06(t *testing.T) {
	Check(t, "H06", "server", Opts{Quick: 4000, Thorough: 30000,
		Rule: "exchanges as for H02, the exported span compared with what client and handler saw; non-trivial when the script has two steps or more"},
		genH02("panic", "rewrite"), execH06)
	Check(t, "H06", "status", Opts{Quick: 3000, Thorough: 30000,
		Rule: "integers from -2000 to 3000, those from 90 to 610 most often, compared with an independent table; all are non-trivial"},
		func(t *rapid.T) H06SCase {
			if Bool(t, "wide") {
				return H06SCase{Int(t, "code", -2000, 3000)}
			}
			return H06SCase{Int(t, "code", 90, 610)}
		},
		func(cx *Ctx, c H06SCase) error {
			s := ochttp.TraceStatus(c.Code, http.StatusText(c.Code))
			code, msg := wantStatus(c.Code)
			if s.Code != code || s.Message != msg {
				return Errf("TraceStatus(%d) = %v, want %d %s", c.Code, s, code, msg)
			}
			if c.Code >= 100 && c.Code < 600 {
				cx.Class("%dxx", c.Code/100)
			} else {
				cx.Class("outside")
			}
			cx.NonTrivial(true)
			return nil
		})
	Check(t, "H06", "client", Opts{Quick: 2500, Thorough: 30000,
		Rule: "client exchanges as for H03, the exported span compared with what was sent and received; non-trivial when a response arrives"},
		genH03, func(cx *Ctx, c H03Case) error { return runH03(cx, c, "spans") })
	Check(t, "H06", "annotations", Opts{Quick: 3000, Thorough: 40000,
		Rule: "sequences of up to 24 httptrace callbacks, failing ones included, spread over two requests; non-trivial with two events or more"},
		genAnnot, execAnnot)
}

// ---- H05: optional interfaces ----

type fakeWriter struct {
	h   http.Header
	log []string
	err error
	n   int
}

func (w *fakeWriter) say(format string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, a...))
}

func brief(b []byte) string {
	if len(b) > 100 {
		return fmt.Sprint(len(b), " bytes ", sum(b))
	}
	return strconv.Quote(string(b))
}

type plainWriter struct{ w *fakeWriter }

func (p plainWriter) Header() http.Header { return p.w.h }
func (p plainWriter) Write(b []byte) (int, error) {
	p.w.say("write %s", brief(b))
	n := len(b)
	if p.w.err != nil && n > p.w.n {
		n = p.w.n
	}
	return n, p.w.err
}
func (p plainWriter) WriteHeader(c int) { p.w.say("header %d", c) }

// ctlWriter is a writer that http.ResponseController can control.
type ctlWriter interface {
	http.ResponseWriter
	SetReadDeadline(time.Time) error
	SetWriteDeadline(time.Time) error
	EnableFullDuplex() error
}

func (p plainWriter) SetReadDeadline(t time.Time) error {
	p.w.say("read until %d", t.Unix())
	return p.w.err
}

func (p plainWriter) SetWriteDeadline(t time.Time) error {
	p.w.say("write until %d", t.Unix())
	return p.w.err
}

func (p plainWriter) EnableFullDuplex() error {
	p.w.say("full duplex")
	return p.w.err
}

type fakeHijack struct{ w *fakeWriter }

func (f fakeHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	f.w.say("hijack")
	return nil, nil, f.w.err
}

type fakeNotify struct{ w *fakeWriter }

var notifyC = make(chan bool)

func (f fakeNotify) CloseNotify() <-chan bool { f.w.say("notify"); return notifyC }

type fakePush struct{ w *fakeWriter }

func (f fakePush) Push(target string, o *http.PushOptions) error {
	f.w.say("push %s %v", target, o)
	return f.w.err
}

type fakeFlush struct{ w *fakeWriter }

func (f fakeFlush) Flush() { f.w.say("flush") }

type fakeReadFrom struct{ w *fakeWriter }

func (f fakeReadFrom) ReadFrom(r io.Reader) (int64, error) {
	b, _ := io.ReadAll(r)
	f.w.say("readfrom %s", brief(b))
	n := len(b)
	if f.w.err != nil && n > f.w.n {
		n = f.w.n
	}
	return int64(n), f.w.err
}

// H05Case is a combination of interfaces and calls on the writer.
type H05Case struct {
	Mask   int
	Err    bool
	Short  int
	Ops    []SOp
	Writer bool // the response body is a writer
	Body   []SOp
}

func genH05(t *rapid.T) H05Case {
	return H05Case{Mask: Int(t, "mask", 0, 31), Err: OneIn(t, "err", 3), Short: Int(t, "short", 0, 5), Writer: Bool(t, "writer"),
		Ops: Slice(t, "ops", 0, 8, func(t *rapid.T) SOp {
			o := SOp{Op: Pick(t, "op", "wh", "write", "flush", "hijack", "push", "notify", "readfrom", "header", "copy", "control"), N: Int(t, "n", 0, 20), S: Pick[S](t, "s", "", "a", "abc", "0123456789")}
			if (o.Op == "write" || o.Op == "copy" || o.Op == "readfrom") && OneIn(t, "big", 6) {
				o.Big = Pick(t, "size", 511, 4096, 32767, 32768, 32769, 65536, 70000, 200000)
			}
			return o
		})}
}

func execH05(cx *Ctx, c H05Case) error {
	mk := func() *fakeWriter {
		w := &fakeWriter{h: http.Header{}, n: c.Short}
		if c.Err {
			w.err = fmt.Errorf("broken")
		}
		return w
	}
	drive := func(w http.ResponseWriter) (out []string) {
		say := func(format string, a ...interface{}) { out = append(out, fmt.Sprintf(format, a...)) }
		say("%s", ifaces(w))
		for _, o := range c.Ops {
			switch o.Op {
			case "wh":
				w.WriteHeader(statuses[o.N%len(statuses)])
			case "write":
				n, err := w.Write([]byte(o.data()))
				say("%d %v", n, err)
			case "copy":
				n, err := io.Copy(w, strings.NewReader(o.data()))
				say("%d %v", n, err)
			case "control":
				x := http.NewResponseController(w)
				switch o.N % 3 {
				case 0:
					say("%v", x.SetReadDeadline(time.Unix(int64(o.N), 0)))
				case 1:
					say("%v", x.SetWriteDeadline(time.Unix(int64(o.N), 0)))
				case 2:
					say("%v", x.EnableFullDuplex())
				}
			case "header":
				w.Header().Add("X", string(o.S))
			case "flush":
				if x, ok := w.(http.Flusher); ok {
					x.Flush()
				}
			case "hijack":
				if x, ok := w.(http.Hijacker); ok {
					a, b, err := x.Hijack()
					say("%v %v %v", a, b, err)
				}
			case "push":
				if x, ok := w.(http.Pusher); ok {
					say("%v", x.Push(string(o.S), &http.PushOptions{Method: "M"}))
				}
			case "notify":
				if x, ok := w.(http.CloseNotifier); ok {
					say("%v", x.CloseNotify() == notifyC)
				}
			case "readfrom":
				if x, ok := w.(io.ReaderFrom); ok {
					n, err := x.ReadFrom(strings.NewReader(o.data()))
					say("%d %v", n, err)
				}
			}
		}
		return out
	}
	pw, ww := mk(), mk()
	plain := drive(combine(c.Mask, pw))
	var wrapped []string
	h := &ochttp.Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { wrapped = drive(w) })}
	h.ServeHTTP(combine(c.Mask, ww), httptest.NewRequest("GET", "/x", nil))
	if fmt.Sprintf("%q", plain) != fmt.Sprintf("%q", wrapped) {
		return Errf("a handler that may use %05b sees\n%q\nwithout ochttp:\n%q", c.Mask, wrapped, plain)
	}
	if fmt.Sprintf("%q", pw.log) != fmt.Sprintf("%q", ww.log) || dumpHeader(pw.h) != dumpHeader(ww.h) {
		return Errf("the writer (%05b) is called\n%q %s\nwithout ochttp:\n%q %s", c.Mask, ww.log, dumpHeader(ww.h), pw.log, dumpHeader(pw.h))
	}
	cx.Class("mask-%05b", c.Mask)
	cx.NonTrivial(len(c.Ops) > 0)
	return nil
}

func TestH05(t *testing.T) {
	Check(t, "H05", "interfaces", Opts{Quick: 4000, Thorough: 50000,
		Rule: "all 32 combinations of optional interfaces of the server's writer, up to 8 calls through those that are there, some failing or short, with and without ochttp.Handler; non-trivial with at least one call"},
		genH05, execH05)
}
