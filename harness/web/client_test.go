package web

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	tprop "go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

var clientViews = []*view.View{
	obs.Probe("verif/", ochttp.ClientRequestCount, httpKeys...), obs.Probe("verif/", ochttp.ClientRequestBytes, httpKeys...),
	obs.Probe("verif/", ochttp.ClientResponseBytes, httpKeys...), obs.Probe("verif/", ochttp.ClientLatency, httpKeys...),
	obs.Probe("verif/", ochttp.ClientSentBytes, httpKeys...), obs.Probe("verif/", ochttp.ClientReceivedBytes, httpKeys...),
	obs.Probe("verif/", ochttp.ClientRoundtripLatency, httpKeys...),
	ochttp.ClientSentBytesDistribution, ochttp.ClientReceivedBytesDistribution, ochttp.ClientRoundtripLatencyDistribution, ochttp.ClientCompletedCount,
	ochttp.ClientRequestBytesView, ochttp.ClientResponseBytesView, ochttp.ClientLatencyView,
	ochttp.ClientRequestCountView, ochttp.ClientRequestCountByMethod, ochttp.ClientResponseCountByStatusCode,
}

// H03Case is one request through ochttp.Transport over a scripted base.
type H03Case struct {
	Method   string
	Target   string
	Host     string
	Body     int // -1 nil, -2 NoBody, -3 unknown length, else a size
	Headers  [][2]string
	Parent   bool // a span in the context
	Tags     bool
	TagsHTTP bool // the context has HTTP tags of its own
	Fmt      int  // 0 default 1 b3 2 tracecontext 3 stackdriver
	Sampler  int  // 0 none 1 StartOptions 2 GetStartOptions
	NameF    bool
	CTrace   bool
	Default  bool // base is http.DefaultTransport
	Fail     bool
	Status   int
	CL       int // -1, or the size of the body
	Chunks   []int
	ReadErr  bool
	ErrK     int  // which error a read or the transport gives
	EOFLast  bool // the last bytes come with the error
	CloseErr bool
	Writer   bool
	NilBody  bool  // base gives no body, as http.Client lets it
	NilHdr   bool  // the request has no header map
	Use      []SOp // read close write
}

func genH03(t *rapid.T) H03Case {
	c := H03Case{Method: Pick(t, "method", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", ""), Target: rapid.SampledFrom(targets).Draw(t, "target"), Host: Pick(t, "host", "", "example.com", strings.Repeat("h", 300), "b\u00fccher"),
		Body: Pick(t, "body", -1, -1, -2, -3, 0, 1, 100, 5000), Parent: Bool(t, "parent"), Tags: Bool(t, "tags"), Fmt: Int(t, "fmt", 0, 3), Sampler: Int(t, "sampler", 0, 2),
		NameF: Bool(t, "namef"), CTrace: Bool(t, "ctrace"), Fail: OneIn(t, "fail", 5), Status: rapid.SampledFrom(append([]int{101, 101}, statuses...)).Draw(t, "status"), ReadErr: OneIn(t, "readerr", 4), ErrK: Int(t, "errk", 0, len(someErrors)-1), EOFLast: Bool(t, "eoflast"), CloseErr: OneIn(t, "closeerr", 5), Writer: OneIn(t, "writer", 4), Default: OneIn(t, "default", 8)}
	c.TagsHTTP = OneIn(t, "tagshttp", 3) && len(c.Target) < 256 && obs.Valid(c.Host) && !strings.Contains(c.Target, "%C3")
	c.NilBody, c.NilHdr = OneIn(t, "nilbody", 12), OneIn(t, "nilhdr", 12)
	if Bool(t, "hdr") {
		c.Headers = append(c.Headers, [2]string{"X-Custom", "v"}, [2]string{"X-Custom", "w"}, [2]string{"User-Agent", "ua"})
	}
	if OneIn(t, "stale", 4) { // propagation headers of an earlier hop
		c.Headers = append(c.Headers, [2]string{"X-B3-Traceid", "463ac35c9f6413ad48485a3953bb6124"}, [2]string{"Traceparent", "00-x"})
	}
	c.Chunks = Slice(t, "chunks", 0, 5, func(t *rapid.T) int { return Pick(t, "chunk", 0, 1, 3, 10, 700) })
	if !Bool(t, "cl") {
		c.CL = -1
	}
	c.Use = Slice(t, "use", 0, 8, func(t *rapid.T) SOp {
		return SOp{Op: Pick(t, "op", "read", "read", "read", "readall", "close", "write"), N: Pick(t, "n", 0, 1, 2, 5, 64, 1000)}
	})
	return c
}

// fakeBody is a scripted response body.
type fakeBody struct {
	chunks  [][]byte
	err     error
	eofLast bool
	cerr    error
	closes  int
	log     []string
}

func (b *fakeBody) Read(p []byte) (int, error) {
	if len(b.chunks) == 0 {
		return 0, b.err
	}
	n := copy(p, b.chunks[0])
	b.chunks[0] = b.chunks[0][n:]
	if len(b.chunks[0]) == 0 {
		b.chunks = b.chunks[1:]
	}
	if len(b.chunks) == 0 && b.eofLast {
		return n, b.err
	}
	return n, nil
}

func (b *fakeBody) Close() error { b.closes++; return b.cerr }

type fakeRWBody struct{ *fakeBody }

func (b fakeRWBody) Write(p []byte) (int, error) {
	b.log = append(b.log, string(p))
	return len(p), nil
}

var errClose = errors.New("close broken")

// the errors of bodies and transports, of kinds that code may know
var someErrors = []error{errors.New("broken"), io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), context.Canceled, context.DeadlineExceeded, io.ErrClosedPipe,
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &url.Error{Op: "Get", URL: "/", Err: io.EOF}, http.ErrBodyReadAfterClose, http.ErrAbortHandler}

func (c H03Case) someErr() error { return someErrors[c.ErrK%len(someErrors)] }

func (c H03Case) body() *fakeBody {
	b := &fakeBody{err: io.EOF, eofLast: c.EOFLast}
	if c.ReadErr {
		b.err = c.someErr()
	}
	if c.CloseErr {
		b.cerr = errClose
	}
	for i, n := range c.Chunks {
		b.chunks = append(b.chunks, pattern(n, i))
	}
	return b
}

func (c H03Case) bodyLen() (n int) {
	for _, x := range c.Chunks {
		n += x
	}
	return n
}

func formatOf(n int) tprop.HTTPFormat {
	switch n {
	case 1:
		return &b3.HTTPFormat{}
	case 2:
		return &tracecontext.HTTPFormat{}
	case 3:
		return &propagation.HTTPFormat{}
	}
	return nil
}

var formatHeaders = map[int][]string{
	0: {"X-B3-Traceid", "X-B3-Spanid", "X-B3-Sampled"},
	1: {"X-B3-Traceid", "X-B3-Spanid", "X-B3-Sampled"},
	2: {"Traceparent", "Tracestate"},
	3: {"X-Cloud-Trace-Context"},
}

type baseFunc func(*http.Request) (*http.Response, error)

func (f baseFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type cancelBase struct {
	baseFunc
	cancelled []*http.Request
}

func (c *cancelBase) CancelRequest(r *http.Request) { c.cancelled = append(c.cancelled, r) }

type ctxKey struct{}

// use reads and closes a body as scripted; it returns what the caller sees and
// the step at which the exchange is over (EOF or Close), -1 if it is not.
func use(b io.ReadCloser, ops []SOp) (log []string, over int, read int, readAtOver int, sawErr bool) {
	over = -1
	end := func(i int) {
		if over < 0 {
			over, readAtOver = i, read
		}
	}
	for i, o := range ops {
		switch o.Op {
		case "read":
			p := make([]byte, o.N)
			n, err := b.Read(p)
			read += n
			log = append(log, fmt.Sprintf("read %q %v", p[:n], err))
			if err == io.EOF {
				end(i)
			} else if err != nil && over < 0 {
				sawErr = true
			}
		case "readall":
			p, err := io.ReadAll(b)
			read += len(p)
			log = append(log, fmt.Sprintf("all %q %v", p, err))
			if err == nil {
				end(i)
			} else if over < 0 {
				sawErr = true
			}
		case "close":
			err := b.Close()
			log = append(log, fmt.Sprint("close ", err))
			end(i)
		case "write":
			if w, ok := b.(io.Writer); ok {
				n, err := w.Write([]byte("w"))
				log = append(log, fmt.Sprint("write ", n, err))
			}
		}
	}
	return
}

func (c H03Case) request() (*http.Request, context.Context, *trace.Span) {
	var body io.Reader
	switch {
	case c.Body == -2:
		body = http.NoBody
	case c.Body == -3:
		body = struct{ io.Reader }{strings.NewReader("unknown")}
	case c.Body >= 0:
		body = bytes.NewReader(pattern(c.Body, 1))
	}
	req, err := http.NewRequest(c.Method, "http://server"+c.Target, body)
	if err != nil {
		panic(err)
	}
	if c.Body == 0 { // NewRequest turns an empty reader into NoBody
		req.Body = io.NopCloser(strings.NewReader(""))
	}
	req.Host = c.Host
	for _, h := range c.Headers {
		req.Header.Add(h[0], h[1])
	}
	if c.NilHdr && len(c.Headers) == 0 {
		req.Header = nil
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	var sp *trace.Span
	if c.Parent {
		ctx, sp = trace.StartSpan(ctx, "parent", trace.WithSampler(trace.AlwaysSample()))
	}
	if c.Tags {
		ctx, _ = tag.New(ctx, tag.Insert(userKey, "u"))
	}
	if c.TagsHTTP {
		for _, k := range clientOuterKeys {
			ctx, _ = tag.New(ctx, tag.Insert(k, "outer"))
		}
	}
	return req.WithContext(ctx), ctx, sp
}

func runH03(cx *Ctx, c H03Case, judge string) error {
	// "traffic" (H03): what base, caller and views see; "spans" (H06): the span
	if judge == "traffic" {
		if err := obs.CheckDocs(clientDocs); err != nil {
			return err
		}
		if err := obs.Reset(clientViews); err != nil {
			return err
		}
	}
	spans.Take()
	req, ctx, parent := c.request()
	wantReq := dumpHeader(req.Header)
	method, url, body, cl, host := req.Method, req.URL.String(), req.Body, req.ContentLength, req.Host
	health := req.URL.Path == "/healthz" || req.URL.Path == "/_ah/health"

	fb := c.body()
	var rb io.ReadCloser = fb
	if c.Writer {
		rb = fakeRWBody{fb}
	}
	var resp *http.Response
	calls := 0
	var baseErr error
	var inBase trace.SpanContext
	var hooks []string
	complain := func(format string, a ...interface{}) {
		if baseErr == nil {
			baseErr = Errf(format, a...)
		}
	}
	base := &cancelBase{baseFunc: func(r *http.Request) (*http.Response, error) {
		calls++
		if r.Method != method || r.URL.String() != url || r.Body != body || r.ContentLength != cl || r.Host != host {
			complain("base is given %s %s length %d host %s, want %s %s %d %s", r.Method, r.URL, r.ContentLength, r.Host, method, url, cl, host)
		}
		if r.Context().Value(ctxKey{}) != "mine" {
			complain("the request base is given lost its context values")
		}
		h := r.Header.Clone()
		w := req.Header.Clone()
		if !health {
			for _, k := range formatHeaders[c.Fmt] {
				h.Del(k)
				w.Del(k)
			}
		}
		if dumpHeader(h) != dumpHeader(w) {
			complain("base is given the headers %s, want %s besides propagation", dumpHeader(h), dumpHeader(w))
		}
		if sp := trace.FromContext(r.Context()); sp != nil {
			inBase = sp.SpanContext()
		}
		if !health {
			f := formatOf(c.Fmt)
			if f == nil {
				f = formatOf(1)
			}
			sc, ok := f.SpanContextFromRequest(r)
			if !ok || sc.TraceID != inBase.TraceID || sc.SpanID != inBase.SpanID || sc.IsSampled() != inBase.IsSampled() {
				complain("the request carries the span context %v (%v), the span is %v", sc, ok, inBase)
			}
		}
		if ct := httptrace.ContextClientTrace(r.Context()); ct != nil && ct.GotFirstResponseByte != nil {
			ct.GotFirstResponseByte()
		}
		if c.Fail {
			return nil, c.someErr()
		}
		resp = &http.Response{StatusCode: c.Status, Status: fmt.Sprint(c.Status, " text"), Header: http.Header{"A": {"b"}}, Body: rb, ContentLength: -1, Request: r, Proto: "HTTP/1.1"}
		if c.CL >= 0 {
			resp.ContentLength = int64(c.bodyLen())
		}
		if c.NilBody {
			resp.Body = nil
		}
		return resp, nil
	}}
	tr := &ochttp.Transport{Base: base, Propagation: formatOf(c.Fmt)}
	if c.Default {
		old := http.DefaultTransport
		defer func() { http.DefaultTransport = old }()
		http.DefaultTransport, tr.Base = base, nil
	}
	sampled := c.Parent
	switch c.Sampler {
	case 0:
		sampled = false
		tr.StartOptions.Sampler = nil
		if c.Parent {
			sampled = true
		}
	case 1:
		tr.StartOptions.Sampler = trace.AlwaysSample()
		sampled = true
	case 2:
		tr.StartOptions.Sampler = trace.NeverSample()
		tr.GetStartOptions = func(r *http.Request) trace.StartOptions {
			if r.Method != method {
				complain("GetStartOptions is given another request")
			}
			return trace.StartOptions{Sampler: trace.AlwaysSample(), SpanKind: trace.SpanKindServer}
		}
		sampled = true
	}
	if c.NameF {
		tr.FormatSpanName = func(r *http.Request) string { return "name:" + r.URL.Path }
	}
	if c.CTrace {
		tr.NewClientTrace = func(r *http.Request, sp *trace.Span) *httptrace.ClientTrace {
			return &httptrace.ClientTrace{GotFirstResponseByte: func() { hooks = append(hooks, fmt.Sprint(sp.SpanContext().SpanID)) }}
		}
	}
	start := time.Now()
	got, err := tr.RoundTrip(req)
	if calls != 1 {
		return Errf("base was called %d times", calls)
	}
	traffic := judge == "traffic"
	if traffic {
		if baseErr != nil {
			return baseErr
		}
		if h := dumpHeader(req.Header); h != wantReq || req.Context() != ctx || req.Body != body || req.URL.String() != url {
			return Errf("the caller's request was changed: headers %s, were %s", h, wantReq)
		}
	}
	if c.Fail {
		if err != c.someErr() || got != nil {
			return Errf("RoundTrip gives %v, %v; base gave nil, %v", got, err, c.someErr())
		}
	} else if err != nil || got.StatusCode != c.Status || got.Status != fmt.Sprint(c.Status, " text") || dumpHeader(got.Header) != `A=["b"];` || got.ContentLength != resp.ContentLength || got.Proto != "HTTP/1.1" {
		return Errf("RoundTrip gives %+v, %v; base gave %+v", got, err, resp)
	}
	before := spans.Len()
	over, read, readAtOver, sawErr := -1, 0, 0, false
	if !c.Fail && c.NilBody {
		if got.Body != nil {
			return Errf("the response has a body %T, base gave none", got.Body)
		}
		over = 0
		cx.Class("no-body")
	} else if !c.Fail {
		_, isW := got.Body.(io.Writer)
		if isW != c.Writer {
			return Errf("the response body is a writer: %v, that of base: %v", isW, c.Writer)
		}
		ref := c.body()
		var refB io.ReadCloser = ref
		if c.Writer {
			refB = fakeRWBody{ref}
		}
		wantLog, _, _, _, _ := use(refB, c.Use)
		var log []string
		log, over, read, readAtOver, sawErr = use(got.Body, c.Use)
		if fmt.Sprintf("%q", log) != fmt.Sprintf("%q", wantLog) || fb.closes != ref.closes || fmt.Sprint(fb.log) != fmt.Sprint(ref.log) {
			return Errf("using the body gives %q with %d closes, using base's %q with %d", log, fb.closes, wantLog, ref.closes)
		}
	}
	end := time.Now()
	done := c.Fail || over >= 0
	if health {
		done = false
	}
	tr.CancelRequest(req)
	if traffic && len(base.cancelled) != 1 {
		return Errf("CancelRequest reached base %d times", len(base.cancelled))
	}
	if traffic {
		exp := c.clientMeas(req, done, health, readAtOver, start, end)
		for _, v := range clientViews {
			// a response given up before its first byte counts as either nothing or its announced length
			if v.Measure == ochttp.ClientReceivedBytes && readAtOver == 0 && c.CL >= 0 && c.bodyLen() > 0 && done && !c.Fail && method != "HEAD" {
				if e := obs.Check(v, exp); e == nil {
					continue
				}
				alt := append([]obs.Meas(nil), exp...)
				for i := range alt {
					if alt[i].Name == ochttp.ClientReceivedBytes.Name() {
						alt[i].V = float64(c.bodyLen())
					}
				}
				if e := obs.Check(v, alt); e != nil {
					return e
				}
				continue
			}
			if e := obs.Check(v, exp); e != nil {
				return e
			}
		}
	} else {
		sc := inBase
		var list []*trace.SpanData
		for _, d := range spans.Take() {
			if d.SpanKind == trace.SpanKindClient || d.SpanKind == trace.SpanKindServer {
				list = append(list, d)
			}
		}
		want := 0
		if done && sampled {
			want = 1
		}
		if len(list) != want {
			return Errf("%d client spans ended, want %d (over at step %d)", len(list), want, over)
		}
		if c.Fail && !health && sampled && before != 1 {
			return Errf("the span of a failed request did not end with it")
		}
		if c.CTrace && !health && (len(hooks) != 1 || hooks[0] != fmt.Sprint(sc.SpanID)) {
			return Errf("client trace hooks saw the spans %v, the span is %v", hooks, sc.SpanID)
		}
		if !health && parent != nil && sc.TraceID != parent.SpanContext().TraceID {
			return Errf("the client span is not in its parent's trace")
		}
		if want == 1 {
			d := list[0]
			name := req.URL.Path
			if c.NameF {
				name = "name:" + req.URL.Path
			}
			if d.Name != name || d.SpanKind != trace.SpanKindClient || d.SpanContext.SpanID != sc.SpanID || d.HasRemoteParent {
				return Errf("span %+v, want %q of kind client with id %v", d, name, sc.SpanID)
			}
			if parent != nil && d.ParentSpanID != parent.SpanContext().SpanID || parent == nil && d.ParentSpanID != (trace.SpanID{}) {
				return Errf("the span's parent is %v", d.ParentSpanID)
			}
			attrs := map[string]interface{}{"http.path": req.URL.Path, "http.url": req.URL.String(), "http.host": req.Host, "http.method": req.Method}
			if ua := req.Header.Get("User-Agent"); ua != "" {
				attrs["http.user_agent"] = ua
			}
			if !c.Fail {
				attrs["http.status_code"] = int64(c.Status)
			}
			if fmt.Sprint(sorted(d.Attributes)) != fmt.Sprint(sorted(attrs)) {
				return Errf("span attributes %v, want %v", sorted(d.Attributes), sorted(attrs))
			}
			code, msg := wantStatus(c.Status)
			if c.Fail {
				code, msg = 2, c.someErr().Error()
			} else if sawErr {
				code, msg = 2, c.someErr().Error()
			}
			if d.Status.Code != code || d.Status.Message != msg {
				return Errf("span status %v, want %d %s", d.Status, code, msg)
			}
			if d.StartTime.Before(start) || d.EndTime.Before(d.StartTime) || d.EndTime.After(end) {
				return Errf("span lasts from %v to %v", d.StartTime, d.EndTime)
			}
		}
	}
	cx.ClassIf(c.Fail, "failed")
	cx.ClassIf(health, "health")
	cx.ClassIf(over >= 0, "over")
	cx.ClassIf(sawErr, "read-error")
	cx.ClassIf(read > 0, "read")
	cx.ClassIf(parent != nil, "child")
	cx.NonTrivial(!c.Fail && !health && len(c.Use) > 0)
	return nil
}

func sorted(m map[string]interface{}) []string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(l)
	return l
}

var clientOuterKeys = []tag.Key{ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode, ochttp.KeyServerRoute, ochttp.KeyClientPath, ochttp.KeyClientMethod, ochttp.KeyClientHost, ochttp.KeyClientStatus}

func (c H03Case) clientMeas(req *http.Request, done, health bool, read int, start, end time.Time) (exp []obs.Meas) {
	if health {
		return nil
	}
	base := map[string]string{}
	if c.TagsHTTP {
		for _, k := range clientOuterKeys {
			base[k.Name()] = "outer"
		}
	}
	if c.Tags {
		base[userKey.Name()] = "u"
	}
	for _, k := range []struct {
		k tag.Key
		v string
	}{{ochttp.Host, req.Host}, {ochttp.KeyClientHost, req.Host}, {ochttp.Path, req.URL.Path}, {ochttp.KeyClientPath, req.URL.Path}, {ochttp.Method, req.Method}, {ochttp.KeyClientMethod, req.Method}} {
		setTag(base, k.k, k.v)
	}
	exp = append(exp, obs.Meas{Name: ochttp.ClientRequestCount.Name(), V: 1, Tags: base})
	if !done {
		return exp
	}
	tags := cp(base)
	st := fmt.Sprint(c.Status)
	if c.Fail {
		st = "error"
	}
	setTag(tags, ochttp.StatusCode, st)
	setTag(tags, ochttp.KeyClientStatus, st)
	sent := 0.0
	if c.Body > 0 {
		sent = float64(c.Body)
	}
	ms := float64(end.Sub(start)) / 1e6
	exp = append(exp,
		obs.Meas{Name: ochttp.ClientSentBytes.Name(), V: sent, Tags: tags},
		obs.Meas{Name: ochttp.ClientReceivedBytes.Name(), V: float64(read), Tags: tags},
		obs.Meas{Name: ochttp.ClientResponseBytes.Name(), V: float64(read), Tags: tags},
		obs.Meas{Name: ochttp.ClientRoundtripLatency.Name(), Any: true, Max: ms, Tags: tags},
		obs.Meas{Name: ochttp.ClientLatency.Name(), Any: true, Max: ms, Tags: tags})
	if c.Body != -1 {
		exp = append(exp, obs.Meas{Name: ochttp.ClientRequestBytes.Name(), V: sent, Tags: tags})
	}
	return exp
}

func TestH03(t *testing.T) {
	Check(t, "H03", "client", Opts{Quick: 4000, Thorough: 50000,
		Rule: "requests through ochttp.Transport over a scripted base that fails or returns a body in chunks ending in EOF or an error, used by up to 8 reads, closes and writes, with every propagation format, span options, contexts and tags; compared with the same use of base's body and with the measurements expected on 17 views; non-trivial when a response is used"},
		genH03, func(cx *Ctx, c H03Case) error { return runH03(cx, c, "traffic") })
}

// ---- H04: propagation ----

// Hop is a client and a server.
type Hop struct {
	CFmt, SFmt       int
	Public           bool
	CSampler, Server int  // 0 none 1 always 2 never
	Outer            int  // the server's request comes with a span of the process: 1 sampled 2 not
	CGet, SGet       bool // given by GetStartOptions, StartOptions saying the opposite
	Stale            bool // the request has propagation headers of another trace, a proxied one
}

// options returns StartOptions and GetStartOptions that choose sampler n.
func options(n int, get bool) (trace.StartOptions, func(*http.Request) trace.StartOptions) {
	if !get {
		return trace.StartOptions{Sampler: samplerOf(n)}, nil
	}
	decoy := 1
	if n == 1 {
		decoy = 2
	}
	return trace.StartOptions{Sampler: samplerOf(decoy)}, func(*http.Request) trace.StartOptions {
		return trace.StartOptions{Sampler: samplerOf(n)}
	}
}

var staleHeaders = map[int]map[string]string{
	0: {"X-B3-Traceid": "463ac35c9f6413ad48485a3953bb6124", "X-B3-Spanid": "a2fb4a1d1a96d312", "X-B3-Sampled": "1"},
	1: {"X-B3-Traceid": "463ac35c9f6413ad48485a3953bb6124", "X-B3-Spanid": "a2fb4a1d1a96d312", "X-B3-Sampled": "0"},
	2: {"Traceparent": "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "Tracestate": "stale=1"},
	3: {"X-Cloud-Trace-Context": "0af7651916cd43dd8448eb211c80319c/123;o=1"},
}

// H04Case is a chain of hops.
type H04Case struct {
	Root    int // 0 no span 1 sampled 2 not sampled
	State   bool
	Default int // the global default sampler: 1 always 2 never 3 probability 1e-9
	Hops    []Hop
	Junk    bool
}

func genH04(t *rapid.T) H04Case {
	return H04Case{Root: Int(t, "root", 0, 2), State: Bool(t, "state"), Default: Int(t, "default", 1, 3), Junk: OneIn(t, "junk", 4),
		Hops: Slice(t, "hops", 1, 3, func(t *rapid.T) Hop {
			f := Int(t, "fmt", 0, 3)
			h := Hop{CFmt: f, SFmt: f, Public: OneIn(t, "public", 4), CSampler: Pick(t, "cs", 0, 0, 1, 2), Server: Pick(t, "ss", 0, 0, 1, 2), Outer: Pick(t, "outer", 0, 0, 0, 1, 2), CGet: OneIn(t, "cget", 3), SGet: OneIn(t, "sget", 3), Stale: OneIn(t, "stale", 3)}
			if OneIn(t, "mixed", 5) {
				h.SFmt = Int(t, "sfmt", 0, 3)
			}
			return h
		})}
}

func samplerOf(n int) trace.Sampler {
	switch n {
	case 1:
		return trace.AlwaysSample()
	case 2:
		return trace.NeverSample()
	case 3:
		return trace.ProbabilitySampler(1e-9)
	}
	return nil
}

// decide is what a sampler does for a span with this parent (sampled or not).
func decide(n int, parent bool) (sampled bool) {
	switch n {
	case 1:
		return true
	case 2:
		return false
	}
	return parent
}

func execH04(cx *Ctx, c H04Case) error {
	trace.ApplyConfig(trace.Config{DefaultSampler: samplerOf(c.Default)})
	defer trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	spans.Take()
	ctx := context.Background()
	if c.Root > 0 {
		var root *trace.Span
		if c.State {
			ts, err := tracestate.New(nil, tracestate.Entry{Key: "k", Value: "v"}, tracestate.Entry{Key: "foo@bar", Value: "x y"})
			if err != nil {
				return err
			}
			sc := trace.SpanContext{TraceID: trace.TraceID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, SpanID: trace.SpanID{9, 8, 7, 6, 5, 4, 3, 2}, Tracestate: ts}
			ctx, root = trace.StartSpanWithRemoteParent(ctx, "root", sc, trace.WithSampler(samplerOf(c.Root)))
		} else {
			ctx, root = trace.StartSpan(ctx, "root", trace.WithSampler(samplerOf(c.Root)))
		}
		defer root.End()
	}
	type expect struct {
		what         string
		sc, parent   trace.SpanContext
		remote       bool
		linked       bool
		isRoot       bool
		kind         int
		sampled      bool
		linkTo       trace.SpanContext
		wantSpanName string
	}
	var exps []expect
	var hop func(ctx context.Context, i int) error
	hop = func(ctx context.Context, i int) error {
		if i == len(c.Hops) {
			return nil
		}
		h := c.Hops[i]
		var herr error
		var clientSC, outerSC trace.SpanContext
		callerSC := trace.SpanContext{}
		caller := trace.FromContext(ctx)
		if caller != nil {
			callerSC = caller.SpanContext()
		}
		path := fmt.Sprint("/hop", i)
		inner := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			sp := trace.FromContext(r.Context())
			if sp == nil {
				herr = Errf("hop %d: no span in the handler's context", i)
				return
			}
			sc := sp.SpanContext()
			carried := sameFormat(h.CFmt, h.SFmt)
			e := expect{what: fmt.Sprintf("server span of hop %d", i), sc: sc, kind: trace.SpanKindServer, wantSpanName: path}
			switch {
			case carried && !h.Public:
				e.parent, e.remote = clientSC, true
				if sc.TraceID != clientSC.TraceID {
					herr = Errf("hop %d: the server span is in trace %v, the client span in %v", i, sc.TraceID, clientSC.TraceID)
					return
				}
				e.sampled = decide(h.Server, clientSC.IsSampled())
				if h.Server == 0 {
					e.sampled = decide(c.Default, clientSC.IsSampled())
				}
				wantTS := h.CFmt == 2
				if wantTS && entries(sc) != entries(clientSC) {
					herr = Errf("hop %d: tracestate %q arrives as %q", i, entries(clientSC), entries(sc))
					return
				}
			default:
				e.isRoot = true
				if sc.TraceID == clientSC.TraceID {
					herr = Errf("hop %d: a server that must not join the client's trace did", i)
					return
				}
				e.sampled = decide(h.Server, false)
				if h.Server == 0 {
					e.sampled = decide(c.Default, false)
				}
				if h.Outer > 0 { // a child of the span it comes with
					e.isRoot, e.parent = false, outerSC
					if sc.TraceID != outerSC.TraceID {
						herr = Errf("hop %d: the server span is not in the trace of the span around it", i)
						return
					}
					e.sampled = decide(h.Server, h.Outer == 1)
				}
				if carried {
					e.linked, e.linkTo = true, clientSC
				}
			}
			if sc.IsSampled() != e.sampled {
				herr = Errf("hop %d: server span sampled %v, want %v (client %v)", i, sc.IsSampled(), e.sampled, clientSC.IsSampled())
				return
			}
			exps = append(exps, e)
			herr = hop(r.Context(), i+1)
		})
		server := &ochttp.Handler{Handler: inner, Propagation: formatOf(h.SFmt), IsPublicEndpoint: h.Public}
		server.StartOptions, server.GetStartOptions = options(h.Server, h.SGet)
		so, gso := options(h.CSampler, h.CGet)
		tr := &ochttp.Transport{Propagation: formatOf(h.CFmt), StartOptions: so, GetStartOptions: gso, Base: baseFunc(func(r *http.Request) (*http.Response, error) {
			clientSC = trace.FromContext(r.Context()).SpanContext()
			e := expect{what: fmt.Sprintf("client span of hop %d", i), sc: clientSC, parent: callerSC, isRoot: caller == nil, kind: trace.SpanKindClient, wantSpanName: path}
			if caller != nil && clientSC.TraceID != callerSC.TraceID {
				return nil, Errf("hop %d: the client span left the trace", i)
			}
			e.sampled = decide(h.CSampler, callerSC.IsSampled())
			if h.CSampler == 0 {
				e.sampled = callerSC.IsSampled()
				if caller == nil {
					e.sampled = decide(c.Default, false)
				}
			}
			if clientSC.IsSampled() != e.sampled {
				return nil, Errf("hop %d: client span sampled %v, want %v", i, clientSC.IsSampled(), e.sampled)
			}
			if caller != nil && entries(clientSC) != entries(callerSC) {
				return nil, Errf("hop %d: the client span's tracestate is %q, want %q", i, entries(clientSC), entries(callerSC))
			}
			exps = append(exps, e)
			// over the wire
			var wire bytes.Buffer
			if err := r.Write(&wire); err != nil {
				return nil, err
			}
			in, err := http.ReadRequest(newReader(&wire))
			if err != nil {
				return nil, err
			}
			if h.Outer > 0 {
				ctx, sp := trace.StartSpan(in.Context(), "outer", trace.WithSampler(samplerOf(h.Outer)))
				defer sp.End()
				outerSC = sp.SpanContext()
				in = in.WithContext(ctx)
			}
			w := newRecorder()
			server.ServeHTTP(w, in)
			if herr != nil {
				return nil, herr
			}
			return w.Result(), nil
		})}
		req, err := http.NewRequest("GET", "http://server"+path, nil)
		if err != nil {
			return err
		}
		if c.Junk && h.CFmt != 2 {
			req.Header.Set("X-Other", "00-x")
		}
		if h.Stale {
			for k, v := range staleHeaders[h.CFmt] {
				req.Header.Set(k, v)
			}
		}
		resp, err := tr.RoundTrip(req.WithContext(ctx))
		if err != nil {
			return err
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		return nil
	}
	if err := hop(ctx, 0); err != nil {
		return err
	}
	byID := map[trace.SpanID]*trace.SpanData{}
	for _, d := range spans.Take() {
		byID[d.SpanID] = d
	}
	for _, e := range exps {
		d := byID[e.sc.SpanID]
		if (d != nil) != e.sampled {
			return Errf("%s: exported %v, sampled %v", e.what, d != nil, e.sampled)
		}
		if d == nil {
			continue
		}
		delete(byID, e.sc.SpanID)
		wantParent := e.parent.SpanID
		if e.isRoot {
			wantParent = trace.SpanID{}
		}
		if d.ParentSpanID != wantParent || d.HasRemoteParent != e.remote || d.SpanKind != e.kind || d.Name != e.wantSpanName {
			return Errf("%s: parent %v (remote %v) kind %d name %q, want parent %v remote %v kind %d name %q", e.what, d.ParentSpanID, d.HasRemoteParent, d.SpanKind, d.Name, wantParent, e.remote, e.kind, e.wantSpanName)
		}
		if e.linked != (len(d.Links) == 1) {
			return Errf("%s: links %v, want one: %v", e.what, d.Links, e.linked)
		}
		if e.linked && (d.Links[0].TraceID != e.linkTo.TraceID || d.Links[0].SpanID != e.linkTo.SpanID || d.Links[0].Type != trace.LinkTypeParent) {
			return Errf("%s: link %+v, want the parent %v", e.what, d.Links[0], e.linkTo)
		}
	}
	for _, d := range byID {
		if d.Name != "root" && d.Name != "outer" {
			return Errf("unexpected span %q", d.Name)
		}
	}
	for _, h := range c.Hops {
		cx.Class("format-%d", h.CFmt)
		cx.ClassIf(h.Public, "public")
		cx.ClassIf(h.Stale, "stale-headers")
		cx.ClassIf(h.Outer > 0, "below-a-span")
		cx.ClassIf(!sameFormat(h.CFmt, h.SFmt), "not-carried")
	}
	cx.NonTrivial(c.Root > 0 || len(c.Hops) > 1)
	return nil
}

func sameFormat(a, b int) bool {
	if a == 0 {
		a = 1
	}
	if b == 0 {
		b = 1
	}
	return a == b
}

func entries(sc trace.SpanContext) string {
	if sc.Tracestate == nil {
		return ""
	}
	return fmt.Sprint(sc.Tracestate.Entries())
}

func TestH04(t *testing.T) {
	Check(t, "H04", "propagation", Opts{Quick: 4000, Thorough: 50000,
		Rule: "chains of 1-3 hops through ochttp.Transport, the wire format of the request and ochttp.Handler, each with one of four propagation formats (client and server sometimes different), public or not, with and without samplers on either side (by StartOptions or GetStartOptions), headers of another trace left in the request, spans of the process around the handler, and three default samplers; non-trivial with a root span or several hops"},
		genH04, execH04)
}

// ---- H07: concurrent requests ----

// H07Case is a number of requests made at once.
type H07Case struct {
	Reqs []H07Req
	Fmt  int
}

// H07Req is one of them.
type H07Req struct {
	Status, Size, Body int
	Method, Path       int
	User               int // tag of the caller's context, 0 none
	Nested             bool
	Use                int // of the response body: 0 once, 1 closed twice, 2 used again much later
}

func genH07(t *rapid.T) H07Case {
	return H07Case{Fmt: Int(t, "fmt", 0, 3), Reqs: Slice(t, "reqs", 2, 12, func(t *rapid.T) H07Req {
		return H07Req{Status: Pick(t, "status", 200, 404, 500, 503, 201), Size: Int(t, "size", 0, 5000), Body: Int(t, "body", 0, 2000),
			Method: Int(t, "method", 0, 2), Path: Int(t, "path", 0, 2), User: Int(t, "user", 0, 2), Nested: OneIn(t, "nested", 3), Use: Int(t, "use", 0, 2)}
	})}
}

var h07methods = []string{"POST", "PUT", "PATCH"}

func execH07(cx *Ctx, c H07Case) error {
	all := append(append([]*view.View(nil), serverViews...), clientViews...)
	if err := obs.Reset(all); err != nil {
		return err
	}
	spans.Take()
	servers()
	id := nextID.Add(1)
	var served sync.WaitGroup
	var h *ochttp.Handler
	tr := &ochttp.Transport{Base: h1, Propagation: formatOf(c.Fmt), StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	var late []io.ReadCloser
	var lateMu sync.Mutex
	call := func(ctx context.Context, i int, nested bool) error {
		q := c.Reqs[i]
		served.Add(1)
		url := fmt.Sprintf("http://server/r%d?i=%d", q.Path, i)
		if nested {
			url += "&nested"
		}
		req, err := http.NewRequest(h07methods[q.Method], url, bytes.NewReader(pattern(q.Body, i)))
		if err != nil {
			return err
		}
		if q.Body == 0 {
			req.Body = http.NoBody
		}
		req.Header.Set("X-Verif-Case", fmt.Sprint(id))
		resp, err := tr.RoundTrip(req.WithContext(ctx))
		if err != nil {
			return Errf("request %d: %v", i, err)
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if q.Use == 1 {
			runtime.Gosched()
			resp.Body.Close()
		}
		if q.Use == 2 {
			lateMu.Lock()
			late = append(late, resp.Body)
			lateMu.Unlock()
		}
		if err != nil || resp.StatusCode != q.Status || !bytes.Equal(b, pattern(q.Size, i)) || resp.Header.Get("X-Got") != fmt.Sprint(q.Body) {
			return Errf("request %d got status %d, %d bytes (its own: %v), %s read, %v; want %d, %d, %d", i, resp.StatusCode, len(b), bytes.Equal(b, pattern(q.Size, i)), resp.Header.Get("X-Got"), err, q.Status, q.Size, q.Body)
		}
		return nil
	}
	errs := make(chan error, 2*len(c.Reqs))
	inner := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var i int
		fmt.Sscanf(r.URL.RawQuery, "i=%d", &i)
		q := c.Reqs[i]
		if q.Nested && !strings.HasSuffix(r.URL.RawQuery, "&nested") {
			if err := call(r.Context(), i, true); err != nil {
				errs <- err
			}
		}
		n, _ := io.Copy(io.Discard, r.Body)
		ochttp.SetRoute(r.Context(), fmt.Sprint("/route", i))
		w.Header().Set("X-Got", fmt.Sprint(n))
		w.WriteHeader(q.Status)
		p := pattern(q.Size, i)
		for len(p) > 0 {
			k := min(len(p), 1000)
			w.Write(p[:k])
			p = p[k:]
		}
	})
	h = &ochttp.Handler{Handler: inner, Propagation: formatOf(c.Fmt), StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	handlers.Store(id, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer served.Done()
		h.ServeHTTP(w, r)
	}))
	defer handlers.Delete(id)
	start := time.Now()
	var wg sync.WaitGroup
	for i, q := range c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := context.Background()
			if q.User > 0 {
				ctx, _ = tag.New(ctx, tag.Insert(userKey, fmt.Sprint("u", q.User)))
			}
			if err := call(ctx, i, false); err != nil {
				errs <- err
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err // a request that failed was not served, perhaps
	default:
	}
	served.Wait()
	for _, b := range late {
		b.Read(make([]byte, 10))
		b.Close()
	}
	ms := float64(time.Since(start)) / 1e6
	var exp []obs.Meas
	calls := 0
	for i, q := range c.Reqs {
		for pass := 0; pass < 2; pass++ {
			if pass == 1 && !q.Nested {
				continue
			}
			calls++
			path, st, method := fmt.Sprint("/r", q.Path), fmt.Sprint(q.Status), h07methods[q.Method]
			s := map[string]string{"http.host": "server", "http.path": path, "http.method": method}
			exp = append(exp, obs.Meas{Name: ochttp.ServerRequestCount.Name(), V: 1, Tags: cp(s)})
			s["http.status"], s["http_server_route"] = st, fmt.Sprint("/route", i)
			exp = append(exp, obs.Meas{Name: ochttp.ServerLatency.Name(), Any: true, Max: ms, Tags: s}, obs.Meas{Name: ochttp.ServerResponseBytes.Name(), V: float64(q.Size), Tags: s})
			if q.Body > 0 {
				exp = append(exp, obs.Meas{Name: ochttp.ServerRequestBytes.Name(), V: float64(q.Body), Tags: s})
			}
			k := map[string]string{"http.host": "server", "http.path": path, "http.method": method, "http_client_host": "server", "http_client_path": path, "http_client_method": method}
			if q.User > 0 && pass == 0 { // tags do not cross HTTP
				k[userKey.Name()] = fmt.Sprint("u", q.User)
			}
			exp = append(exp, obs.Meas{Name: ochttp.ClientRequestCount.Name(), V: 1, Tags: cp(k)})
			k["http.status"], k["http_client_status"] = st, st
			exp = append(exp, obs.Meas{Name: ochttp.ClientRequestBytes.Name(), V: float64(q.Body), Tags: k}, obs.Meas{Name: ochttp.ClientSentBytes.Name(), V: float64(q.Body), Tags: k},
				obs.Meas{Name: ochttp.ClientReceivedBytes.Name(), V: float64(q.Size), Tags: k}, obs.Meas{Name: ochttp.ClientResponseBytes.Name(), V: float64(q.Size), Tags: k},
				obs.Meas{Name: ochttp.ClientLatency.Name(), Any: true, Max: ms, Tags: k}, obs.Meas{Name: ochttp.ClientRoundtripLatency.Name(), Any: true, Max: ms, Tags: k})
		}
	}
	if err := obs.CheckAll(all, exp); err != nil {
		return err
	}
	client, server := map[string]*trace.SpanData{}, map[string]*trace.SpanData{}
	got := spans.Take()
	for _, d := range got {
		m := server
		if d.SpanKind == trace.SpanKindClient {
			m = client
		}
		url := strings.TrimPrefix(fmt.Sprint(d.Attributes["http.url"]), "http://server")
		if m[url] != nil {
			return Errf("two spans of one kind for %s", url)
		}
		m[url] = d
	}
	if len(got) != 2*calls {
		return Errf("%d spans for %d requests", len(got), calls)
	}
	traces := map[trace.TraceID]int{}
	for i, q := range c.Reqs {
		url := fmt.Sprintf("/r%d?i=%d", q.Path, i)
		chain := []*trace.SpanData{client[url], server[url]}
		if q.Nested {
			chain = append(chain, client[url+"&nested"], server[url+"&nested"])
		}
		for k, d := range chain {
			if d == nil {
				return Errf("request %d: span %d of its chain is missing", i, k)
			}
			want := trace.SpanID{}
			if k > 0 {
				want = chain[k-1].SpanID
			}
			if d.TraceID != chain[0].TraceID || d.ParentSpanID != want {
				return Errf("request %d: span %d of its chain is in trace %v with parent %v, want %v %v", i, k, d.TraceID, d.ParentSpanID, chain[0].TraceID, want)
			}
			if d.Attributes["http.status_code"] != int64(q.Status) || d.Attributes["http.method"] != h07methods[q.Method] {
				return Errf("request %d: span attributes %v, want status %d", i, d.Attributes, q.Status)
			}
		}
		if j, ok := traces[chain[0].TraceID]; ok {
			return Errf("requests %d and %d are in one trace", i, j)
		}
		traces[chain[0].TraceID] = i
	}
	cx.NonTrivial(len(c.Reqs) > 3)
	cx.ClassIf(calls > len(c.Reqs), "nested")
	cx.Class("requests-%d", len(c.Reqs)/4*4)
	return nil
}

func TestH07(t *testing.T) {
	Check(t, "H07", "concurrent", Opts{Quick: 600, Thorough: 8000,
		Rule: "2-12 requests at once through one Transport to one Handler over sockets, each with its own status, sizes, route and caller's tags, some of the same path or method, some causing a nested one, bodies closed twice or used again later, under the race detector; non-trivial with more than three"},
		genH07, execH07)
	checkLate(t)
}
