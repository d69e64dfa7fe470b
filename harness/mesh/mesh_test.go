// Package mesh checks requests that cross several HTTP and gRPC hops.
package mesh

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	tracepropagation "go.opencensus.io/trace/propagation"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"pgregory.net/rapid"
)

// Mut changes a tag.
type Mut struct {
	Key  int
	V    string // "" deletes
	Stay bool   // does not propagate
}

// Node is a service that a request reaches, and what it does there.
type Node struct {
	Proto    int // 0-3 HTTP with a format (0 is the default one), 4 gRPC
	Proxy    bool
	Public   bool
	PubAll   bool // and sampled
	Inner    bool
	Forward  bool // what it was sent goes with its own calls
	Tags     []Mut
	Parallel bool
	Code     int
	Body     int
	Moved    int // HTTP answers that send the caller elsewhere first
	Kids     []Node
}

// Tree is a request.
type Tree struct {
	Root int // 0 no span, 1 a sampled one, 2 one that is not
	Tags []Mut
	Kids []Node
}

// Case is what happens at once.
type Case struct {
	Default int // sampler: 0 as the parent, 1 all, 2 none
	Trees   []Tree
}

func genMuts(t *rapid.T) []Mut {
	return Slice(t, "tags", 0, 3, func(t *rapid.T) Mut {
		return Mut{Key: Int(t, "key", 0, 2), V: Pick(t, "v", "a", "b", "", "long value", "\x7e~ "), Stay: OneIn(t, "stay", 4)}
	})
}

func genNode(t *rapid.T, deep int) Node {
	n := Node{Proto: Int(t, "proto", 0, 7), Proxy: OneIn(t, "proxy", 4), Public: OneIn(t, "public", 5), PubAll: Bool(t, "puball"), Inner: Bool(t, "inner"), Forward: OneIn(t, "forward", 3), Tags: genMuts(t), Parallel: Bool(t, "parallel"), Code: Pick(t, "code", 0, 0, 0, 1, 5, 14), Body: Pick(t, "body", 0, 0, 1, 5000)}
	if n.Proto > 4 {
		n.Proto = 4
	} else if n.Proto < 4 && OneIn(t, "redirect", 5) {
		n.Moved = Int(t, "moved", 1, 3)
	}
	n.Kids = genKids(t, deep-1)
	return n
}

func genKids(t *rapid.T, deep int) (l []Node) {
	if deep <= 0 {
		return nil
	}
	for k := Pick(t, "kids", 1, 0, 2, 1, 3); k > 0; k-- {
		l = append(l, genNode(t, deep))
	}
	return l
}

func genCase(t *rapid.T) Case {
	return Case{Default: Pick(t, "default", 0, 0, 1, 2), Trees: Slice(t, "trees", 1, 3, func(t *rapid.T) Tree {
		return Tree{Root: Pick(t, "root", 1, 1, 1, 0, 2), Tags: genMuts(t), Kids: genKids(t, Int(t, "deep", 1, 4))}
	})}
}

// ---- the services ----

var (
	keys   = []tag.Key{tag.MustNewKey("mesh.a"), tag.MustNewKey("mesh.b"), tag.MustNewKey("mesh.c")}
	spans  = &obs.Spans{}
	visits sync.Map // name -> *visit
	caseNo atomic.Int64

	formats = []tracepropagation.HTTPFormat{nil, &b3.HTTPFormat{}, &tracecontext.HTTPFormat{}, &propagation.HTTPFormat{}}
	clients []*http.Client
	proxies []*http.Client
	conns   = map[[2]bool]*grpc.ClientConn{}

	serverView  = map[bool]*view.View{false: count("mesh/http/server", ochttp.ServerLatency, ochttp.Path), true: count("mesh/grpc/server", ocgrpc.ServerLatency, ocgrpc.KeyServerMethod)}
	clientView  = map[bool]*view.View{false: count("mesh/http/client", ochttp.ClientRoundtripLatency, ochttp.KeyClientPath), true: count("mesh/grpc/client", ocgrpc.ClientRoundtripLatency, ocgrpc.KeyClientMethod)}
	allViews    = []*view.View{serverView[false], serverView[true], clientView[false], clientView[true]}
	setup       sync.Once
	errNotFound = errors.New("verif: no such node")
)

func count(name string, m stats.Measure, k tag.Key) *view.View {
	return &view.View{Name: name, Measure: m, Aggregation: view.Count(), TagKeys: append([]tag.Key{k}, keys...)}
}

type raw struct{}

func (raw) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (raw) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte(nil), b...)
	return nil
}
func (raw) Name() string   { return "meshraw" }
func (raw) String() string { return "meshraw" }

// proxy passes a request on, without instrumentation. (A ReverseProxy cuts
// an answer off once in a while, if there is a request body.)
func proxy(w http.ResponseWriter, r *http.Request, to http.RoundTripper) {
	b, err := io.ReadAll(r.Body)
	out, err2 := http.NewRequest(r.Method, "http://verif"+r.URL.Path, bytes.NewReader(b))
	if err != nil || err2 != nil {
		http.Error(w, fmt.Sprint(err, err2), 598)
		return
	}
	for k, v := range r.Header {
		out.Header[k] = v
	}
	out.Header.Add("Via", "1.1 proxy")
	out.Header.Add("X-Forwarded-For", "192.0.2.1")
	resp, err := to.RoundTrip(out)
	if err != nil {
		http.Error(w, err.Error(), 598)
		return
	}
	defer resp.Body.Close()
	b, err = io.ReadAll(resp.Body)
	if err != nil {
		http.Error(w, err.Error(), 598)
		return
	}
	if l := resp.Header.Get("Location"); l != "" {
		w.Header().Set("Location", l)
	}
	w.WriteHeader(resp.StatusCode)
	w.Write(b)
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return l
}

func start() {
	trace.RegisterExporter(spans)
	l := listen()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		v, ok := visits.Load(strings.TrimPrefix(r.URL.Path, "/"))
		if !ok {
			http.Error(w, errNotFound.Error(), 599)
			return
		}
		x := v.(*visit)
		h := &ochttp.Handler{Propagation: formats[x.n.Proto], IsPublicEndpoint: x.n.Public, Handler: http.HandlerFunc(x.serveHTTP)}
		if x.n.Public && x.n.PubAll {
			h.StartOptions.Sampler = trace.AlwaysSample()
		}
		h.ServeHTTP(w, r)
	}))
	dial := func(l net.Listener) *http.Transport {
		return &http.Transport{MaxIdleConnsPerHost: 64, DialContext: func(context.Context, string, string) (net.Conn, error) { return net.Dial("tcp", l.Addr().String()) }}
	}
	p, behind := listen(), dial(l)
	go http.Serve(p, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { proxy(w, r, behind) }))
	direct, over := dial(l), dial(p)
	for _, f := range formats {
		clients = append(clients, &http.Client{Transport: &ochttp.Transport{Base: direct, Propagation: f}})
		proxies = append(proxies, &http.Client{Transport: &ochttp.Transport{Base: over, Propagation: f}})
	}
	for _, k := range [][2]bool{{false, false}, {true, false}, {true, true}} {
		h := &ocgrpc.ServerHandler{IsPublicEndpoint: k[0]}
		if k[1] {
			h.StartOptions.Sampler = trace.AlwaysSample()
		}
		s := grpc.NewServer(grpc.StatsHandler(h), grpc.CustomCodec(raw{}), grpc.UnknownServiceHandler(serveGRPC))
		l := bufconn.Listen(1 << 16)
		go s.Serve(l)
		cc, err := grpc.Dial("passthrough:///mesh", grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.ForceCodec(raw{})), grpc.WithStatsHandler(&ocgrpc.ClientHandler{}),
			grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return l.Dial() }))
		if err != nil {
			panic(err)
		}
		conns[k] = cc
	}
}

func serveGRPC(_ interface{}, st grpc.ServerStream) error {
	name, _ := grpc.Method(st.Context())
	v, ok := visits.Load(strings.TrimPrefix(name, "/mesh/"))
	if !ok {
		return errNotFound
	}
	x := v.(*visit)
	var b []byte
	for {
		var m []byte
		err := st.RecvMsg(&m)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		b = append(b, m...)
	}
	if x.n.Forward {
		md, _ := metadata.FromIncomingContext(st.Context())
		x.md = md.Copy()
	}
	x.run(st.Context(), b)
	if x.n.Code != 0 {
		return status.Error(codes.Code(x.n.Code), "as told")
	}
	return st.SendMsg(&b)
}

func (x *visit) serveHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	if err != nil {
		x.err = Errf("reading the request of %s: %v", x.name, err)
	}
	if x.n.Forward {
		x.headers = r.Header.Clone()
		x.headers.Del("Content-Length")
		x.headers.Del("Accept-Encoding")
	}
	x.run(r.Context(), b)
	if x.next != "" {
		code := []int{307, 308, 302, 303, 301}[len(x.name)%5]
		if x.n.Body > 0 { // to be sent again
			code = 307 + len(x.name)%2
		}
		http.Redirect(w, r, "/"+x.next, code)
		return
	}
	if x.n.Code != 0 {
		w.WriteHeader([]int{400, 404, 500, 503}[x.n.Code%4])
	}
	w.Write(b)
}

// visit is a node and what was seen there.
type visit struct {
	n            *Node
	name         string
	first        string // where the caller is to begin
	next         string // where it sends the caller
	up           *visit // nil above a tree
	upTags       map[string]string
	tags         map[string]string // expected on arrival
	stays        map[string]string // those that are not to go on
	ran          int
	err          error
	from         trace.SpanContext // of the caller's span
	haveFrom     bool
	server, here trace.SpanContext // the server's span; the span around the calls
	kids         []*visit
	headers      http.Header // what it was sent, if it is to go on
	md           metadata.MD
}

func tagsOf(ctx context.Context) map[string]string {
	out := map[string]string{}
	for _, k := range keys {
		if v, ok := tag.FromContext(ctx).Value(k); ok {
			out[k.Name()] = v
		}
	}
	return out
}

// apply changes the tags of a context and of its model.
func apply(ctx context.Context, l []Mut, m map[string]string, stay map[string]bool) context.Context {
	for _, u := range l {
		k := keys[u.Key]
		if u.V == "" {
			ctx, _ = tag.New(ctx, tag.Delete(k))
			delete(m, k.Name())
			delete(stay, k.Name())
			continue
		}
		ttl := tag.WithTTL(tag.TTLUnlimitedPropagation)
		if u.Stay {
			ttl = tag.WithTTL(tag.TTLNoPropagation)
		}
		ctx, _ = tag.New(ctx, tag.Upsert(k, u.V, ttl))
		m[k.Name()] = u.V
		stay[k.Name()] = u.Stay
	}
	return ctx
}

// run is what the service does with a request.
func (x *visit) run(ctx context.Context, body []byte) {
	x.ran++
	if len(body) != x.n.Body && x.err == nil {
		x.err = Errf("%s got %d bytes, want %d", x.name, len(body), x.n.Body)
	}
	sp := trace.FromContext(ctx)
	if sp == nil {
		x.err = Errf("%s runs without a span", x.name)
		return
	}
	x.server, x.here = sp.SpanContext(), sp.SpanContext()
	if g := tagsOf(ctx); fmt.Sprint(g) != fmt.Sprint(x.tags) && x.err == nil {
		x.err = Errf("%s runs with tags %v, want %v", x.name, g, x.tags)
	}
	if x.n.Inner {
		var in *trace.Span
		ctx, in = trace.StartSpan(ctx, "in."+x.name)
		x.here = in.SpanContext()
		defer in.End()
	}
	here := map[string]string{}
	for k, v := range x.tags {
		here[k] = v
	}
	stay := map[string]bool{}
	ctx = apply(ctx, x.n.Tags, here, stay)
	x.calls(ctx, x.n.Kids, x.n.Parallel, here, stay)
}

func (x *visit) calls(ctx context.Context, kids []Node, parallel bool, here map[string]string, stay map[string]bool) {
	var wg sync.WaitGroup
	for i := range kids {
		k := &visit{n: &kids[i], up: x, name: fmt.Sprintf("%s.%d", x.name, i), upTags: here, tags: map[string]string{}}
		if k.n.Proto == 4 {
			for t, v := range here {
				if !stay[t] {
					k.tags[t] = v
				}
			}
		}
		if sp := trace.FromContext(ctx); sp != nil {
			k.from, k.haveFrom = sp.SpanContext(), true
		}
		k.first = k.name
		for m := 0; m < k.n.Moved; m++ {
			mv := &visit{n: &Node{Proto: k.n.Proto, Proxy: k.n.Proxy, Public: k.n.Public != (m == 1), PubAll: k.n.PubAll, Body: k.n.Body},
				up: x, name: fmt.Sprintf("%s-moved%d", k.name, m), next: k.first, upTags: here, tags: map[string]string{}, from: k.from, haveFrom: k.haveFrom}
			k.first = mv.name
			visits.Store(mv.name, mv)
			x.kids = append(x.kids, mv)
		}
		visits.Store(k.name, k)
		x.kids = append(x.kids, k)
		wg.Add(1)
		do := func() {
			defer wg.Done()
			if err := k.call(ctx); err != nil && k.err == nil {
				k.err = err
			}
		}
		if parallel {
			go do()
		} else {
			do()
		}
	}
	wg.Wait()
}

// call makes the request that leads to the node.
func (x *visit) call(ctx context.Context) error {
	out := bytes.Repeat([]byte("b"), x.n.Body)
	if x.n.Proto < 4 {
		c := clients[x.n.Proto]
		if x.n.Proxy {
			c = proxies[x.n.Proto]
		}
		method, body := "GET", io.Reader(nil)
		if x.n.Body > 0 {
			method, body = "POST", bytes.NewReader(out)
		}
		req, err := http.NewRequest(method, "http://mesh/"+x.first, body)
		if err != nil {
			return err
		}
		for k, v := range x.up.headers {
			req.Header[k] = append([]string(nil), v...)
		}
		resp, err := c.Do(req.WithContext(ctx))
		if err != nil {
			return Errf("calling %s: %v", x.name, err)
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		if err != nil || !bytes.Equal(b, out) {
			return Errf("calling %s: %d bytes come back, want %d (%v)", x.name, len(b), len(out), err)
		}
		return nil
	}
	cc := conns[[2]bool{x.n.Public, x.n.Public && x.n.PubAll}]
	if x.up.md != nil {
		ctx = metadata.NewOutgoingContext(ctx, x.up.md.Copy())
	}
	st, err := cc.NewStream(metadata.AppendToOutgoingContext(ctx, "own", "x"), &grpc.StreamDesc{ServerStreams: true, ClientStreams: true}, "/mesh/"+x.name)
	if err != nil {
		return Errf("calling %s: %v", x.name, err)
	}
	if len(out) > 0 {
		if err := st.SendMsg(&out); err != nil && err != io.EOF {
			return Errf("calling %s: %v", x.name, err)
		}
	}
	if err := st.CloseSend(); err != nil {
		return Errf("calling %s: %v", x.name, err)
	}
	var in []byte
	for {
		var m []byte
		if err = st.RecvMsg(&m); err != nil {
			break
		}
		in = append(in, m...)
	}
	if x.n.Code == 0 && (err != io.EOF || !bytes.Equal(in, out)) || x.n.Code != 0 && status.Code(err) != codes.Code(x.n.Code) {
		return Errf("calling %s: %v after %d bytes, want code %d after %d", x.name, err, len(in), x.n.Code, len(out))
	}
	return nil
}

func (x *visit) all(f func(*visit)) {
	for _, k := range x.kids {
		f(k)
		k.all(f)
	}
}

// ---- the oracle ----

// want is a span that is to be exported.
type want struct {
	name   string
	kind   int
	sc     *trace.SpanContext // if it is known
	parent *trace.SpanContext // the parent's, if it is known
	client string             // or the name of the client span that is the parent
	root   bool
	remote bool
	trace  *trace.TraceID
	linked string // the client span it links to
}

func spanName(x *visit) string {
	if x.n.Proto == 4 {
		return "mesh." + x.name
	}
	return "/" + x.name
}

// wants is the model: which spans a tree exports.
func wants(def int, x *visit) (l []want, err error) {
	decide := func(parent bool) bool { return def == 1 || def == 0 && parent }
	for _, k := range x.kids {
		if k.err != nil {
			return nil, k.err
		}
		if k.ran != 1 {
			return nil, Errf("%s ran %d times", k.name, k.ran)
		}
		client := k.from.IsSampled()
		if !k.haveFrom {
			client = decide(false)
		}
		name := spanName(k)
		if client {
			w := want{name: name, kind: trace.SpanKindClient, root: !k.haveFrom}
			if k.haveFrom {
				from := k.from
				w.parent, w.trace = &from, &from.TraceID
			}
			l = append(l, w)
		}
		if k.haveFrom && !k.n.Public && k.server.TraceID != k.from.TraceID {
			return nil, Errf("%s runs in trace %v, its caller in %v", k.name, k.server.TraceID, k.from.TraceID)
		}
		if k.haveFrom && k.n.Public && k.server.TraceID == k.from.TraceID {
			return nil, Errf("%s is public and runs in its caller's trace", k.name)
		}
		server := decide(client)
		if k.n.Public {
			server = k.n.PubAll || decide(false)
		}
		if k.server.IsSampled() != server {
			return nil, Errf("%s is sampled: %v, want %v (its caller: %v)", k.name, k.server.IsSampled(), server, client)
		}
		if server {
			w := want{name: name, kind: trace.SpanKindServer, sc: &k.server, trace: &k.server.TraceID}
			if k.n.Public {
				w.root, w.linked = true, name
			} else {
				w.remote, w.client = true, name
			}
			l = append(l, w)
			if k.n.Inner {
				l = append(l, want{name: "in." + k.name, kind: trace.SpanKindUnspecified, sc: &k.here, parent: &k.server, trace: &k.server.TraceID})
			}
		}
		if k.n.Inner && (k.here.TraceID != k.server.TraceID || k.here.IsSampled() != server) {
			return nil, Errf("the span inside %s is %v, that around it %v", k.name, k.here, k.server)
		}
		more, err := wants(def, k)
		if err != nil {
			return nil, err
		}
		l = append(l, more...)
	}
	return l, nil
}

func id(name string, kind int) string { return fmt.Sprintf("%s (kind %d)", name, kind) }

func judge(l []want, got []*trace.SpanData) error {
	have := map[string]*trace.SpanData{}
	spanIDs := map[trace.SpanID]string{}
	for _, d := range got {
		x := id(d.Name, d.SpanKind)
		if have[x] != nil {
			return Errf("two spans %s", x)
		}
		have[x] = d
		if o := spanIDs[d.SpanID]; o != "" {
			return Errf("spans %s and %s have the same ID", o, x)
		}
		spanIDs[d.SpanID] = x
	}
	for _, w := range l {
		x := id(w.name, w.kind)
		d := have[x]
		if d == nil {
			return Errf("span %s is not exported", x)
		}
		delete(have, x)
		if w.sc != nil && (d.SpanID != w.sc.SpanID || d.TraceID != w.sc.TraceID) {
			return Errf("span %s is %v, where it ran it was %v", x, d.SpanContext, w.sc)
		}
		if w.trace != nil && d.TraceID != *w.trace {
			return Errf("span %s is in trace %v, want %v", x, d.TraceID, *w.trace)
		}
		if w.parent != nil && d.ParentSpanID != w.parent.SpanID {
			return Errf("span %s has parent %v, want %v", x, d.ParentSpanID, w.parent.SpanID)
		}
		if w.root && d.ParentSpanID != (trace.SpanID{}) {
			return Errf("root span %s has parent %v", x, d.ParentSpanID)
		}
		if !w.root && d.ParentSpanID == (trace.SpanID{}) {
			return Errf("span %s has no parent", x)
		}
		if d.HasRemoteParent != w.remote {
			return Errf("span %s has a remote parent: %v, want %v", x, d.HasRemoteParent, w.remote)
		}
		var c *trace.SpanData
		for _, g := range got {
			if g.Name == w.name && g.SpanKind == trace.SpanKindClient {
				c = g
			}
		}
		if c != nil && w.client != "" && (d.ParentSpanID != c.SpanID || d.TraceID != c.TraceID) {
			return Errf("span %s has parent %v, the client's span is %v", x, d.ParentSpanID, c.SpanID)
		}
		if w.linked != "" {
			if len(d.Links) != 1 || c != nil && (d.Links[0].SpanID != c.SpanID || d.Links[0].TraceID != c.TraceID || d.Links[0].Type != trace.LinkTypeParent) {
				return Errf("public span %s has links %v, the client's span is %v", x, d.Links, c)
			}
		} else if len(d.Links) != 0 {
			return Errf("span %s has links %v", x, d.Links)
		}
		if c != nil && w.kind == trace.SpanKindServer {
			if d.Status.Code != c.Status.Code {
				return Errf("%s ends with status %v at the server and %v at the client", x, d.Status, c.Status)
			}
			if d.StartTime.Before(c.StartTime) {
				return Errf("span %s starts before its client's", x)
			}
		}
		if d.EndTime.Before(d.StartTime) {
			return Errf("span %s ends before it starts", x)
		}
	}
	for x := range have {
		return Errf("span %s is not expected", x)
	}
	return nil
}

// rows are those of a view, the tags as text.
func rows(v *view.View) (l []string, err error) {
	data, err := view.RetrieveData(v.Name)
	for _, r := range data {
		x := fmt.Sprint(r.Data.(*view.CountData).Value, ":")
		for _, t := range r.Tags {
			x += fmt.Sprintf(" %s=%q", t.Key.Name(), t.Value)
		}
		l = append(l, x)
	}
	sort.Strings(l)
	return l, err
}

func row(v *view.View, name string, tags map[string]string) string {
	l := []string{fmt.Sprintf(" %s=%q", v.TagKeys[0].Name(), name)}
	for k, t := range tags {
		l = append(l, fmt.Sprintf(" %s=%q", k, t))
	}
	sort.Strings(l)
	return "1:" + strings.Join(l, "")
}

// eventually waits for what happens after the last answer.
func eventually(f func() error) (err error) {
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(200 * time.Microsecond) {
		if err = f(); err == nil || time.Now().After(end) {
			return err
		}
	}
}

func execMesh(cx *Ctx, c Case) error {
	setup.Do(start)
	def := []trace.Sampler{trace.ProbabilitySampler(0), trace.AlwaysSample(), trace.NeverSample()}[c.Default]
	trace.ApplyConfig(trace.Config{DefaultSampler: def})
	view.Unregister(allViews...)
	if err := view.Register(allViews...); err != nil {
		return err
	}
	defer view.Unregister(allViews...)
	spans.Take()
	no := caseNo.Add(1)
	roots := make([]*visit, len(c.Trees))
	var wg sync.WaitGroup
	for i, t := range c.Trees {
		roots[i] = &visit{n: &Node{Kids: t.Kids}, name: fmt.Sprintf("c%d.%d", no, i)}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := context.Background()
			if t.Root > 0 {
				var sp *trace.Span
				ctx, sp = trace.StartSpan(ctx, "root."+roots[i].name, trace.WithSampler([]trace.Sampler{trace.AlwaysSample(), trace.NeverSample()}[t.Root-1]))
				roots[i].here = sp.SpanContext()
				defer sp.End()
			}
			here, stay := map[string]string{}, map[string]bool{}
			ctx = apply(ctx, t.Tags, here, stay)
			roots[i].calls(ctx, t.Kids, i%2 == 0, here, stay)
		}()
	}
	wg.Wait()
	var expected []want
	nodes, protos := 0, map[int]bool{}
	wantRows := map[*view.View][]string{}
	for i, r := range roots {
		if c.Trees[i].Root == 1 {
			expected = append(expected, want{name: "root." + r.name, sc: &r.here, root: true})
		}
		l, err := wants(c.Default, r)
		if err != nil {
			return err
		}
		expected = append(expected, l...)
		r.all(func(x *visit) {
			nodes++
			protos[x.n.Proto] = true
			cx.ClassIf(x.n.Public, "public")
			cx.ClassIf(x.next != "", "redirect")
			cx.ClassIf(x.up.n.Proto != x.n.Proto && x.up.up != nil, "mixed")
			cx.ClassIf(x.up.headers != nil && x.n.Proto < 4 || x.up.md != nil && x.n.Proto == 4, "forwarded")
			cx.ClassIf(len(x.tags) > 0, "tags")
			cx.ClassIf(x.up.up != nil && x.up.up.up != nil, "three-hops")
			name := "/" + x.name
			if x.n.Proto == 4 {
				name = "mesh/" + x.name
			}
			s, c := serverView[x.n.Proto == 4], clientView[x.n.Proto == 4]
			wantRows[s] = append(wantRows[s], row(s, name, x.tags))
			wantRows[c] = append(wantRows[c], row(c, name, x.upTags))
			visits.Delete(x.name)
		})
	}
	cx.NonTrivial(nodes > 2 && len(protos) > 1)
	cx.ClassIf(len(expected) > 4, "sampled")
	var got []*trace.SpanData
	if err := eventually(func() error {
		got = append(got, spans.Take()...)
		if len(got) < len(expected) {
			return Errf("%d spans", len(got))
		}
		return nil
	}); err != nil {
		// judged below
		_ = err
	}
	if err := eventually(func() error {
		for _, v := range allViews {
			w := append([]string(nil), wantRows[v]...)
			sort.Strings(w)
			g, err := rows(v)
			if err != nil {
				return err
			}
			if strings.Join(g, "\n") != strings.Join(w, "\n") {
				return Errf("view %s has rows\n%s\nwant\n%s", v.Name, strings.Join(g, "\n"), strings.Join(w, "\n"))
			}
		}
		return nil
	}); err != nil {
		return err
	}
	return judge(expected, append(got, spans.Take()...))
}

func TestE01(t *testing.T) {
	Check(t, "E01", "mesh", Opts{Quick: 800, Thorough: 12000,
		Rule: "1-3 requests at once, each of which spreads over a tree of up to four hops deep of services behind HTTP (the default, B3, W3C and Cloud formats, some through an uninstrumented proxy, some only after up to three redirects) or gRPC, some of them public endpoints; services start spans, change tags, fail, copy what they were sent to their own calls, and call on in turn or at once; non-trivial with three calls or more over two protocols or formats; race detector"},
		genCase, execMesh)
}
