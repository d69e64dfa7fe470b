package rpc

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"pgregory.net/rapid"
)

// ---- a transparent tap around the handlers under test ----

type rpcLog struct {
	mu         sync.Mutex
	client     bool
	method     string
	began      bool
	sent, recv []int
	wireS      []int
	wireR      []int
	ended      bool
	err        error
	t0, t1     time.Time
	span       trace.SpanContext // made by TagRPC
	in         trace.SpanContext // of the context TagRPC was given
	haveIn     bool
	tagsIn     map[string]string // of that context
	tags       map[string]string // of the context TagRPC made
	failFast   bool
	done       chan struct{}
}

type logKey struct{}

type tap struct {
	h      stats.Handler
	client bool
	own    bool
	mu     sync.Mutex
	log    []*rpcLog
}

func tagsOf(ctx context.Context) map[string]string {
	m := map[string]string{}
	for _, k := range seenKeys {
		if v, ok := tag.FromContext(ctx).Value(k); ok {
			m[k.Name()] = v
		}
	}
	return m
}

func (t *tap) TagRPC(ctx context.Context, i *stats.RPCTagInfo) context.Context {
	l := &rpcLog{client: t.client, method: i.FullMethodName, t0: time.Now(), done: make(chan struct{}), tagsIn: tagsOf(ctx)}
	if sp := trace.FromContext(ctx); sp != nil {
		l.in, l.haveIn = sp.SpanContext(), true
	}
	if !t.client {
		if c, ok := ctx.Value(logKey{}).(*rpcLog); ok && c.client {
			panic("the server's context is the client's")
		}
	}
	ctx = t.h.TagRPC(ctx, i)
	if sp := trace.FromContext(ctx); sp != nil {
		l.span = sp.SpanContext()
	}
	l.tags = tagsOf(ctx)
	t.mu.Lock()
	t.log = append(t.log, l)
	t.mu.Unlock()
	return context.WithValue(ctx, logKey{}, l)
}

func (t *tap) HandleRPC(ctx context.Context, s stats.RPCStats) {
	l := ctx.Value(logKey{}).(*rpcLog)
	l.mu.Lock()
	defer l.mu.Unlock()
	switch e := s.(type) {
	case *stats.Begin:
		l.began, l.failFast = true, e.FailFast
	case *stats.OutPayload:
		if !l.ended {
			l.sent, l.wireS = append(l.sent, e.Length), append(l.wireS, e.WireLength)
		}
	case *stats.InPayload:
		if !l.ended {
			l.recv, l.wireR = append(l.recv, e.Length), append(l.wireR, e.WireLength)
		}
	}
	t.h.HandleRPC(ctx, s)
	if e, ok := s.(*stats.End); ok && !l.ended {
		l.ended, l.err, l.t1 = true, e.Error, time.Now()
		close(l.done)
	}
}

func (t *tap) TagConn(ctx context.Context, i *stats.ConnTagInfo) context.Context {
	if t.own {
		ctx, _ = tag.New(ctx, tag.Upsert(k1, "conn"), tag.Upsert(k3, "conn"), tag.Upsert(ocgrpc.KeyServerMethod, "conn"))
	}
	return t.h.TagConn(ctx, i)
}
func (t *tap) HandleConn(ctx context.Context, s stats.ConnStats) { t.h.HandleConn(ctx, s) }

func (t *tap) take() []*rpcLog {
	t.mu.Lock()
	defer t.mu.Unlock()
	l := t.log
	t.log = nil
	return l
}

// ---- servers and connections, made when first needed ----

type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte(nil), b...)
	return nil
}
func (rawCodec) Name() string   { return "verifraw" }
func (rawCodec) String() string { return "verifraw" }

type srvKey struct {
	public  bool
	sampler int
	own     bool // the connections' contexts have tags of their own
}

type connKey struct {
	srv     srvKey
	sampler int
	plain   bool
}

type server struct {
	tap *tap
	l   *bufconn.Listener
}

type conn struct {
	tap *tap
	cc  *grpc.ClientConn
}

var (
	mu      sync.Mutex
	srvs    = map[srvKey]*server{}
	conns   = map[connKey]*conn{}
	scripts sync.Map // id -> func(grpc.ServerStream) error
	nextID  atomic.Int64
)

func samplerOf(n int) trace.Sampler {
	switch n {
	case 1:
		return trace.AlwaysSample()
	case 2:
		return trace.NeverSample()
	}
	return nil
}

func serverFor(k srvKey) *server {
	if s := srvs[k]; s != nil {
		return s
	}
	s := &server{tap: &tap{own: k.own, h: &ocgrpc.ServerHandler{IsPublicEndpoint: k.public, StartOptions: trace.StartOptions{Sampler: samplerOf(k.sampler), SpanKind: trace.SpanKindClient}}}, l: bufconn.Listen(1 << 20)}
	g := grpc.NewServer(grpc.StatsHandler(s.tap), grpc.CustomCodec(rawCodec{}), grpc.UnknownServiceHandler(func(_ interface{}, st grpc.ServerStream) error {
		md, _ := metadata.FromIncomingContext(st.Context())
		if v := md.Get("verif-case"); len(v) == 1 {
			if f, ok := scripts.Load(v[0]); ok {
				return f.(func(grpc.ServerStream) error)(st)
			}
		}
		return status.Error(codes.Internal, "verif: no such case")
	}))
	go g.Serve(s.l)
	srvs[k] = s
	return s
}

func connFor(k connKey) (*conn, *server) {
	mu.Lock()
	defer mu.Unlock()
	s := serverFor(k.srv)
	if c := conns[k]; c != nil {
		return c, s
	}
	c := &conn{}
	opts := []grpc.DialOption{grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.ForceCodec(rawCodec{})), grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return s.l.Dial() })}
	if !k.plain {
		c.tap = &tap{client: true, h: &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: samplerOf(k.sampler), SpanKind: trace.SpanKindServer}}}
		opts = append(opts, grpc.WithStatsHandler(c.tap))
	}
	cc, err := grpc.Dial("passthrough:///verif", opts...)
	if err != nil {
		panic(err)
	}
	c.cc = cc
	conns[k] = c
	return c, s
}

func takeAll() (l []*rpcLog) {
	mu.Lock()
	defer mu.Unlock()
	for _, s := range srvs {
		l = append(l, s.tap.take()...)
	}
	for _, c := range conns {
		if c.tap != nil {
			l = append(l, c.tap.take()...)
		}
	}
	return l
}

// ---- cases ----

var (
	k1, k2, k3 = tag.MustNewKey("verif.k1"), tag.MustNewKey("verif.k2"), tag.MustNewKey("verif.k3")
	allKeys    = []tag.Key{k1, k2, k3, ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus, ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus}
	seenKeys   []tag.Key // allKeys and the user's
	userKeys   = []tag.Key{k1, k2, k3, ocgrpc.KeyServerMethod, ocgrpc.KeyClientMethod}
	spans      = &obs.Spans{}
)

func init() {
	trace.RegisterExporter(spans)
	seenKeys = append(seenKeys, allKeys...)
	for i := 0; i < 30; i++ {
		k := tag.MustNewKey(fmt.Sprintf("verif.more%02d%s", i, strings.Repeat("k", i*7)))
		userKeys, seenKeys = append(userKeys, k), append(seenKeys, k)
	}
}

// TagSet is a tag put into the context.
type TagSet struct {
	Key  int
	V    S
	Keep bool // not propagated
}

// Hop is one RPC; the next one is made inside its handler.
type Hop struct {
	Method   S
	Public   bool
	Own      bool // the server's contexts have tags of their own
	Server   int  // samplers
	Client   int
	Plain    bool // the client is not instrumented and sends the headers below
	TraceBin S
	TagsBin  S
	NoTags   bool
	NoTrace  bool
	Forward  int // an instrumented client's metadata has the headers it was sent already: 1 set, 2 appended
	Tags     []TagSet
	Root     int // 0 use the caller's context, 1 new sampled span, 2 new unsampled span
	Send     []int
	Reply    []int
	PingPong bool
	Gzip     bool
	ReadN    int // the server reads that many messages before it replies
	Code     int
	Msg      S
	Cancel   int // the client cancels after that many replies; -1 never
	Wait     bool
}

// Case is a chain of hops.
type Case struct {
	Hops    []Hop
	Default int
	State   bool
}

var methods = []S{"/verif.Svc/Method", "/verif.Svc/Method", "/a.B/C", "/a/b/c/d", "//x/y", "/caf\u00e9.S/M", S("/p.S/" + strings.Repeat("m", 300)), S("/p.S/" + strings.Repeat("m", 251)), S("/p.S/" + strings.Repeat("m", 252))}

// genMethod also makes long names that differ only at their end.
func genMethod(t *rapid.T) S {
	if OneIn(t, "common", 3) {
		return rapid.SampledFrom(methods).Draw(t, "method")
	}
	svc := Pick[S](t, "service", "/verif.Svc/", "/p.S/", "/verif.Other/", "")
	if svc == "" {
		svc = S("/" + string(rune('!'+Int(t, "first", 0, '~'-'!'))) + "S/")
	}
	return svc + S(strings.Repeat("m", Pick(t, "length", 0, 1, 7, 29, 61, 125, 240))) + Pick[S](t, "tail", "A", "B", "C", "a/b")
}

func genSizes(t *rapid.T, label string, max int) []int {
	return Slice(t, label, 0, max, func(t *rapid.T) int { return Pick(t, "size", 0, 1, 5, 100, 1023, 1024, 3000, 20000) })
}

func genTags(t *rapid.T) []TagSet {
	most, last := 4, 4
	if OneIn(t, "crowd", 10) {
		most, last = 36, len(userKeys)-1
	}
	i, first, fresh := 0, 0, most > 4 && Bool(t, "fresh")
	if fresh { // each key at most once
		i, first = Int(t, "from", 0, last), Pick(t, "least", 0, 9, 17, 31)
	}
	return Slice(t, "tags", first, most, func(t *rapid.T) TagSet {
		if fresh {
			i++
			return TagSet{Key: i % (last + 1), V: Pick[S](t, "v", "a", "b", ""), Keep: OneIn(t, "keep", 3)}
		}
		return TagSet{Key: Int(t, "key", 0, last), V: Pick[S](t, "v", "a", "b", "", "x y~", S(strings.Repeat("v", 255))), Keep: OneIn(t, "keep", 3)}
	})
}

func genHop(t *rapid.T) Hop {
	h := Hop{Method: genMethod(t), Own: OneIn(t, "own", 3), Public: OneIn(t, "public", 3), Server: Int(t, "server", 0, 2), Client: Int(t, "client", 0, 2), Root: Pick(t, "root", 0, 0, 1, 2),
		PingPong: Bool(t, "pingpong"), Gzip: OneIn(t, "gzip", 4), Cancel: -1, ReadN: 100}
	h.Tags = genTags(t)
	h.Send, h.Reply = genSizes(t, "send", 5), genSizes(t, "reply", 5)
	if OneIn(t, "many", 20) {
		h.Send = append(h.Send, make([]int, Int(t, "extra", 1, 40))...)
	}
	if OneIn(t, "partial", 4) {
		h.ReadN = Int(t, "readn", 0, 3)
	}
	if OneIn(t, "failing", 2) {
		h.Code = Pick(t, "code", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 99)
		h.Msg = Pick[S](t, "msg", "", "went wrong", "\u00fc%\x01")
	}
	if OneIn(t, "cancelled", 8) {
		h.Cancel, h.Wait = Int(t, "cancel", 0, len(h.Reply)), true
		h.PingPong = false
	}
	if OneIn(t, "plain", 4) {
		h.Plain = true
		h.NoTags, h.NoTrace = OneIn(t, "notags", 3), OneIn(t, "notrace", 3)
		h.TraceBin, h.TagsBin = S(genTraceBin(t)), S(genTagsBin(t))
	} else if h.Forward = Pick(t, "forward", 0, 0, 1, 2); h.Forward > 0 {
		h.TraceBin, h.TagsBin = S(genTraceBin(t)), S(genTagsBin(t))
	}
	return h
}

func genTraceBin(t *rapid.T) []byte {
	var sc trace.SpanContext
	for i := range sc.TraceID {
		sc.TraceID[i] = byte(Int(t, "id", 0, 255))
	}
	copy(sc.SpanID[:], sc.TraceID[4:])
	sc.TraceOptions = trace.TraceOptions(Int(t, "opts", 0, 1))
	b := propagation.Binary(sc)
	return mangle(t, b)
}

func genTagsBin(t *rapid.T) []byte {
	ctx, err := tag.New(context.Background(), muts(genTags(t))...)
	if err != nil {
		return nil
	}
	return mangle(t, tag.Encode(tag.FromContext(ctx)))
}

func mangle(t *rapid.T, b []byte) []byte {
	switch Int(t, "mangle", 0, 7) {
	case 0:
		b = b[:Int(t, "cut", 0, len(b))]
	case 1:
		if len(b) > 0 {
			b[Int(t, "at", 0, len(b)-1)] = byte(Int(t, "byte", 0, 255))
		}
	case 2:
		b = append(b, byte(Int(t, "more", 0, 255)))
	}
	return b
}

func muts(l []TagSet) (ms []tag.Mutator) {
	for _, x := range l {
		if x.Keep {
			ms = append(ms, tag.Upsert(userKeys[x.Key], string(x.V), tag.WithTTL(tag.TTLNoPropagation)))
		} else {
			ms = append(ms, tag.Upsert(userKeys[x.Key], string(x.V), tag.WithTTL(tag.TTLUnlimitedPropagation)))
		}
	}
	return
}

func genCase(t *rapid.T) Case {
	c := Case{Hops: Slice(t, "hops", 1, 3, genHop), Default: Int(t, "default", 1, 2), State: Bool(t, "state")}
	for i, h := range c.Hops {
		if h.Cancel >= 0 { // it is the last
			c.Hops = c.Hops[:i+1]
			break
		}
	}
	return c
}

func buf(n int) *[]byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return &b
}

// hopLog is what the applications at both ends know about one hop.
type hopLog struct {
	h          Hop
	callerSpan trace.SpanContext
	haveCaller bool
	callerTags map[string]string // tags of the caller's context
	keep       map[string]bool   // those that stay
	reached    bool
	handlerSC  trace.SpanContext
	handlerTag map[string]string
	handlerErr error
	clientErr  error
	cSent      []int
	cRecv      []int
	sSent      []int
	sRecv      []int
	clean      bool // nothing was cut short on either side
	full       string
	lost       string // metadata of the application that did not arrive
	cl, sv     *rpcLog
}

type tagVal struct {
	v    string
	keep bool
}

// call makes hop i from ctx. What the handler does is part of it.
func (c *Case) call(ctx context.Context, tags map[string]tagVal, i int, suffix string, out []*hopLog) error {
	h := c.Hops[i]
	l := out[i]
	l.h = h
	ctx, err := tag.New(ctx, muts(h.Tags)...)
	if err != nil {
		return Errf("tags: %v", err)
	}
	nt := map[string]tagVal{}
	for k, v := range tags {
		nt[k] = v
	}
	for _, x := range h.Tags {
		nt[userKeys[x.Key].Name()] = tagVal{string(x.V), x.Keep}
	}
	l.callerTags = map[string]string{}
	for k, v := range nt {
		l.callerTags[k] = v.v
	}
	var root *trace.Span
	switch h.Root {
	case 1:
		ctx, root = trace.StartSpan(ctx, "root", trace.WithSampler(trace.AlwaysSample()))
	case 2:
		ctx, root = trace.StartSpan(ctx, "root", trace.WithSampler(trace.NeverSample()))
	}
	if sp := trace.FromContext(ctx); sp != nil {
		l.callerSpan, l.haveCaller = sp.SpanContext(), true
	}
	cn, _ := connFor(connKey{srvKey{h.Public, h.Server, h.Own}, h.Client, h.Plain})
	id := fmt.Sprint(nextID.Add(1))
	md := []string{"verif-case", id}
	if h.Plain {
		if !h.NoTrace {
			md = append(md, "grpc-trace-bin", string(h.TraceBin))
		}
		if !h.NoTags {
			md = append(md, "grpc-tags-bin", string(h.TagsBin))
		}
	}
	var fwd []string
	if h.Forward > 0 {
		if in, ok := metadata.FromIncomingContext(ctx); ok {
			for _, k := range []string{"grpc-trace-bin", "grpc-tags-bin", "user-agent", "x-fwd-bin"} {
				for _, v := range in[k] {
					fwd = append(fwd, k, v)
				}
			}
		} else {
			fwd = []string{"grpc-trace-bin", string(h.TraceBin), "grpc-tags-bin", string(h.TagsBin), "x-fwd-bin", "\xff\x00"}
		}
	}
	switch h.Forward {
	case 1:
		ctx = metadata.NewOutgoingContext(ctx, metadata.Pairs(append(md, fwd...)...))
	case 2:
		ctx = metadata.NewOutgoingContext(ctx, metadata.Pairs(md...))
		ctx = metadata.AppendToOutgoingContext(ctx, fwd...)
	default:
		ctx = metadata.NewOutgoingContext(ctx, metadata.Pairs(md...))
	}
	own, _ := metadata.FromOutgoingContext(ctx)
	own = own.Copy()
	delete(own, "grpc-trace-bin")
	delete(own, "grpc-tags-bin")
	delete(own, "user-agent")
	ctx, cancel := context.WithTimeout(ctx, 60*time.Second)
	defer cancel()
	hstart, hdone := make(chan struct{}), make(chan struct{})
	scripts.Store(id, func(st grpc.ServerStream) (err error) {
		defer close(hdone)
		in, _ := metadata.FromIncomingContext(st.Context())
		for k, v := range own { // the metadata of the application arrive as they are
			if fmt.Sprintf("%q", in[k]) != fmt.Sprintf("%q", v) {
				l.lost = fmt.Sprintf("metadata %q arrive as %q, sent were %q", k, in[k], v)
			}
		}
		defer func() { l.handlerErr = err }()
		l.reached = true
		l.handlerTag = tagsOf(st.Context())
		if sp := trace.FromContext(st.Context()); sp != nil {
			l.handlerSC = sp.SpanContext()
		}
		if sl, ok := st.Context().Value(logKey{}).(*rpcLog); ok {
			l.sv = sl
		}
		close(hstart)
		reply := func(n int) error {
			if err := st.SendMsg(buf(n)); err != nil {
				return err
			}
			l.sSent = append(l.sSent, n)
			return nil
		}
		for k := 0; k < h.ReadN; k++ {
			var b []byte
			err := st.RecvMsg(&b)
			if err == io.EOF {
				break
			}
			if err != nil {
				return err
			}
			l.sRecv = append(l.sRecv, len(b))
			if h.PingPong && k < len(h.Reply) {
				if err := reply(h.Reply[k]); err != nil {
					return err
				}
			}
		}
		if i+1 < len(c.Hops) {
			in := map[string]tagVal{}
			for k, v := range l.handlerTag {
				in[k] = tagVal{v, false} // what arrived goes on
			}
			if err := c.call(st.Context(), in, i+1, suffix, out); err != nil {
				return Errf("verif: %v", err)
			}
		}
		if !h.PingPong {
			for _, n := range h.Reply {
				if err := reply(n); err != nil {
					return err
				}
			}
		}
		if h.Wait {
			<-st.Context().Done()
		}
		return status.Error(codes.Code(h.Code), string(h.Msg))
	})
	defer scripts.Delete(id)
	var opts []grpc.CallOption
	if h.Gzip {
		opts = append(opts, grpc.UseCompressor(gzip.Name))
	}
	l.full = string(h.Method) + suffix
	st, err := cn.cc.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true, ClientStreams: true}, l.full, opts...)
	if err != nil {
		return Errf("NewStream: %v", err)
	}
	if cl, ok := st.Context().Value(logKey{}).(*rpcLog); ok && cl.client {
		l.cl = cl
	}
	for _, n := range h.Send {
		if err := st.SendMsg(buf(n)); err != nil {
			break // the status comes from RecvMsg
		}
		l.cSent = append(l.cSent, n)
	}
	st.CloseSend()
	if h.Cancel == 0 {
		select {
		case <-hstart:
		case <-time.After(30 * time.Second):
			return Errf("the handler of %s was never reached", h.Method)
		}
		cancel()
	}
	for {
		var b []byte
		err := st.RecvMsg(&b)
		if err != nil {
			if err != io.EOF {
				l.clientErr = err
			}
			break
		}
		l.cRecv = append(l.cRecv, len(b))
		if h.Cancel > 0 && len(l.cRecv) == h.Cancel {
			cancel()
		}
	}
	wait := func(what string, ch chan struct{}) error {
		select {
		case <-ch:
			return nil
		case <-time.After(30 * time.Second):
			return Errf("%s of %s never ended", what, h.Method)
		}
	}
	if l.cl != nil {
		if err := wait("the client's RPC", l.cl.done); err != nil {
			return err
		}
	}
	if err := wait("the handler", hdone); err != nil {
		return err
	}
	if l.sv != nil {
		if err := wait("the server's RPC", l.sv.done); err != nil {
			return err
		}
	}
	if root != nil {
		root.End()
	}
	if l.handlerErr != nil && strings.HasPrefix(l.handlerErr.Error(), "verif: ") {
		return l.handlerErr
	}
	l.clean = h.Cancel < 0 && h.ReadN >= 100
	return nil
}

func statusName(c codes.Code) string {
	names := []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED",
		"FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}
	if int64(c) < int64(len(names)) {
		return names[c]
	}
	return fmt.Sprintf("CODE_%d", uint32(c))
}

func codeOf(err error) codes.Code {
	if err == nil {
		return codes.OK
	}
	s, _ := status.FromError(err)
	return s.Code()
}

func total(l []int) (n int) {
	for _, x := range l {
		n += x
	}
	return
}

func set(m map[string]string, k tag.Key, v string) {
	if obs.Valid(v) {
		m[k.Name()] = v
	}
}

func copyMap(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// expect is what one side of one RPC must have recorded.
func expect(client bool, base map[string]string, method string, began, ended bool, err error, sent, recv []int, dur time.Duration) (l []obs.Meas) {
	m := copyMap(base)
	name := strings.TrimLeft(method, "/")
	if client {
		set(m, ocgrpc.KeyClientMethod, name)
		if began {
			l = append(l, obs.Meas{Name: ocgrpc.ClientStartedRPCs.Name(), V: 1, Tags: copyMap(m)})
		}
		if !ended {
			return
		}
		set(m, ocgrpc.KeyClientStatus, statusName(codeOf(err)))
		return append(l, obs.Meas{Name: ocgrpc.ClientSentBytesPerRPC.Name(), V: float64(total(sent)), Tags: m}, obs.Meas{Name: ocgrpc.ClientSentMessagesPerRPC.Name(), V: float64(len(sent)), Tags: m},
			obs.Meas{Name: ocgrpc.ClientReceivedBytesPerRPC.Name(), V: float64(total(recv)), Tags: m}, obs.Meas{Name: ocgrpc.ClientReceivedMessagesPerRPC.Name(), V: float64(len(recv)), Tags: m},
			obs.Meas{Name: ocgrpc.ClientRoundtripLatency.Name(), Any: true, Max: float64(dur) / 1e6, Tags: m})
	}
	set(m, ocgrpc.KeyServerMethod, name)
	if began {
		l = append(l, obs.Meas{Name: ocgrpc.ServerStartedRPCs.Name(), V: 1, Tags: copyMap(m)})
	}
	if !ended {
		return
	}
	set(m, ocgrpc.KeyServerStatus, statusName(codeOf(err)))
	return append(l, obs.Meas{Name: ocgrpc.ServerSentBytesPerRPC.Name(), V: float64(total(sent)), Tags: m}, obs.Meas{Name: ocgrpc.ServerSentMessagesPerRPC.Name(), V: float64(len(sent)), Tags: m},
		obs.Meas{Name: ocgrpc.ServerReceivedBytesPerRPC.Name(), V: float64(total(recv)), Tags: m}, obs.Meas{Name: ocgrpc.ServerReceivedMessagesPerRPC.Name(), V: float64(len(recv)), Tags: m},
		obs.Meas{Name: ocgrpc.ServerLatency.Name(), Any: true, Max: float64(dur) / 1e6, Tags: m})
}

var views = []*view.View{
	obs.Probe("verif/", ocgrpc.ClientStartedRPCs, allKeys...), obs.Probe("verif/", ocgrpc.ClientSentBytesPerRPC, allKeys...), obs.Probe("verif/", ocgrpc.ClientSentMessagesPerRPC, allKeys...),
	obs.Probe("verif/", ocgrpc.ClientReceivedBytesPerRPC, allKeys...), obs.Probe("verif/", ocgrpc.ClientReceivedMessagesPerRPC, allKeys...), obs.Probe("verif/", ocgrpc.ClientRoundtripLatency, allKeys...),
	obs.Probe("verif/", ocgrpc.ServerStartedRPCs, allKeys...), obs.Probe("verif/", ocgrpc.ServerSentBytesPerRPC, allKeys...), obs.Probe("verif/", ocgrpc.ServerSentMessagesPerRPC, allKeys...),
	obs.Probe("verif/", ocgrpc.ServerReceivedBytesPerRPC, allKeys...), obs.Probe("verif/", ocgrpc.ServerReceivedMessagesPerRPC, allKeys...), obs.Probe("verif/", ocgrpc.ServerLatency, allKeys...),
	ocgrpc.ClientSentBytesPerRPCView, ocgrpc.ClientReceivedBytesPerRPCView, ocgrpc.ClientRoundtripLatencyView, ocgrpc.ClientCompletedRPCsView, ocgrpc.ClientStartedRPCsView,
	ocgrpc.ClientSentMessagesPerRPCView, ocgrpc.ClientReceivedMessagesPerRPCView,
	ocgrpc.ServerReceivedBytesPerRPCView, ocgrpc.ServerSentBytesPerRPCView, ocgrpc.ServerLatencyView, ocgrpc.ServerCompletedRPCsView, ocgrpc.ServerStartedRPCsView,
	ocgrpc.ServerReceivedMessagesPerRPCView, ocgrpc.ServerSentMessagesPerRPCView,
}

// arriving is the tags a hop's server gets: those of the caller that
// propagate, or whatever a plain client sent and can be decoded.
func (l *hopLog) arriving(prev map[string]tagVal) map[string]string {
	m := map[string]string{}
	if l.h.Plain {
		if l.h.NoTags || len(l.h.TagsBin) == 0 {
			return m
		}
		tm, err := tag.Decode([]byte(l.h.TagsBin))
		if err != nil || tm == nil {
			return m
		}
		return tagsOf(tag.NewContext(context.Background(), tm))
	}
	for k, v := range prev {
		if !v.keep {
			m[k] = v.v
		}
	}
	return m
}

func (c *Case) run(suffix string) ([]*hopLog, error) {
	out := make([]*hopLog, len(c.Hops))
	for i := range out {
		out[i] = &hopLog{}
	}
	ctx := context.Background()
	if c.State {
		ts, err := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "b"})
		if err != nil {
			return nil, err
		}
		var sp *trace.Span
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, "root", trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, Tracestate: ts, TraceOptions: 1}, trace.WithSampler(trace.AlwaysSample()))
		defer sp.End()
	}
	return out, c.call(ctx, map[string]tagVal{}, 0, suffix, out)
}

// tagsAt gives, for every hop, the tags of its caller and those that arrive.
func (c *Case) tagsAt(out []*hopLog) (caller, arrived []map[string]string) {
	cur := map[string]tagVal{}
	for i, h := range c.Hops {
		nt := map[string]tagVal{}
		for k, v := range cur {
			nt[k] = v
		}
		for _, x := range h.Tags {
			nt[userKeys[x.Key].Name()] = tagVal{string(x.V), x.Keep}
		}
		cm := map[string]string{}
		for k, v := range nt {
			cm[k] = v.v
		}
		caller = append(caller, cm)
		a := out[i].arriving(nt)
		arrived = append(arrived, a)
		cur = map[string]tagVal{}
		for k, v := range a {
			cur[k] = tagVal{v, false}
		}
		if n := strings.TrimLeft(out[i].full, "/"); obs.Valid(n) {
			cur[ocgrpc.KeyServerMethod.Name()] = tagVal{n, false}
		}
	}
	return
}

func prepare(c Case) error {
	takeAll()
	spans.Take()
	if c.Default == 1 {
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	} else {
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	}
	return nil
}

func (c *Case) expected(out []*hopLog) (exp []obs.Meas, err error) {
	caller, arrived := c.tagsAt(out)
	for i, l := range out {
		if l.cl != nil {
			x := l.cl
			if l.clean && l.reached && l.sv != nil {
				if fmt.Sprint(x.sent) != fmt.Sprint(l.cSent) || fmt.Sprint(x.recv) != fmt.Sprint(l.cRecv) || codeOf(x.err) != codeOf(l.clientErr) {
					return nil, Errf("harness: hop %d client sent %v %v received %v %v status %v %v", i, l.cSent, x.sent, l.cRecv, x.recv, l.clientErr, x.err)
				}
			}
			exp = append(exp, expect(true, caller[i], l.full, x.began, x.ended, x.err, x.sent, x.recv, x.t1.Sub(x.t0))...)
		}
		if l.sv != nil {
			x := l.sv
			if l.clean && (fmt.Sprint(x.sent) != fmt.Sprint(l.sSent) || fmt.Sprint(x.recv) != fmt.Sprint(l.sRecv) || codeOf(x.err) != codeOf(l.handlerErr)) {
				return nil, Errf("harness: hop %d server sent %v %v received %v %v status %v %v", i, l.sSent, x.sent, l.sRecv, x.recv, l.handlerErr, x.err)
			}
			exp = append(exp, expect(false, arrived[i], l.full, x.began, x.ended, x.err, x.sent, x.recv, x.t1.Sub(x.t0))...)
		}
	}
	return exp, nil
}

func classes(cx *Ctx, c Case, out []*hopLog) {
	for i, l := range out {
		if !l.reached {
			cx.Class("not-reached")
			continue
		}
		cx.ClassIf(i > 0, "nested")
		cx.ClassIf(l.h.Plain, "plain-client")
		cx.ClassIf(l.h.Forward > 0, "forwarded")
		cx.ClassIf(l.h.Public, "public")
		cx.ClassIf(l.h.Cancel >= 0, "cancelled")
		cx.ClassIf(l.h.Code != 0, "failing")
		cx.ClassIf(l.h.Gzip, "gzip")
	}
}

func execG01(cx *Ctx, c Case) error {
	if err := obs.CheckDocs(viewDocs); err != nil {
		return err
	}
	if err := prepare(c); err != nil {
		return err
	}
	if err := obs.Reset(views); err != nil {
		return err
	}
	out, err := c.run("")
	if err != nil {
		return err
	}
	exp, err := c.expected(out)
	if err != nil {
		return err
	}
	if err := obs.CheckAll(views, exp); err != nil {
		return err
	}
	if err := exemplars(cx, out); err != nil {
		return err
	}
	classes(cx, c, out)
	cx.NonTrivial(len(c.Hops[0].Send)+len(c.Hops[0].Reply) > 1)
	return nil
}

// exemplars checks that the exemplars of distributions name the spans of RPCs
// that have the exemplar's value.
func exemplars(cx *Ctx, out []*hopLog) error {
	for _, v := range views {
		if v.Aggregation.Type != view.AggTypeDistribution || len(v.Aggregation.Buckets) == 0 || v.Measure.Unit() == "ms" {
			continue
		}
		rows, err := view.RetrieveData(v.Name)
		if err != nil {
			return err
		}
		for _, r := range rows {
			for _, x := range r.Data.(*view.DistributionData).ExemplarsPerBucket {
				if x == nil {
					continue
				}
				sc, have := x.Attachments[metricdata.AttachmentKeySpanContext].(trace.SpanContext)
				ok := false
				for _, o := range out {
					l := o.sv
					if strings.Contains(v.Name, "/client/") {
						l = o.cl
					}
					if l == nil {
						continue
					}
					n := 0
					switch v.Measure {
					case ocgrpc.ClientSentBytesPerRPC, ocgrpc.ServerSentBytesPerRPC:
						n = total(l.sent)
					case ocgrpc.ClientReceivedBytesPerRPC, ocgrpc.ServerReceivedBytesPerRPC:
						n = total(l.recv)
					case ocgrpc.ClientSentMessagesPerRPC, ocgrpc.ServerSentMessagesPerRPC:
						n = len(l.sent)
					case ocgrpc.ClientReceivedMessagesPerRPC, ocgrpc.ServerReceivedMessagesPerRPC:
						n = len(l.recv)
					}
					ok = ok || float64(n) == x.Value && l.span.IsSampled() == have && (!have || sc.SpanID == l.span.SpanID && sc.TraceID == l.span.TraceID)
				}
				if !ok {
					return Errf("view %s has the exemplar %+v, which matches no RPC", v.Name, x)
				}
				cx.ClassIf(have, "exemplar")
			}
		}
	}
	return nil
}

func TestG01(t *testing.T) {
	Check(t, "G01", "rpc", Opts{Quick: 2500, Thorough: 30000,
		Rule: "chains of 1-3 streaming RPCs over in-memory connections, with up to 45 messages of 0 to 20000 bytes each way, compression, partial reads, cancellation, every status code, odd method names, and tags; non-trivial with more than one message in the first hop"},
		genCase, execG01)
	Check(t, "G01", "events", Opts{Quick: 4000, Thorough: 50000,
		Rule: "sequences of TagRPC and HandleRPC calls on a client and a server handler, of up to 5 interleaved RPCs, with any status, and events of contexts that were never tagged; non-trivial with more than one RPC"},
		genEvents, execEvents)
	Check(t, "G01", "parallel", Opts{Quick: 1500, Thorough: 20000,
		Rule: "1-4 rounds of 1-4 RPCs at once, the up to 4000 messages of each reported from up to 4 goroutines, and some after the RPC's end; non-trivial with more than one RPC"},
		genPar, execPar)
}

func execG02(cx *Ctx, c Case) error {
	if err := prepare(c); err != nil {
		return err
	}
	out, err := c.run("")
	if err != nil {
		return err
	}
	caller, arrived := c.tagsAt(out)
	for i, l := range out {
		if l.cl != nil && fmt.Sprint(l.cl.tags) != fmt.Sprint(caller[i]) {
			return Errf("hop %d: the client's context has the tags %v, the caller's has %v", i, l.cl.tags, caller[i])
		}
		if l.lost != "" {
			return Errf("hop %d: %s", i, l.lost)
		}
		if !l.reached {
			continue
		}
		want := copyMap(arrived[i])
		set(want, ocgrpc.KeyServerMethod, strings.TrimLeft(l.full, "/"))
		if fmt.Sprint(l.handlerTag) != fmt.Sprint(want) {
			return Errf("hop %d: the handler's context has the tags %v, want %v", i, l.handlerTag, want)
		}
		cx.ClassIf(len(arrived[i]) > 1, "several-tags")
	}
	classes(cx, c, out)
	cx.NonTrivial(len(c.Hops[0].Tags) > 0)
	return nil
}

func TestG02(t *testing.T) {
	Check(t, "G02", "tags", Opts{Quick: 2500, Thorough: 30000,
		Rule: "the chains of G01: the tags of every caller's and every handler's context compared with a model of what propagates; plain clients send encoded tag sets, a third of them damaged; non-trivial when the first hop sets a tag"},
		genCase, execG02)
}

func decide(sampler int, parent bool, root bool, def int) bool {
	switch sampler {
	case 1:
		return true
	case 2:
		return false
	}
	if root {
		return def == 1
	}
	return parent
}

type wantSpan struct {
	what    string
	sc      trace.SpanContext
	sampled bool
	isRoot  bool
	parent  trace.SpanID
	remote  bool
	kind    int
	link    *trace.SpanContext
	log     *rpcLog
	name    string
}

// spanModel checks the span contexts on both sides and gives what is exported.
func (c *Case) spanModel(out []*hopLog) (l []wantSpan, err error) {
	for i, o := range out {
		name := strings.Replace(strings.TrimPrefix(o.full, "/"), "/", ".", -1)
		var sent trace.SpanContext
		have := false
		if o.cl != nil {
			sc := o.cl.span
			w := wantSpan{what: fmt.Sprintf("client span of hop %d", i), sc: sc, isRoot: !o.haveCaller, parent: o.callerSpan.SpanID, kind: trace.SpanKindClient, log: o.cl, name: name}
			w.sampled = decide(o.h.Client, o.callerSpan.IsSampled(), !o.haveCaller, c.Default)
			if o.haveCaller && (sc.TraceID != o.callerSpan.TraceID || sc.SpanID == o.callerSpan.SpanID) {
				return nil, Errf("hop %d: the client span %v is not a child of the caller's %v", i, sc, o.callerSpan)
			}
			if sc.IsSampled() != w.sampled {
				return nil, Errf("hop %d: client span sampled %v, want %v", i, sc.IsSampled(), w.sampled)
			}
			l = append(l, w)
			sent, have = sc, true
		} else if o.h.Plain && !o.h.NoTrace {
			sent, have = propagation.FromBinary([]byte(o.h.TraceBin))
		}
		if o.sv == nil {
			continue
		}
		sc := o.sv.span
		if o.handlerSC.SpanID != sc.SpanID || o.handlerSC.TraceID != sc.TraceID {
			return nil, Errf("hop %d: the handler's context has the span %v, TagRPC made %v", i, o.handlerSC, sc)
		}
		w := wantSpan{what: fmt.Sprintf("server span of hop %d", i), sc: sc, kind: trace.SpanKindServer, log: o.sv, name: name}
		if have && !o.h.Public {
			w.parent, w.remote = sent.SpanID, true
			w.sampled = decide(o.h.Server, sent.IsSampled(), false, c.Default)
			if o.h.Server == 0 { // the default sampler judges remote parents
				w.sampled = c.Default == 1
			}
			if sc.TraceID != sent.TraceID {
				return nil, Errf("hop %d: the server span is in trace %v, the client's in %v", i, sc.TraceID, sent.TraceID)
			}
		} else {
			w.isRoot = true
			w.sampled = decide(o.h.Server, false, true, c.Default)
			if have {
				s := sent
				w.link = &s
				if sc.TraceID == sent.TraceID {
					return nil, Errf("hop %d: a public endpoint joined the client's trace", i)
				}
			}
		}
		if sc.IsSampled() != w.sampled {
			return nil, Errf("hop %d: server span sampled %v, want %v (client %v, default %d)", i, sc.IsSampled(), w.sampled, sent.IsSampled(), c.Default)
		}
		l = append(l, w)
	}
	return l, nil
}

func runSpans(cx *Ctx, c Case, contents bool) error {
	if err := prepare(c); err != nil {
		return err
	}
	out, err := c.run("")
	if err != nil {
		return err
	}
	want, err := c.spanModel(out)
	if err != nil {
		return err
	}
	if err := judgeSpans(want, contents); err != nil {
		return err
	}
	classes(cx, c, out)
	if contents {
		cx.NonTrivial(len(c.Hops[0].Send)+len(c.Hops[0].Reply) > 1)
	} else {
		cx.NonTrivial(len(c.Hops) > 1)
	}
	return nil
}

func judgeSpans(want []wantSpan, contents bool) error {
	got := map[trace.SpanID]*trace.SpanData{}
	for _, d := range spans.Take() {
		if d.Name == "root" {
			continue
		}
		if got[d.SpanID] != nil {
			return Errf("span %q ended twice", d.Name)
		}
		got[d.SpanID] = d
	}
	for _, w := range want {
		d := got[w.sc.SpanID]
		delete(got, w.sc.SpanID)
		if (d != nil) != (w.sampled && w.log.ended) {
			return Errf("%s: exported %v, sampled %v", w.what, d != nil, w.sampled)
		}
		if d == nil {
			continue
		}
		if !contents {
			p := w.parent
			if w.isRoot {
				p = trace.SpanID{}
			}
			if d.ParentSpanID != p || d.HasRemoteParent != w.remote || d.TraceID != w.sc.TraceID {
				return Errf("%s: parent %v remote %v, want %v remote %v", w.what, d.ParentSpanID, d.HasRemoteParent, p, w.remote)
			}
			if (w.link != nil) != (len(d.Links) == 1) || w.link != nil && (d.Links[0].TraceID != w.link.TraceID || d.Links[0].SpanID != w.link.SpanID || d.Links[0].Type != trace.LinkTypeParent) {
				return Errf("%s: links %v, want %v", w.what, d.Links, w.link)
			}
			continue
		}
		if d.Name != w.name || d.SpanKind != w.kind {
			return Errf("%s: name %q kind %d, want %q kind %d", w.what, d.Name, d.SpanKind, w.name, w.kind)
		}
		if fmt.Sprint(d.Attributes) != fmt.Sprint(map[string]interface{}{"Client": w.log.client, "FailFast": w.log.failFast}) {
			return Errf("%s: attributes %v", w.what, d.Attributes)
		}
		var code codes.Code
		msg := ""
		if w.log.err != nil {
			s, _ := status.FromError(w.log.err)
			code, msg = s.Code(), s.Message()
		}
		if d.Status.Code != int32(code) || d.Status.Message != msg {
			return Errf("%s: status %v, want %v %q", w.what, d.Status, code, msg)
		}
		var events []string
		s, r := 0, 0
		for _, e := range d.MessageEvents {
			if e.EventType == trace.MessageEventTypeSent {
				s++
			} else {
				r++
			}
			events = append(events, fmt.Sprint(e.EventType, e.UncompressedByteSize, e.CompressedByteSize))
		}
		sl, rl := w.log.sent, w.log.recv
		if d.DroppedMessageEventCount != max(0, len(sl)+len(rl)-trace.DefaultMaxMessageEventsPerSpan) || s+r != min(len(sl)+len(rl), trace.DefaultMaxMessageEventsPerSpan) {
			return Errf("%s: %d events kept, %d dropped; the RPC sent %d and received %d", w.what, s+r, d.DroppedMessageEventCount, len(sl), len(rl))
		}
		if d.DroppedMessageEventCount == 0 {
			si, ri := 0, 0
			for _, e := range d.MessageEvents {
				var n, wire int
				if e.EventType == trace.MessageEventTypeSent {
					n, wire = sl[si], w.log.wireS[si]
					si++
				} else {
					n, wire = rl[ri], w.log.wireR[ri]
					ri++
				}
				if e.UncompressedByteSize != int64(n) || e.CompressedByteSize != int64(wire) {
					return Errf("%s: message events %v; the RPC sent %v (%v on the wire) and received %v (%v)", w.what, events, sl, w.log.wireS, rl, w.log.wireR)
				}
			}
			if si != len(sl) || ri != len(rl) {
				return Errf("%s: %d sent and %d received events, want %d and %d", w.what, si, ri, len(sl), len(rl))
			}
		}
		if d.StartTime.Before(w.log.t0) || d.EndTime.Before(d.StartTime) || d.EndTime.After(w.log.t1) {
			return Errf("%s lasts from %v to %v, the RPC from %v to %v", w.what, d.StartTime, d.EndTime, w.log.t0, w.log.t1)
		}
	}
	for _, d := range got {
		return Errf("an unexpected span %q was exported", d.Name)
	}
	return nil
}

func TestG03(t *testing.T) {
	Check(t, "G03", "propagation", Opts{Quick: 2500, Thorough: 30000,
		Rule: "the chains of G01 with public and other servers, all combinations of samplers and defaults, plain clients sending whole, damaged or no trace headers; non-trivial with several hops"},
		genCase, func(cx *Ctx, c Case) error { return runSpans(cx, c, false) })
}

func TestG04(t *testing.T) {
	Check(t, "G04", "spans", Opts{Quick: 2500, Thorough: 30000,
		Rule: "the chains of G01: every exported span compared with the events of its RPC; non-trivial with more than one message in the first hop"},
		genCase, func(cx *Ctx, c Case) error {
			// the codes by their names are those of gRPC
			for i, n := range []int{trace.StatusCodeOK, trace.StatusCodeCancelled, trace.StatusCodeUnknown, trace.StatusCodeInvalidArgument, trace.StatusCodeDeadlineExceeded,
				trace.StatusCodeNotFound, trace.StatusCodeAlreadyExists, trace.StatusCodePermissionDenied, trace.StatusCodeResourceExhausted, trace.StatusCodeFailedPrecondition,
				trace.StatusCodeAborted, trace.StatusCodeOutOfRange, trace.StatusCodeUnimplemented, trace.StatusCodeInternal, trace.StatusCodeUnavailable, trace.StatusCodeDataLoss, trace.StatusCodeUnauthenticated} {
				if n != i {
					return Errf("the status code %v is %d, want %d", codes.Code(i), n, i)
				}
			}
			return runSpans(cx, c, true)
		})
}

// ---- G05: concurrent RPCs ----

// ManyCase is a number of chains started at once.
type ManyCase struct {
	Cases   []Case
	Default int
}

func genMany(t *rapid.T) ManyCase {
	m := ManyCase{Cases: Slice(t, "cases", 2, 8, genCase), Default: Int(t, "default", 1, 2)}
	for i := range m.Cases {
		for j := range m.Cases[i].Hops {
			m.Cases[i].Hops[j].Cancel, m.Cases[i].Hops[j].Wait = -1, false
		}
		m.Cases[i].Default = m.Default
	}
	return m
}

func execG05(cx *Ctx, m ManyCase) error {
	if err := prepare(Case{Default: m.Default}); err != nil {
		return err
	}
	if err := obs.Reset(views); err != nil {
		return err
	}
	outs := make([][]*hopLog, len(m.Cases))
	errs := make([]error, len(m.Cases))
	var wg sync.WaitGroup
	for i := range m.Cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i], errs[i] = m.Cases[i].run(fmt.Sprint("/", i))
		}()
	}
	wg.Wait()
	var exp []obs.Meas
	var want []wantSpan
	for i := range m.Cases {
		if errs[i] != nil {
			return errs[i]
		}
		e, err := m.Cases[i].expected(outs[i])
		if err != nil {
			return err
		}
		exp = append(exp, e...)
		w, err := m.Cases[i].spanModel(outs[i])
		if err != nil {
			return err
		}
		want = append(want, w...)
		for j, l := range outs[i] {
			_, arrived := m.Cases[i].tagsAt(outs[i])
			t := copyMap(arrived[j])
			set(t, ocgrpc.KeyServerMethod, strings.TrimLeft(l.full, "/"))
			if l.reached && fmt.Sprint(l.handlerTag) != fmt.Sprint(t) {
				return Errf("chain %d hop %d: the handler's context has the tags %v, want %v", i, j, l.handlerTag, t)
			}
		}
	}
	if err := obs.CheckAll(views, exp); err != nil {
		return err
	}
	if err := judgeSpans(want, true); err != nil {
		return err
	}
	cx.NonTrivial(len(m.Cases) > 2)
	cx.Class("chains-%d", len(m.Cases))
	return nil
}

func TestG05(t *testing.T) {
	Check(t, "G05", "concurrent", Opts{Quick: 500, Thorough: 6000,
		Rule: "2-8 chains as for G01 (without cancellation) at once over shared connections, under the race detector; non-trivial with more than two"},
		genMany, execG05)
	Check(t, "G05", "parallel", Opts{Quick: 500, Thorough: 6000,
		Rule: "1-4 rounds of 1-4 RPCs at once, the up to 4000 messages of each reported from up to 4 goroutines, and some after the RPC's end; non-trivial with more than one RPC"},
		genPar, execPar)
	Check(t, "G05", "crowd", Opts{Quick: 80, Thorough: 2500,
		Rule: "2-8 callers that each make 10-120 calls of one method, tags, sizes and outcome as fast as they can, straight from one client handler to one server handler; non-trivial with more than 10 calls each"},
		genCrowd, execCrowd)
}
