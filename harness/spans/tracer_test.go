package spans

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// DOp is a call of the package's functions or of a span.
type DOp struct {
	Op    string
	Ctx   int // index of a context, modulo their number
	Span  int // the same for spans; the first is nil
	Name  S
	SC    [3]byte
	Kind  int
	Ints  [3]int64
	Attrs []string
	Rec   bool // for made spans: do they record
}

// DCase is a history of calls with a tracer of the user's own.
type DCase struct{ Ops []DOp }

var delegateOps = []string{"start", "start", "start", "remote", "from", "new", "made", "made", "name", "status", "attrs", "annotate", "annotatef", "send", "receive", "link", "end", "recording", "sc", "string", "internal"}

func genDelegate(t *rapid.T) DCase {
	return DCase{Slice(t, "ops", 1, 25, func(t *rapid.T) DOp {
		return DOp{
			Op: Pick(t, "op", delegateOps...), Ctx: Int(t, "ctx", 0, 9), Span: Int(t, "span", 0, 9),
			Name: Pick[S](t, "name", "", "a", "%d", "long name", "\xff"), SC: [3]byte{byte(Int(t, "tid", 0, 3)), byte(Int(t, "sid", 0, 3)), byte(Int(t, "opt", 0, 1))},
			Kind: Int(t, "kind", 0, 2), Ints: [3]int64{int64(Int(t, "i", -2, 9)), int64(Int(t, "j", -2, 99)), int64(Int(t, "k", -2, 999))},
			Attrs: Slice(t, "attrs", 0, 3, func(t *rapid.T) string { return Pick(t, "a", "x", "y", "") }), Rec: Bool(t, "rec"),
		}
	})}
}

func (op DOp) context() trace.SpanContext {
	return trace.SpanContext{TraceID: trace.TraceID{15: op.SC[0]}, SpanID: trace.SpanID{7: op.SC[1]}, TraceOptions: trace.TraceOptions(op.SC[2])}
}

func (op DOp) attributes() []trace.Attribute {
	var as []trace.Attribute
	for i, k := range op.Attrs {
		as = append(as, trace.Int64Attribute(k, op.Ints[0]+int64(i)))
	}
	return as
}

func (op DOp) link() trace.Link {
	return trace.Link{TraceID: trace.TraceID{op.SC[0]}, SpanID: trace.SpanID{op.SC[1]}, Type: trace.LinkType(op.Kind), Attributes: map[string]interface{}{string(op.Name): op.Ints[0]}}
}

func (op DOp) status() trace.Status {
	return trace.Status{Code: int32(op.Ints[0]), Message: string(op.Name)}
}

// log is what a tracer and its spans were asked.
type log struct{ calls []string }

func (l *log) add(format string, a ...interface{}) {
	l.calls = append(l.calls, fmt.Sprintf(format, a...))
}

// foreign is a span of the user's own.
type foreign struct {
	l   *log
	id  int
	rec bool
	sc  trace.SpanContext
}

func (s *foreign) IsRecordingEvents() bool        { return s.rec }
func (s *foreign) End()                           { s.l.add("%d.End", s.id) }
func (s *foreign) SpanContext() trace.SpanContext { return s.sc }
func (s *foreign) SetName(name string)            { s.l.add("%d.SetName %q", s.id, name) }
func (s *foreign) SetStatus(x trace.Status)       { s.l.add("%d.SetStatus %+v", s.id, x) }
func (s *foreign) AddAttributes(as ...trace.Attribute) {
	s.l.add("%d.AddAttributes %v", s.id, as)
}
func (s *foreign) Annotate(as []trace.Attribute, str string) {
	s.l.add("%d.Annotate %v %q", s.id, as, str)
}
func (s *foreign) Annotatef(as []trace.Attribute, format string, a ...interface{}) {
	s.l.add("%d.Annotatef %v %q %v", s.id, as, format, a)
}
func (s *foreign) AddMessageSendEvent(i, u, c int64) {
	s.l.add("%d.AddMessageSendEvent %d %d %d", s.id, i, u, c)
}
func (s *foreign) AddMessageReceiveEvent(i, u, c int64) {
	s.l.add("%d.AddMessageReceiveEvent %d %d %d", s.id, i, u, c)
}
func (s *foreign) AddLink(l trace.Link) { s.l.add("%d.AddLink %+v", s.id, l) }
func (s *foreign) String() string       { return fmt.Sprintf("span %d", s.id) }

type ownKey struct{}

// own is a tracer of the user's own, with a place of its own in contexts.
type own struct {
	l     *log
	n     int
	spans map[*trace.Span]*foreign
}

func (o *own) span(rec bool, sc trace.SpanContext) *trace.Span {
	o.n++
	f := &foreign{o.l, o.n, rec, sc}
	s := trace.NewSpan(f)
	o.spans[s] = f
	return s
}

func opts(o []trace.StartOption) string {
	var so trace.StartOptions
	for _, f := range o {
		f(&so)
	}
	d := "no sampler"
	if so.Sampler != nil {
		d = fmt.Sprintf("sampler says %v", so.Sampler(trace.SamplingParameters{}).Sample)
	}
	return fmt.Sprintf("%d options: kind %d, %s", len(o), so.SpanKind, d)
}

func (o *own) StartSpan(ctx context.Context, name string, so ...trace.StartOption) (context.Context, *trace.Span) {
	s := o.span(len(name) != 1, trace.SpanContext{SpanID: trace.SpanID{1}})
	o.l.add("StartSpan %v %q %s", ctx.Value(ownKey{}), name, opts(so))
	return context.WithValue(ctx, ownKey{}, s), s
}

func (o *own) StartSpanWithRemoteParent(ctx context.Context, name string, parent trace.SpanContext, so ...trace.StartOption) (context.Context, *trace.Span) {
	s := o.span(len(name) != 1, parent)
	o.l.add("StartSpanWithRemoteParent %v %q %+v %s", ctx.Value(ownKey{}), name, parent, opts(so))
	return context.WithValue(ctx, ownKey{}, s), s
}

func (o *own) FromContext(ctx context.Context) *trace.Span {
	o.l.add("FromContext %v", ctx.Value(ownKey{}))
	s, _ := ctx.Value(ownKey{}).(*trace.Span)
	return s
}

func (o *own) NewContext(ctx context.Context, s *trace.Span) context.Context {
	o.l.add("NewContext %v %v", ctx.Value(ownKey{}), s)
	return context.WithValue(ctx, ownKey{}, s)
}

func execDelegate(cx *Ctx, c DCase) error {
	before := trace.DefaultTracer
	defer func() { trace.DefaultTracer = before }()
	o := &own{l: &log{}, spans: map[*trace.Span]*foreign{}}
	trace.DefaultTracer = o
	ctxs := []context.Context{context.Background()}
	spans := []*trace.Span{nil}
	calls := 0
	for i, op := range c.Ops {
		ctx, s := ctxs[op.Ctx%len(ctxs)], spans[op.Span%len(spans)]
		f := o.spans[s]
		o.l.calls = nil
		want := ""
		as := op.attributes()
		on := func(format string, a ...interface{}) {
			if f != nil && f.rec {
				want = fmt.Sprintf("%d.", f.id) + fmt.Sprintf(format, a...)
				calls++
			}
		}
		at := fmt.Sprintf("op %d %s", i, op.Op)
		var so []trace.StartOption
		optText := "0 options: kind 0, no sampler"
		if op.Kind > 0 {
			so = []trace.StartOption{trace.WithSpanKind(op.Kind), trace.WithSampler(func(trace.SamplingParameters) trace.SamplingDecision {
				return trace.SamplingDecision{Sample: op.Rec}
			})}
			optText = fmt.Sprintf("2 options: kind %d, sampler says %v", op.Kind, op.Rec)
		}
		switch op.Op {
		case "start", "remote":
			var nc context.Context
			var ns *trace.Span
			if op.Op == "start" {
				want = fmt.Sprintf("StartSpan %v %q %s", ctx.Value(ownKey{}), string(op.Name), optText)
				nc, ns = trace.StartSpan(ctx, string(op.Name), so...)
			} else {
				want = fmt.Sprintf("StartSpanWithRemoteParent %v %q %+v %s", ctx.Value(ownKey{}), string(op.Name), op.context(), optText)
				nc, ns = trace.StartSpanWithRemoteParent(ctx, string(op.Name), op.context(), so...)
			}
			if nf := o.spans[ns]; nf == nil || nf.id != o.n {
				return Errf("%s: the span is not the tracer's", at)
			}
			if nc.Value(ownKey{}) != ns {
				return Errf("%s: the context is not the tracer's", at)
			}
			ctxs, spans = append(ctxs, nc), append(spans, ns)
			cx.Class("started")
		case "from":
			want = fmt.Sprintf("FromContext %v", ctx.Value(ownKey{}))
			w, _ := ctx.Value(ownKey{}).(*trace.Span)
			if got := trace.FromContext(ctx); got != w {
				return Errf("%s: %v, want %v", at, got, w)
			}
		case "new":
			want = fmt.Sprintf("NewContext %v %v", ctx.Value(ownKey{}), s)
			nc := trace.NewContext(ctx, s)
			if nc.Value(ownKey{}) != s {
				return Errf("%s: the context is not the tracer's", at)
			}
			ctxs = append(ctxs, nc)
		case "made":
			spans = append(spans, o.span(op.Rec, op.context()))
		case "name":
			on("SetName %q", string(op.Name))
			s.SetName(string(op.Name))
		case "status":
			on("SetStatus %+v", op.status())
			s.SetStatus(op.status())
		case "attrs":
			on("AddAttributes %v", as)
			s.AddAttributes(as...)
		case "annotate":
			on("Annotate %v %q", as, string(op.Name))
			s.Annotate(as, string(op.Name))
		case "annotatef":
			on("Annotatef %v %q %v", as, string(op.Name), []interface{}{op.Ints[0], "x"})
			s.Annotatef(as, string(op.Name), op.Ints[0], "x")
		case "send":
			on("AddMessageSendEvent %d %d %d", op.Ints[0], op.Ints[1], op.Ints[2])
			s.AddMessageSendEvent(op.Ints[0], op.Ints[1], op.Ints[2])
		case "receive":
			on("AddMessageReceiveEvent %d %d %d", op.Ints[0], op.Ints[1], op.Ints[2])
			s.AddMessageReceiveEvent(op.Ints[0], op.Ints[1], op.Ints[2])
		case "link":
			on("AddLink %+v", op.link())
			s.AddLink(op.link())
		case "end":
			if f != nil {
				want = fmt.Sprintf("%d.End", f.id)
				calls++
			}
			s.End()
		case "recording":
			if got := s.IsRecordingEvents(); got != (f != nil && f.rec) {
				return Errf("%s: %v of %+v", at, got, f)
			}
		case "sc":
			var w trace.SpanContext
			if f != nil {
				w = f.sc
			}
			if got := s.SpanContext(); got != w {
				return Errf("%s: %v, want %v", at, got, w)
			}
		case "string":
			w := "<nil>"
			if f != nil {
				w = f.String()
			}
			if got := s.String(); got != w {
				return Errf("%s: %q, want %q", at, got, w)
			}
		case "internal":
			if s != nil && s.Internal() != trace.SpanInterface(f) {
				return Errf("%s: not what the span was made of", at)
			}
		}
		var w []string
		if want != "" {
			w = []string{want}
		}
		if !reflect.DeepEqual(o.l.calls, w) {
			return Errf("%s: the tracer and its spans got %q, want %q", at, o.l.calls, w)
		}
	}
	cx.ClassIf(calls > 0, "span calls")
	cx.NonTrivial(len(ctxs) > 1 && calls > 0)
	return nil
}

// FCase is a chain of spans below a span of the user's own.
type FCase struct {
	SC      [3]byte
	Rec     bool
	Chain   []int // per span: 0 inherit, 1 always, 2 never, 3 remote
	Default bool  // what the default sampler says
}

func genForeign(t *rapid.T) FCase {
	return FCase{SC: [3]byte{byte(Int(t, "tid", 0, 2)), byte(Int(t, "sid", 0, 2)), byte(Int(t, "opt", 0, 255))}, Rec: Bool(t, "rec"), Chain: Slice(t, "chain", 1, 4, func(t *rapid.T) int { return Int(t, "s", 0, 3) }), Default: Bool(t, "default")}
}

type collect struct{ got []*trace.SpanData }

func (c *collect) ExportSpan(s *trace.SpanData) { c.got = append(c.got, s) }

// execForeign starts spans of the package below a span it did not make.
func execForeign(cx *Ctx, c FCase) error {
	def := trace.NeverSample()
	if c.Default {
		def = trace.AlwaysSample()
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: def})
	e := &collect{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	sc := DOp{SC: c.SC}.context()
	l := &log{}
	f := &foreign{l, 1, c.Rec, sc}
	root := trace.NewSpan(f)
	ctx := trace.NewContext(context.Background(), root)
	if trace.FromContext(ctx) != root {
		return Errf("the context does not give the span back")
	}
	parent, has := sc, sc != trace.SpanContext{}
	type made struct {
		s      *trace.Span
		parent trace.SpanID
		remote bool
	}
	var ms []made
	for i, how := range c.Chain {
		name := fmt.Sprint(i)
		var s *trace.Span
		sampled := parent.IsSampled()
		remote := how == 3
		switch how {
		case 0:
			if !has {
				sampled = c.Default
			}
			ctx, s = trace.StartSpan(ctx, name)
		case 1, 2:
			sampled = how == 1
			ctx, s = trace.StartSpan(ctx, name, trace.WithSampler(func(p trace.SamplingParameters) trace.SamplingDecision {
				if p.ParentContext != parent || p.HasRemoteParent || p.Name != name {
					sampled = !sampled // it shows below
				}
				return trace.SamplingDecision{Sample: how == 1}
			}))
		case 3:
			sampled = c.Default
			ctx, s = trace.StartSpanWithRemoteParent(ctx, name, parent)
		}
		got := s.SpanContext()
		if has && got.TraceID != parent.TraceID {
			return Errf("span %d has trace %v, its parent %v", i, got.TraceID, parent.TraceID)
		}
		if got.TraceID == (trace.TraceID{}) && !has || got.SpanID == (trace.SpanID{}) || got.SpanID == parent.SpanID {
			return Errf("span %d is %v", i, got)
		}
		if got.IsSampled() != sampled {
			return Errf("span %d is sampled: %v, want %v", i, got.IsSampled(), sampled)
		}
		if got.TraceOptions&^1 != parent.TraceOptions&^1 {
			return Errf("span %d has options %x under %x", i, got.TraceOptions, parent.TraceOptions)
		}
		m := made{s: s, remote: remote}
		if has {
			m.parent = parent.SpanID
		}
		ms = append(ms, m)
		parent, has = got, true
	}
	n := 0
	for i := len(ms) - 1; i >= 0; i-- {
		m := ms[i]
		m.s.End()
		if !m.s.SpanContext().IsSampled() {
			continue
		}
		if n++; len(e.got) != n {
			return Errf("%d spans are exported, want %d", len(e.got), n)
		}
		children := 0
		if i+1 < len(ms) && !ms[i+1].remote {
			children = 1
		}
		if d := e.got[n-1]; d.SpanContext != m.s.SpanContext() || d.ParentSpanID != m.parent || d.HasRemoteParent != m.remote || d.ChildSpanCount != children {
			j, _ := json.Marshal(d)
			return Errf("span %d of %+v is exported as %s, want parent %v", i, c, j, m.parent)
		}
	}
	if len(e.got) != n {
		return Errf("%d spans are exported, want %d", len(e.got), n)
	}
	root.End()
	if len(e.got) != n || len(l.calls) != 1 {
		return Errf("the user's span was asked %q, and %d spans are exported, want %d", l.calls, len(e.got), n)
	}
	cx.ClassIf(n > 0, "exported")
	cx.NonTrivial(sc != trace.SpanContext{})
	return nil
}

func TestS08(t *testing.T) {
	Check(t, "S08", "delegate", Opts{Quick: 8000, Thorough: 200000,
		Rule: "up to 25 calls of the package's functions and of recording, not recording and nil spans with a tracer of the user's own that keeps spans in a place of its own; every call must arrive once and unchanged; non-trivial with a new context and a span call"},
		genDelegate, execDelegate)
	Check(t, "S08", "foreign", Opts{Quick: 8000, Thorough: 200000,
		Rule: "chains of up to four spans of the package below a span of the user's own, by inheritance, own samplers and as remote children; non-trivial if that span has a context"},
		genForeign, execForeign)
}
