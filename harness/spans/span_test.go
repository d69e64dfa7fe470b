// Package spans checks the trace package: S01..S07.
package spans

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// storeAPI is what the z-pages read from the trace package.
type storeAPI interface {
	ConfigureBucketSizes(b []internal.BucketConfiguration)
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
}

func store() storeAPI { return internal.Trace.(storeAPI) }

// recExporter records what it is given.
type recExporter struct {
	got   []*trace.SpanData
	snaps []string
}

func (r *recExporter) ExportSpan(s *trace.SpanData) {
	r.got = append(r.got, s)
	r.snaps = append(r.snaps, dump(s))
}

func dumpAttrs(m map[string]interface{}) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "{"
	for _, k := range ks {
		s += fmt.Sprintf("%q:%T(%v),", k, m[k], m[k])
	}
	return s + "}"
}

// dump is a complete, canonical rendering of a span's data.
func dump(s *trace.SpanData) string {
	out := fmt.Sprintf("sc=%x/%x/%d/%v parent=%x kind=%d name=%q start=%v end=%v status=%d:%q remote=%v child=%d attrs=%s dropped=%d/%d/%d/%d",
		s.TraceID[:], s.SpanID[:], s.TraceOptions, s.Tracestate.Entries(), s.ParentSpanID[:], s.SpanKind, s.Name, s.StartTime.UnixNano(), s.EndTime.UnixNano(),
		s.Status.Code, s.Status.Message, s.HasRemoteParent, s.ChildSpanCount, dumpAttrs(s.Attributes),
		s.DroppedAttributeCount, s.DroppedAnnotationCount, s.DroppedMessageEventCount, s.DroppedLinkCount)
	for _, a := range s.Annotations {
		out += fmt.Sprintf("\n ann %v %q %s", a.Time.UnixNano(), a.Message, dumpAttrs(a.Attributes))
	}
	for _, a := range s.MessageEvents {
		out += fmt.Sprintf("\n msg %v %d %d %d %d", a.Time.UnixNano(), a.EventType, a.MessageID, a.UncompressedByteSize, a.CompressedByteSize)
	}
	for _, a := range s.Links {
		out += fmt.Sprintf("\n link %x %x %d %s", a.TraceID[:], a.SpanID[:], a.Type, dumpAttrs(a.Attributes))
	}
	return out
}

// ---- reference span ----

type mAttr struct {
	k string
	v interface{}
}

type mSpan struct {
	data                     trace.SpanData
	capA, capN, capM, capL   int
	attrs                    []mAttr // least recently written first
	recording, sampled, over bool
}

func (m *mSpan) add(as []trace.Attribute) {
	for i := range as {
		k, v := as[i].Key(), as[i].Value()
		for j := range m.attrs {
			if m.attrs[j].k == k {
				m.attrs = append(m.attrs[:j:j], m.attrs[j+1:]...)
				break
			}
		}
		m.attrs = append(m.attrs, mAttr{k, v})
		if len(m.attrs) > m.capA {
			m.attrs = m.attrs[1:]
			m.data.DroppedAttributeCount++
		}
	}
}

func (m *mSpan) snapshot() *trace.SpanData {
	d := m.data
	d.Attributes = map[string]interface{}{}
	for _, a := range m.attrs {
		d.Attributes[a.k] = a.v
	}
	return &d
}

func fifo[T any](q []T, x T, max int, dropped *int) []T {
	q = append(q, x)
	if len(q) > max {
		q = q[1:]
		*dropped++
	}
	return q
}

func annAttrs(as []trace.Attribute) map[string]interface{} {
	if len(as) == 0 {
		return nil
	}
	m := map[string]interface{}{}
	for i := range as {
		m[as[i].Key()] = as[i].Value()
	}
	return m
}

// ---- S01 ----

type Attr struct {
	K S
	T int // 0 bool 1 int64 2 float 3 string 4 odd string
	V int
}

type SOp struct {
	Op    string
	Span  int
	Attrs []Attr
	N     int64
	Str   S
	Kind  int
	Samp  int // 0 default 1 always 2 never
	Caps  [4]int
}

type S01Case struct {
	Store bool
	Ops   []SOp
}

// oddTexts are strings that a span must keep as they are.
var oddTexts = []string{"", strings.Repeat("long ", 2000), "\xff\x00\xfe", "%d %s %%", "\u00fc<b>\r\n", " s ", "null"}

func attrList(as []Attr) []trace.Attribute {
	var out []trace.Attribute
	for _, a := range as {
		switch a.T {
		case 0:
			out = append(out, trace.BoolAttribute(string(a.K), a.V%2 == 1))
		case 1:
			out = append(out, trace.Int64Attribute(string(a.K), int64(a.V)))
		case 2:
			out = append(out, trace.Float64Attribute(string(a.K), float64(a.V)/4))
		case 4:
			out = append(out, trace.StringAttribute(string(a.K), oddTexts[a.V&7%len(oddTexts)]))
		default:
			out = append(out, trace.StringAttribute(string(a.K), fmt.Sprint("s", a.V)))
		}
	}
	return out
}

func genAttr(t *rapid.T) Attr {
	a := Attr{K: Pick[S](t, "ak", "a", "b", "c", "d", "e", "f", "g"), T: Int(t, "at", 0, 4), V: Int(t, "av", -3, 9)}
	if OneIn(t, "odd", 8) {
		a.K = Pick[S](t, "oddk", "", "A", "a ", "a.b", "a/b", "\xff", "\x00", "\u00fc", S(oddTexts[1]))
	}
	if OneIn(t, "large", 8) {
		a.V = Pick(t, "largev", math.MaxInt64, math.MinInt64, 1<<53+1, 1<<31, -1<<31-1)
	}
	return a
}

func genS01(t *rapid.T) S01Case {
	c := S01Case{Store: Bool(t, "store")}
	small := func(l string) int { return Pick(t, l, 1, 2, 3, 4, 5, 7) }
	c.Ops = append(c.Ops, SOp{Op: "config", Caps: [4]int{small("ca"), small("cn"), small("cm"), small("cl")}})
	c.Ops = append(c.Ops, SOp{Op: "start", Span: -1, Samp: 1, Kind: Int(t, "kind0", 0, 2), Str: "root"})
	n := Int(t, "n", 1, 40)
	// biased so that limits are really exceeded
	fav := Pick(t, "fav", "attr", "annotate", "send", "link", "attr")
	for i := 0; i < n; i++ {
		op := Pick(t, "op", "start", "attr", "annotate", "annotatef", "send", "recv", "link", "name", "status", "end", "sleep", "active", "config", fav, fav, fav, fav, "nil")
		o := SOp{Op: op, Span: Int(t, "span", 0, 3)}
		if Bool(t, "first") {
			o.Span = 0
		}
		switch op {
		case "start":
			o.Span = Int(t, "parent", -1, 3)
			o.Samp = Pick(t, "samp", 0, 1, 2, 1)
			o.Kind = Int(t, "kind", 0, 2)
			o.Str = Pick[S](t, "name", "x", "y", "root")
		case "attr", "annotate", "annotatef", "link":
			o.Attrs = Slice(t, "attrs", 0, 5, genAttr)
			o.Str = Pick[S](t, "msg", "", "m1", "m2 %d", "m1", "m2 %d", "m1", "\xff\x00%%", S(oddTexts[1]), " m ")
			o.N = int64(Int(t, "n", -2, 5))
		case "send", "recv":
			o.N = int64(Int(t, "n", -2, 1000))
			if OneIn(t, "large", 6) {
				o.N = Pick[int64](t, "largen", 1<<31, 1<<32+7, 1<<53+1, -1<<40, 1<<61)
			}
		case "name":
			o.Str = Pick[S](t, "name", "renamed", "", "n2", "\xff", S(oddTexts[1]))
		case "status":
			o.N = int64(Int(t, "code", -1, 17))
			if OneIn(t, "large", 6) {
				o.N = Pick[int64](t, "largen", math.MaxInt32, math.MinInt32, 404, 256)
			}
			o.Str = Pick[S](t, "smsg", "", "bad", "\xff\n", S(oddTexts[1]))
		case "end":
			if i < n/2 && !OneIn(t, "early", 4) {
				o.Op = "sleep"
			}
			o.N = int64(Int(t, "ms", 0, 50))
		case "sleep":
			o.N = int64(Int(t, "ms", 0, 5000))
		case "config":
			for j := range o.Caps {
				o.Caps[j] = Pick(t, "cap", 0, -1, 1, 2, 6)
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

const never, always = 2, 1

// The limits of a process that has configured none: 32 attributes, annotations
// and links, and 128 message events.
var (
	limits    sync.Once
	limitsErr error
)

func readLimits() {
	e := &recExporter{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	_, s := trace.StartSpan(context.Background(), "limits", trace.WithSampler(trace.AlwaysSample()))
	for i := 0; i < 150; i++ {
		s.AddAttributes(trace.Int64Attribute(fmt.Sprint(i), int64(i)))
		s.Annotate(nil, fmt.Sprint(i))
		s.AddMessageSendEvent(int64(i), 0, 0)
		s.AddLink(trace.Link{Type: trace.LinkType(i)})
	}
	s.End()
	if len(e.got) != 1 {
		limitsErr = Errf("a sampled span was exported %d times", len(e.got))
		return
	}
	d := e.got[0]
	if len(d.Attributes) != 32 || len(d.Annotations) != 32 || len(d.MessageEvents) != 128 || len(d.Links) != 32 ||
		d.DroppedAttributeCount != 118 || d.DroppedAnnotationCount != 118 || d.DroppedMessageEventCount != 22 || d.DroppedLinkCount != 118 {
		limitsErr = Errf("with no limits configured, a span of 150 attributes, annotations, message events and links has %d, %d, %d and %d of them and says it dropped %d, %d, %d and %d; want 32, 32, 128 and 32",
			len(d.Attributes), len(d.Annotations), len(d.MessageEvents), len(d.Links), d.DroppedAttributeCount, d.DroppedAnnotationCount, d.DroppedMessageEventCount, d.DroppedLinkCount)
	}
}

func execS01(cx *Ctx, c S01Case) error {
	return Bubble(cx, func() error {
		internal.LocalSpanStoreEnabled = c.Store
		defer func() { internal.LocalSpanStoreEnabled = false }()
		limits.Do(readLimits)
		if limitsErr != nil {
			return limitsErr
		}
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
		e1, e2 := &recExporter{}, &recExporter{}
		trace.RegisterExporter(e1)
		trace.RegisterExporter(e2)
		defer trace.UnregisterExporter(e1)
		defer trace.UnregisterExporter(e2)
		caps := [4]int{32, 32, 128, 32}
		var spans []*trace.Span
		var ctxs []context.Context
		var models []*mSpan
		var wantOrder []string
		overflow, afterEnd, reuse := false, false, false
		end := func(i int) {
			m := models[i]
			spans[i].End()
			if m.over {
				return
			}
			m.over = true
			if m.sampled {
				d := m.snapshot()
				d.EndTime = time.Now()
				if d.DroppedAnnotationCount+d.DroppedAttributeCount+d.DroppedLinkCount+d.DroppedMessageEventCount > 0 {
					overflow = true
				}
				wantOrder = append(wantOrder, dump(d))
			}
		}
		for _, o := range c.Ops {
			if o.Op == "config" {
				trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: o.Caps[0], MaxAnnotationEventsPerSpan: o.Caps[1], MaxMessageEventsPerSpan: o.Caps[2], MaxLinksPerSpan: o.Caps[3]})
				for i, x := range o.Caps {
					if x > 0 {
						caps[i] = x
					}
				}
				continue
			}
			if o.Op == "start" {
				if len(spans) >= 4 {
					continue
				}
				ctx := context.Background()
				var p *mSpan
				if o.Span >= 0 && len(spans) > 0 {
					i := o.Span % len(spans)
					ctx, p = ctxs[i], models[i]
				}
				opts := []trace.StartOption{trace.WithSpanKind(o.Kind)}
				m := &mSpan{capA: caps[0], capN: caps[1], capM: caps[2], capL: caps[3]}
				switch o.Samp {
				case always:
					opts = append(opts, trace.WithSampler(trace.AlwaysSample()))
					m.sampled = true
				case never:
					opts = append(opts, trace.WithSampler(trace.NeverSample()))
				default:
					m.sampled = p != nil && p.sampled
				}
				m.recording = m.sampled || c.Store
				ctx2, s := trace.StartSpan(ctx, string(o.Str), opts...)
				if trace.FromContext(ctx2) != s {
					return Errf("the context does not carry the started span")
				}
				if s.IsRecordingEvents() != m.recording {
					return Errf("span records events: %v, want %v", s.IsRecordingEvents(), m.recording)
				}
				m.data = trace.SpanData{SpanContext: s.SpanContext(), Name: string(o.Str), SpanKind: o.Kind, StartTime: time.Now()}
				if p != nil {
					m.data.ParentSpanID = p.data.SpanContext.SpanID
					if !p.over {
						p.data.ChildSpanCount++
					}
				}
				if s.SpanContext().IsSampled() != m.sampled {
					return Errf("span sampled=%v, want %v", s.SpanContext().IsSampled(), m.sampled)
				}
				spans, ctxs, models = append(spans, s), append(ctxs, ctx2), append(models, m)
				continue
			}
			i := o.Span % len(spans)
			s, m := spans[i], models[i]
			if o.Op == "nil" {
				s, m = nil, &mSpan{}
				if trace.FromContext(context.Background()) != nil {
					return Errf("a context without a span yields one")
				}
				s.End()
				s.AddAttributes(attrList(o.Attrs)...)
				s.Annotate(nil, "x")
				s.Annotatef(nil, "x")
				s.AddLink(trace.Link{})
				s.AddMessageReceiveEvent(1, 2, 3)
				s.AddMessageSendEvent(1, 2, 3)
				s.SetName("x")
				s.SetStatus(trace.Status{})
				if s.IsRecordingEvents() || s.SpanContext() != (trace.SpanContext{}) {
					return Errf("the nil span records or has a context")
				}
				continue
			}
			live := m.recording && !m.over
			if m.over && m.sampled {
				afterEnd = true
			}
			as := attrList(o.Attrs)
			now := time.Now()
			switch o.Op {
			case "sleep":
				time.Sleep(time.Duration(o.N) * time.Millisecond)
			case "end":
				time.Sleep(time.Duration(o.N) * time.Millisecond)
				end(i)
			case "active":
				if c.Store {
					for _, n := range []string{"x", "y", "root"} {
						store().ReportActiveSpans(n)
					}
				}
			case "attr":
				if live {
					m.add(as)
				}
				s.AddAttributes(as...)
			case "annotate", "annotatef":
				msg := string(o.Str)
				if o.Op == "annotatef" {
					msg = fmt.Sprintf(string(o.Str), o.N)
					s.Annotatef(as, string(o.Str), o.N)
				} else {
					s.Annotate(as, string(o.Str))
				}
				if live {
					m.data.Annotations = fifo(m.data.Annotations, trace.Annotation{Time: now, Message: msg, Attributes: annAttrs(as)}, m.capN, &m.data.DroppedAnnotationCount)
				}
			case "send", "recv":
				ev := trace.MessageEvent{Time: now, EventType: trace.MessageEventTypeSent, MessageID: o.N, UncompressedByteSize: o.N * 3, CompressedByteSize: o.N * 2}
				if o.Op == "send" {
					s.AddMessageSendEvent(o.N, o.N*3, o.N*2)
				} else {
					ev.EventType = trace.MessageEventTypeRecv
					s.AddMessageReceiveEvent(o.N, o.N*3, o.N*2)
				}
				if live {
					m.data.MessageEvents = fifo(m.data.MessageEvents, ev, m.capM, &m.data.DroppedMessageEventCount)
				}
			case "link":
				l := trace.Link{Type: trace.LinkType(o.N), Attributes: annAttrs(as)}
				l.TraceID[3], l.SpanID[5] = byte(o.N), byte(len(as))
				given := l
				given.Attributes = annAttrs(as)
				s.AddLink(given)
				// the caller may reuse its map
				for k := range given.Attributes {
					given.Attributes[k] = "reused"
				}
				if live {
					m.data.Links = fifo(m.data.Links, l, m.capL, &m.data.DroppedLinkCount)
				}
			case "name":
				s.SetName(string(o.Str))
				if live {
					m.data.Name = string(o.Str)
				}
			case "status":
				st := trace.Status{Code: int32(o.N), Message: string(o.Str)}
				s.SetStatus(st)
				if live {
					m.data.Status = st
				}
			}
			// the caller may reuse its attribute slice
			for j := range as {
				as[j] = trace.StringAttribute("reused", "reused")
				reuse = true
			}
		}
		for i, s := range spans {
			if str := s.String(); !strings.Contains(str, s.SpanContext().SpanID.String()) {
				return Errf("span %v reads %q", s.SpanContext().SpanID, str)
			}
			end(i)
		}
		for n, e := range []*recExporter{e1, e2} {
			if !reflect.DeepEqual(e.snaps, wantOrder) {
				for j := 0; j < len(e.snaps) && j < len(wantOrder); j++ {
					if e.snaps[j] != wantOrder[j] {
						return Errf("exporter %d, span %d:\n got %s\nwant %s", n, j, e.snaps[j], wantOrder[j])
					}
				}
				return Errf("exporter %d received %d spans, want %d", n, len(e.snaps), len(wantOrder))
			}
			for j, s := range e.got {
				if d := dump(s); d != e.snaps[j] {
					return Errf("exported span changed after its export:\n was %s\n now %s", e.snaps[j], d)
				}
			}
		}
		cx.ClassIf(overflow, "a-limit-was-exceeded")
		cx.ClassIf(afterEnd, "call-after-end")
		cx.ClassIf(reuse, "attribute-slice-reused")
		cx.ClassIf(c.Store, "span-store-on")
		cx.NonTrivial(len(wantOrder) > 0 && len(c.Ops) > 4)
		return nil
	})
}

func TestS01(t *testing.T) {
	Check(t, "S01", "record", Opts{Quick: 4000, Thorough: 120000,
		Rule: "histories of up to 40 calls (attributes, annotations, message events, links, names, statuses, ends, calls after end, configuration changes, active-span reports) on up to 4 related spans with limits of 1-7, under a fake clock; non-trivial when a sampled span is exported after more than two calls"},
		genS01, execS01)
}

// ---- S02 lineage and sampling ----

type LOp struct {
	Kind    string // start remote reset
	From    int    // node index for the context
	Name    string
	Sampler int // 0 none 1 always 2 never
	Remote  struct {
		Zero bool
		TID  []byte
		SID  []byte
		Opts byte
		TS   bool
	}
	SpanKind int
	RemoteOf int // -1: use Remote, otherwise the span context of this node
}

type S02Case struct {
	Default int // 1 always 2 never
	Ops     []LOp
}

func genS02(t *rapid.T) S02Case {
	c := S02Case{Default: Int(t, "default", 1, 2)}
	n := Int(t, "n", 1, 12)
	for i := 0; i < n; i++ {
		o := LOp{Kind: Pick(t, "kind", "start", "start", "remote", "default"), From: Int(t, "from", 0, i), Name: Pick(t, "name", "a", "b", ""), Sampler: Pick(t, "sampler", 0, 0, 1, 2), RemoteOf: -1, SpanKind: Int(t, "sk", 0, 2)}
		if o.Kind == "remote" {
			if Bool(t, "existing") {
				o.RemoteOf = Int(t, "rof", 0, i)
			} else {
				o.Remote.Zero = OneIn(t, "zero", 6)
				o.Remote.TID = Bytes(t, "tid", 16, 16)
				o.Remote.TID[Int(t, "nz", 0, 15)] |= 1
				o.Remote.SID = Bytes(t, "sid", 8, 8)
				o.Remote.SID[Int(t, "nzs", 0, 7)] |= 1
				o.Remote.Opts = byte(Pick(t, "opts", 0, 1, 2, 3, 255, 254))
				o.Remote.TS = Bool(t, "ts")
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func execS02(cx *Ctx, c S02Case) error {
	type node struct {
		ctx  context.Context
		sc   trace.SpanContext
		span *trace.Span
	}
	var calls []trace.SamplingParameters
	var who []string
	mk := func(label string, d bool) trace.Sampler {
		return func(p trace.SamplingParameters) trace.SamplingDecision {
			calls = append(calls, p)
			who = append(who, label)
			return trace.SamplingDecision{Sample: d}
		}
	}
	def := c.Default == 1
	trace.ApplyConfig(trace.Config{DefaultSampler: mk("default", def)})
	ex := &recExporter{}
	trace.RegisterExporter(ex)
	defer trace.UnregisterExporter(ex)
	nodes := []node{{ctx: context.Background()}}
	seenSpan := map[trace.SpanID]bool{}
	remoteN, childN := 0, 0
	wants := map[trace.SpanID][2]interface{}{}
	for i, o := range c.Ops {
		if o.Kind == "default" {
			def = o.Sampler == 1
			trace.ApplyConfig(trace.Config{DefaultSampler: mk("default", def)})
			nodes = append(nodes, nodes[0])
			continue
		}
		n := nodes[o.From%len(nodes)]
		opts := []trace.StartOption{}
		if o.SpanKind > 0 {
			opts = append(opts, trace.WithSpanKind(o.SpanKind))
		}
		switch o.Sampler {
		case 1:
			opts = append(opts, trace.WithSampler(mk("option", true)))
		case 2:
			opts = append(opts, trace.WithSampler(mk("option", false)))
		}
		calls, who = nil, nil
		parent := n.sc
		remote := o.Kind == "remote"
		var ctx context.Context
		var s *trace.Span
		if remote {
			if o.RemoteOf >= 0 {
				parent = nodes[o.RemoteOf%len(nodes)].sc
			} else if o.Remote.Zero {
				parent = trace.SpanContext{}
			} else {
				parent = trace.SpanContext{TraceOptions: trace.TraceOptions(o.Remote.Opts)}
				copy(parent.TraceID[:], o.Remote.TID)
				copy(parent.SpanID[:], o.Remote.SID)
				if o.Remote.TS {
					parent.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: "v"})
				}
			}
			ctx, s = trace.StartSpanWithRemoteParent(n.ctx, o.Name, parent, opts...)
			remoteN++
		} else {
			ctx, s = trace.StartSpan(n.ctx, o.Name, opts...)
		}
		sc := s.SpanContext()
		hasParent := parent != trace.SpanContext{}
		if hasParent && !remote {
			childN++
		}
		consulted := ""
		var decision bool
		switch {
		case o.Sampler != 0:
			consulted, decision = "option", o.Sampler == 1
		case !hasParent || remote:
			consulted, decision = "default", def
		default:
			decision = parent.IsSampled()
		}
		if consulted == "" && len(calls) != 0 || consulted != "" && (len(calls) != 1 || who[0] != consulted) {
			return Errf("op %d: samplers consulted %v, want %q", i, who, consulted)
		}
		if consulted != "" {
			want := trace.SamplingParameters{ParentContext: parent, TraceID: sc.TraceID, SpanID: sc.SpanID, Name: o.Name, HasRemoteParent: remote}
			if calls[0] != want {
				return Errf("op %d: sampler was asked %+v, want %+v", i, calls[0], want)
			}
		}
		if sc.IsSampled() != decision {
			return Errf("op %d: sampled=%v, want %v", i, sc.IsSampled(), decision)
		}
		if sc.TraceOptions&^1 != parent.TraceOptions&^1 {
			return Errf("op %d: option bits %d from parent %d", i, sc.TraceOptions, parent.TraceOptions)
		}
		if sc.Tracestate != parent.Tracestate {
			return Errf("op %d: tracestate not inherited", i)
		}
		if hasParent && sc.TraceID != parent.TraceID {
			return Errf("op %d: trace ID not inherited", i)
		}
		if sc.TraceID == (trace.TraceID{}) || sc.SpanID == (trace.SpanID{}) || sc.SpanID == parent.SpanID || seenSpan[sc.SpanID] {
			return Errf("op %d: identifiers %v not fresh", i, sc)
		}
		if !hasParent {
			for _, m := range nodes {
				if m.span != nil && m.sc.TraceID == sc.TraceID {
					return Errf("op %d: a root span reuses a trace ID", i)
				}
			}
		}
		seenSpan[sc.SpanID] = true
		if s.IsRecordingEvents() != decision {
			return Errf("op %d: recording=%v, want %v", i, s.IsRecordingEvents(), decision)
		}
		if trace.FromContext(ctx) != s {
			return Errf("op %d: context does not carry the new span", i)
		}
		if trace.FromContext(n.ctx) != n.span {
			return Errf("op %d: the parent context changed", i)
		}
		wants[sc.SpanID] = [2]interface{}{parent.SpanID, remote}
		nodes = append(nodes, node{ctx, sc, s})
	}
	sampled := 0
	for _, n := range nodes {
		if n.span != nil {
			n.span.End()
			if n.sc.IsSampled() {
				sampled++
			}
		}
	}
	if len(ex.got) != sampled {
		return Errf("%d spans exported, want %d", len(ex.got), sampled)
	}
	for _, d := range ex.got {
		w := wants[d.SpanContext.SpanID]
		if d.ParentSpanID != w[0].(trace.SpanID) || d.HasRemoteParent != w[1].(bool) {
			return Errf("exported span has parent %v remote=%v, want %v %v", d.ParentSpanID, d.HasRemoteParent, w[0], w[1])
		}
	}
	cx.ClassIf(remoteN > 0, "remote-parent")
	cx.ClassIf(childN > 0, "local-child")
	cx.NonTrivial(remoteN+childN > 0)
	return nil
}

func TestS02(t *testing.T) {
	Check(t, "S02", "lineage", Opts{Quick: 10000, Thorough: 300000,
		Rule: "trees of up to 12 spans started locally or from remote contexts (random, zero, or those of other spans) with per-span and changing default samplers that record how they are consulted; non-trivial when a span has a parent"},
		genS02, execS02)
}

// ---- S03 probability sampling ----

type S03Case struct {
	P, Q   F
	TID    []byte
	SID    []byte
	Parent byte
	Seed   uint64
	Name   string
}

func genProb(t *rapid.T, l string) F {
	switch Int(t, l+"k", 0, 6) {
	case 0:
		return F(Pick(t, l+"s", 0, 1, -1, 2, 0.5, 1e-4, -0.0))
	case 1:
		return F(Pick(t, l+"x", nan(), inf(1), inf(-1), 5e-324, 1-1e-16, 0.9999999999999999))
	default:
		return F(rapid.Float64Range(0, 1).Draw(t, l))
	}
}

func execS03(cx *Ctx, c S03Case) error {
	p := trace.SamplingParameters{Name: c.Name}
	copy(p.TraceID[:], c.TID)
	copy(p.SpanID[:], c.SID)
	if c.Parent > 0 {
		p.ParentContext = trace.SpanContext{TraceID: p.TraceID, TraceOptions: trace.TraceOptions(c.Parent)}
		p.ParentContext.SpanID[0] = 9
	}
	dec := func(f F) bool { return trace.ProbabilitySampler(float64(f))(p).Sample }
	x, y := dec(c.P), dec(c.Q)
	if x != dec(c.P) {
		return Errf("the decision is not a function of the trace")
	}
	parentSampled := c.Parent&1 == 1
	for _, f := range []struct {
		f F
		d bool
	}{{c.P, x}, {c.Q, y}} {
		switch {
		case float64(f.f) >= 1 && !f.d:
			return Errf("fraction %v did not sample", f.f)
		case !(float64(f.f) > 0) && f.d != parentSampled:
			return Errf("fraction %v sampled=%v with parent sampled=%v", f.f, f.d, parentSampled)
		case parentSampled && !f.d:
			return Errf("fraction %v dropped the child of a sampled parent", f.f)
		}
	}
	if c.P <= c.Q && x && !y {
		return Errf("sampled at %v but not at %v", c.P, c.Q)
	}
	if c.Q <= c.P && y && !x {
		return Errf("sampled at %v but not at %v", c.Q, c.P)
	}
	if !parentSampled {
		// only the trace ID matters
		q := p
		q.Name, q.SpanID[3], q.HasRemoteParent = "other", p.SpanID[3]+1, true
		sampler := trace.ProbabilitySampler(float64(c.P))
		for i := 0; i < 12; i++ {
			if sampler(q).Sample != x {
				return Errf("two spans of one trace are sampled differently at %v", c.P)
			}
			q.HasRemoteParent = i&1 == 0
			for j := range q.SpanID {
				q.SpanID[j] = byte(c.Seed>>uint(8*j)) + byte(i*41+j*13)
			}
			if i == 6 {
				q.ParentContext = trace.SpanContext{TraceID: q.TraceID, SpanID: trace.SpanID{1}}
			}
		}
	}
	if f := float64(c.P); f >= 0 && f <= 1 {
		// the portion of random traces that is sampled
		const n = 2000
		s := trace.ProbabilitySampler(f)
		k, state := 0, c.Seed
		next := func() uint64 {
			state += 0x9e3779b97f4a7c15
			z := state
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			return z ^ (z >> 31)
		}
		for i := 0; i < n; i++ {
			var sp trace.SamplingParameters
			a, b := next(), next()
			for j := 0; j < 8; j++ {
				sp.TraceID[j], sp.TraceID[8+j] = byte(a>>(8*j)), byte(b>>(8*j))
			}
			if s(sp).Sample {
				k++
			}
		}
		if d := float64(k) - n*f; d*d > 49*(n*f*(1-f)+1) {
			return Errf("fraction %v sampled %d of %d random traces", f, k, n)
		}
	}
	cx.ClassIf(x != y, "decisions-differ")
	cx.ClassIf(parentSampled, "sampled-parent")
	cx.NonTrivial(float64(c.P) > 0 && float64(c.P) < 1)
	return nil
}

func TestS03(t *testing.T) {
	Check(t, "S03", "probability", Opts{Quick: 3000, Thorough: 60000,
		Rule: "pairs of fractions (special values, NaN, infinities, denormals, uniform) with a random trace and parent flags, plus 2000 pseudo-random traces per case for the sampled portion (7 sigma); non-trivial when the fraction is strictly between 0 and 1"},
		func(t *rapid.T) S03Case {
			tid := Bytes(t, "tid", 16, 16)
			switch Int(t, "edge", 0, 7) {
			case 0: // an ID of 64 bits
				copy(tid, make([]byte, 8))
			case 1: // its other half is 0
				copy(tid[8:], make([]byte, 8))
			case 2:
				copy(tid, "\xff\xff\xff\xff\xff\xff\xff\xff")
			}
			return S03Case{P: genProb(t, "p"), Q: genProb(t, "q"), TID: tid, SID: Bytes(t, "sid", 8, 8),
				Parent: byte(Pick(t, "parent", 0, 0, 0, 1, 2, 3)), Seed: rapid.Uint64().Draw(t, "seed"), Name: Pick(t, "name", "", "n")}
		}, execS03)
	Check(t, "S03", "share", Opts{Quick: 300, Thorough: 5000,
		Rule: "for 200 pseudo-random trace IDs, the least fraction at which each is sampled (bisected to 2^-40): monotone around it, and over the traces uniform on [0,1] (Kolmogorov-Smirnov, far beyond 1e-13) without ties; always non-trivial"},
		func(t *rapid.T) S03ShareCase { return S03ShareCase{rapid.Uint64().Draw(t, "seed")} }, execS03Share)
}

type S03ShareCase struct{ Seed uint64 }

func execS03Share(cx *Ctx, c S03ShareCase) error {
	state := c.Seed
	next := func() uint64 {
		state += 0x9e3779b97f4a7c15
		z := state
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	const n = 200
	th := make([]float64, n)
	for i := range th {
		var p trace.SamplingParameters
		a, b := next(), next()
		for j := 0; j < 8; j++ {
			p.TraceID[j], p.TraceID[8+j] = byte(a>>(8*j)), byte(b>>(8*j))
		}
		lo, hi := 0.0, 1.0 // not sampled at lo, sampled at hi
		for k := 0; k < 40; k++ {
			mid := (lo + hi) / 2
			if trace.ProbabilitySampler(mid)(p).Sample {
				hi = mid
			} else {
				lo = mid
			}
		}
		for k := 1; k <= 8; k++ {
			if f := lo * float64(k) / 8; trace.ProbabilitySampler(f)(p).Sample {
				return Errf("trace %x is sampled at %v but not at %v", p.TraceID, f, lo)
			}
			if f := hi + (1-hi)*float64(k)/8; !trace.ProbabilitySampler(f)(p).Sample {
				return Errf("trace %x is sampled at %v but not at %v", p.TraceID, hi, f)
			}
		}
		th[i] = hi
	}
	sort.Float64s(th)
	for i, x := range th {
		if i > 0 && x == th[i-1] {
			return Errf("two random traces start being sampled at the same fraction %v: the share does not follow the fraction closely", x)
		}
		if d := math.Abs(x - float64(i)/n); d > 0.28 {
			return Errf("%d of %d random traces are sampled at fraction %v", i, n, x)
		}
	}
	cx.NonTrivial(true)
	return nil
}
