package spans

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- S04 identifiers under concurrency ----

type S04Case struct {
	Workers, Roots, Children int
	Reconfigure              int // goroutines that do
	Sampled                  bool
}

func genS04(t *rapid.T) S04Case {
	return S04Case{Workers: Int(t, "workers", 2, 8), Roots: Pick(t, "roots", 1, 3, 20, 20, 200), Children: Int(t, "children", 0, 6), Reconfigure: Int(t, "reconf", 0, 3), Sampled: Bool(t, "sampled")}
}

func execS04(cx *Ctx, c S04Case) error {
	samp := trace.NeverSample()
	if c.Sampled {
		samp = trace.AlwaysSample()
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: samp})
	type id struct{ root, sc, parent trace.SpanContext }
	out := make([][]id, c.Workers)
	stop := make(chan struct{})
	var bg sync.WaitGroup
	for k := 0; k < c.Reconfigure; k++ {
		bg.Add(1)
		go func() {
			defer bg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
					cfg := trace.Config{MaxAttributesPerSpan: 1 + i%5}
					if i%2 == 0 {
						cfg.DefaultSampler = samp
					}
					trace.ApplyConfig(cfg)
				}
			}
		}()
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for r := 0; r < c.Roots; r++ {
				ctx, root := trace.StartSpan(context.Background(), "root")
				out[w] = append(out[w], id{root: root.SpanContext(), sc: root.SpanContext()})
				for k := 0; k < c.Children; k++ {
					parent := trace.FromContext(ctx).SpanContext()
					ctx2, s := trace.StartSpan(ctx, "child")
					out[w] = append(out[w], id{root.SpanContext(), s.SpanContext(), parent})
					if k%2 == 0 {
						ctx = ctx2
					}
					s.End()
				}
				root.End()
			}
		}()
	}
	close(gate)
	wg.Wait()
	close(stop)
	bg.Wait()
	spans, traces := map[trace.SpanID]bool{}, map[trace.TraceID]bool{}
	for _, l := range out {
		for _, x := range l {
			if x.sc.SpanID == (trace.SpanID{}) || x.sc.TraceID == (trace.TraceID{}) {
				return Errf("zero identifier in %v", x.sc)
			}
			if spans[x.sc.SpanID] {
				return Errf("span ID %v was given out twice", x.sc.SpanID)
			}
			spans[x.sc.SpanID] = true
			if x.parent == (trace.SpanContext{}) {
				if traces[x.sc.TraceID] {
					return Errf("trace ID %v was given out twice", x.sc.TraceID)
				}
				traces[x.sc.TraceID] = true
			} else if x.sc.TraceID != x.root.TraceID {
				return Errf("child %v left the trace of its root %v", x.sc, x.root)
			}
			if x.sc.IsSampled() != c.Sampled {
				return Errf("span %v sampled=%v, want %v", x.sc, x.sc.IsSampled(), c.Sampled)
			}
		}
	}
	cx.ClassIf(c.Reconfigure > 0, "reconfigured-meanwhile")
	cx.ClassIf(len(spans) > 200, "more-than-200-spans")
	cx.NonTrivial(len(spans) > 10)
	return nil
}

func TestS04(t *testing.T) {
	Check(t, "S04", "ids", Opts{Quick: 1500, Thorough: 8000,
		Rule: "2-8 goroutines each starting 1-200 traces with up to 6 descendants, while the configuration may change, under the race detector; non-trivial when more than 10 spans are started"},
		genS04, execS04)
}

// ---- S05 exporter registry and configuration histories ----

type COp struct {
	Op   string // reg unreg span config
	I    int
	Caps [4]int
	Samp int // 0 nil 1 always 2 never
	Root int // sampler option of a probe span
}

type S05Case struct{ Ops []COp }

func genS05(t *rapid.T) S05Case {
	return S05Case{Slice(t, "ops", 1, 25, func(t *rapid.T) COp {
		o := COp{Op: Pick(t, "op", "reg", "reg", "unreg", "span", "span", "config"), I: Int(t, "i", 0, 5), Root: Pick(t, "root", 1, 0, 2, 1)}
		if o.Op == "config" {
			o.Samp = Int(t, "samp", 0, 2)
			for i := range o.Caps {
				o.Caps[i] = Pick(t, "cap", 0, -1, 0, 1, 3, 8, 200)
			}
		}
		return o
	})}
}

type sink struct {
	mu  sync.Mutex
	got map[string][]*trace.SpanData
}

func (s *sink) put(who string, d *trace.SpanData) {
	s.mu.Lock()
	s.got[who] = append(s.got[who], d)
	s.mu.Unlock()
}

// valueExporter is comparable by value: two equal values are one exporter.
type valueExporter struct {
	s  *sink
	id string
}

func (v valueExporter) ExportSpan(d *trace.SpanData) { v.s.put(v.id, d) }

// leavingExporter unregisters itself while it is given a span.
type leavingExporter struct {
	s  *sink
	id string
}

func (l *leavingExporter) ExportSpan(d *trace.SpanData) {
	l.s.put(l.id, d)
	trace.UnregisterExporter(l)
}

func execS05(cx *Ctx, c S05Case) error {
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), MaxAttributesPerSpan: 32, MaxAnnotationEventsPerSpan: 32, MaxMessageEventsPerSpan: 128, MaxLinksPerSpan: 32})
	caps, def := [4]int{32, 32, 128, 32}, false
	s := &sink{got: map[string][]*trace.SpanData{}}
	leave := &leavingExporter{s, "leaving"}
	ptr := &struct{ valueExporter }{valueExporter{s, "ptr"}}
	exp := func(i int) (trace.Exporter, string) {
		switch i {
		case 0, 1:
			return valueExporter{s, "v"}, "v" // the same exporter made twice
		case 2:
			return valueExporter{s, "w"}, "w"
		case 3:
			return ptr, "ptr"
		default:
			return leave, "leaving"
		}
	}
	defer func() {
		for i := 0; i < 5; i++ {
			e, _ := exp(i)
			trace.UnregisterExporter(e)
		}
	}()
	reg := map[string]bool{}
	want := map[string][]string{}
	doubleReg, delivered := false, 0
	for i, o := range c.Ops {
		switch o.Op {
		case "reg":
			e, id := exp(o.I)
			trace.RegisterExporter(e)
			if reg[id] {
				doubleReg = true
			}
			reg[id] = true
		case "unreg":
			e, id := exp(o.I)
			trace.UnregisterExporter(e)
			delete(reg, id)
		case "config":
			cfg := trace.Config{MaxAttributesPerSpan: o.Caps[0], MaxAnnotationEventsPerSpan: o.Caps[1], MaxMessageEventsPerSpan: o.Caps[2], MaxLinksPerSpan: o.Caps[3]}
			for k, x := range o.Caps {
				if x > 0 {
					caps[k] = x
				}
			}
			if o.Samp == 1 {
				cfg.DefaultSampler, def = trace.AlwaysSample(), true
			} else if o.Samp == 2 {
				cfg.DefaultSampler, def = trace.NeverSample(), false
			}
			trace.ApplyConfig(cfg)
		case "span":
			var opts []trace.StartOption
			sampled := def
			if o.Root == 1 {
				opts, sampled = append(opts, trace.WithSampler(trace.AlwaysSample())), true
			} else if o.Root == 2 {
				opts, sampled = append(opts, trace.WithSampler(trace.NeverSample())), false
			}
			name := fmt.Sprint("span", i)
			_, sp := trace.StartSpan(context.Background(), name, opts...)
			const n = 210
			for k := 0; k < n; k++ {
				sp.AddAttributes(trace.Int64Attribute(fmt.Sprint(k), 1))
				sp.Annotate(nil, fmt.Sprint(k))
				sp.AddMessageSendEvent(int64(k), 0, 0)
				sp.AddLink(trace.Link{Type: trace.LinkType(k)})
			}
			sp.End()
			sp.End()
			if sampled {
				for id := range reg {
					want[id] = append(want[id], name)
					ds := s.got[id]
					if len(ds) != len(want[id]) {
						return Errf("op %d: exporter %s has %d spans, want %d", i, id, len(ds), len(want[id]))
					}
					d := ds[len(ds)-1]
					lens := [4]int{len(d.Attributes), len(d.Annotations), len(d.MessageEvents), len(d.Links)}
					drops := [4]int{d.DroppedAttributeCount, d.DroppedAnnotationCount, d.DroppedMessageEventCount, d.DroppedLinkCount}
					for k := range lens {
						if lens[k] != min(n, caps[k]) || drops[k] != n-lens[k] {
							return Errf("op %d: kept %v dropped %v with limits %v", i, lens, drops, caps)
						}
					}
					delivered++
				}
				delete(reg, "leaving")
			}
		}
		for _, id := range []string{"v", "w", "ptr", "leaving"} {
			if len(s.got[id]) != len(want[id]) {
				return Errf("op %d (%s): exporter %s received %d spans, want %d", i, o.Op, id, len(s.got[id]), len(want[id]))
			}
			for k, d := range s.got[id] {
				if d.Name != want[id][k] {
					return Errf("op %d: exporter %s received %q, want %q", i, id, d.Name, want[id][k])
				}
			}
		}
	}
	cx.ClassIf(doubleReg, "registered-twice")
	cx.ClassIf(len(want["leaving"]) > 0, "unregisters-itself-while-exporting")
	cx.NonTrivial(delivered > 0)
	return nil
}

func TestS05(t *testing.T) {
	Check(t, "S05", "registry", Opts{Quick: 1200, Thorough: 25000,
		Rule: "histories of up to 25 exporter registrations (equal values, pointers, one that unregisters itself while exporting), unregistrations, configuration changes with unset fields, and spans overfilled to reveal the limits in force; non-trivial when a span is delivered"},
		genS05, execS05)
	Check(t, "S05", "concurrent", Opts{Quick: 150, Thorough: 3000,
		Rule: "2-6 goroutines that each change their own configuration field and register and unregister their own exporter 20-150 times at once, each verifying with a span of its own after every change that the change is in force; always non-trivial"},
		genS05Conc, execS05Conc)
}

// S05ConcCase: every goroutine owns one configuration field and one exporter,
// so after each of its changes it can tell what must be in force for these.
type S05ConcCase struct {
	Workers int
	Rounds  int
	What    []int // per worker: 0 configuration, 1 exporter, 2 both
	Base    int
	Spread  int
}

func genS05Conc(t *rapid.T) S05ConcCase {
	c := S05ConcCase{Workers: Int(t, "w", 2, 6), Rounds: Pick(t, "rounds", 20, 60, 150), Base: Int(t, "base", 1, 5), Spread: Int(t, "spread", 1, 6)}
	for i := 0; i < c.Workers; i++ {
		c.What = append(c.What, Int(t, "what", 0, 2))
	}
	return c
}

func execS05Conc(cx *Ctx, c S05ConcCase) error {
	internal.LocalSpanStoreEnabled = false
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), MaxAttributesPerSpan: 2, MaxAnnotationEventsPerSpan: 2, MaxMessageEventsPerSpan: 2, MaxLinksPerSpan: 2})
	s := &sink{got: map[string][]*trace.SpanData{}}
	base := valueExporter{s, "base"}
	trace.RegisterExporter(base)
	defer trace.UnregisterExporter(base)
	errs := make([]error, c.Workers)
	gate := make(chan struct{})
	var wg sync.WaitGroup
	worker := func(w int) error {
		own := &sink{got: map[string][]*trace.SpanData{}}
		e := valueExporter{own, "own"}
		defer trace.UnregisterExporter(e)
		name := fmt.Sprint("worker", w)
		probe := func() *trace.SpanData {
			_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
			for k := 0; k < c.Base+c.Spread+1; k++ {
				switch w % 4 {
				case 0:
					sp.AddAttributes(trace.Int64Attribute(fmt.Sprint(k), 1))
				case 1:
					sp.Annotate(nil, "a")
				case 2:
					sp.AddMessageSendEvent(int64(k), 0, 0)
				case 3:
					sp.AddLink(trace.Link{})
				}
			}
			sp.End()
			id := sp.SpanContext().SpanID
			s.mu.Lock()
			defer s.mu.Unlock()
			var d *trace.SpanData
			kept := s.got["base"][:0]
			for _, x := range s.got["base"] {
				if x.SpanContext.SpanID == id {
					d = x
				} else {
					kept = append(kept, x)
				}
			}
			s.got["base"] = kept
			return d
		}
		for r := 0; r < c.Rounds; r++ {
			if w < 4 && c.What[w] != 1 {
				limit := c.Base + r%(c.Spread+1)
				var cfg trace.Config
				switch w {
				case 0:
					cfg.MaxAttributesPerSpan = limit
				case 1:
					cfg.MaxAnnotationEventsPerSpan = limit
				case 2:
					cfg.MaxMessageEventsPerSpan = limit
				case 3:
					cfg.MaxLinksPerSpan = limit
				}
				trace.ApplyConfig(cfg)
				d := probe()
				if d == nil {
					return Errf("round %d: the exporter that stays registered did not receive a span", r)
				}
				if n := []int{len(d.Attributes), len(d.Annotations), len(d.MessageEvents), len(d.Links)}[w]; n != limit {
					return Errf("round %d: limit %d of kind %d was applied, but a later span keeps %d", r, limit, w, n)
				}
			}
			if c.What[w] != 0 {
				trace.RegisterExporter(e)
				own.mu.Lock()
				own.got["own"] = nil
				own.mu.Unlock()
				has := func() (n int) {
					d := probe()
					own.mu.Lock()
					defer own.mu.Unlock()
					for _, x := range own.got["own"] {
						if d != nil && x.SpanContext.SpanID == d.SpanContext.SpanID {
							n++
						}
					}
					if d == nil {
						n = -1
					}
					return n
				}
				if n := has(); n != 1 {
					return Errf("round %d: a registered exporter received a span %d times (-1: the one that stays did not)", r, n)
				}
				trace.UnregisterExporter(e)
				if n := has(); n != 0 {
					return Errf("round %d: an unregistered exporter received a span %d times", r, n)
				}
			}
		}
		return nil
	}
	for w := range errs {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; errs[w] = worker(w) }()
	}
	close(gate)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	cx.NonTrivial(true)
	return nil
}

// ---- S06 one span used by many goroutines ----

type S06Case struct {
	Store   bool
	Workers []([]SOp)
	Ends    int
	Late    int // further calls racing the end
	Caps    [4]int
}

func genS06(t *rapid.T) S06Case {
	c := S06Case{Store: Bool(t, "store"), Ends: Int(t, "ends", 1, 4), Late: Int(t, "late", 0, 5)}
	for i := range c.Caps {
		c.Caps[i] = Pick(t, "cap", 1, 3, 8, 200)
	}
	n := Int(t, "workers", 2, 6)
	for i := 0; i < n; i++ {
		c.Workers = append(c.Workers, Slice(t, "ops", 1, 15, func(t *rapid.T) SOp {
			return SOp{Op: Pick(t, "op", "attr", "annotate", "send", "link", "child", "name", "status", "read", "attr", "annotate"), N: int64(Int(t, "k", 0, 3))}
		}))
	}
	return c
}

var nameSeq atomic.Int64

func execS06(cx *Ctx, c S06Case) error {
	internal.LocalSpanStoreEnabled = c.Store
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), MaxAttributesPerSpan: c.Caps[0], MaxAnnotationEventsPerSpan: c.Caps[1], MaxMessageEventsPerSpan: c.Caps[2], MaxLinksPerSpan: c.Caps[3]})
	s := &sink{got: map[string][]*trace.SpanData{}}
	exps := []trace.Exporter{valueExporter{s, "a"}, valueExporter{s, "b"}}
	for _, e := range exps {
		trace.RegisterExporter(e)
	}
	defer func() {
		for _, e := range exps {
			trace.UnregisterExporter(e)
		}
	}()
	name := fmt.Sprintf("shared-%d", nameSeq.Add(1))
	ctx, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
	var counts [5]atomic.Int64 // attr annotate send link child
	apply := func(w, i int, o SOp) {
		switch o.Op {
		case "attr":
			sp.AddAttributes(trace.Int64Attribute(fmt.Sprintf("w%d-%d", w, o.N), int64(i)))
			counts[0].Add(1)
		case "annotate":
			sp.Annotate([]trace.Attribute{trace.Int64Attribute("i", int64(i))}, fmt.Sprintf("%d/%d", w, i))
			counts[1].Add(1)
		case "send":
			sp.AddMessageSendEvent(int64(w*1000+i), int64(i), 0)
			counts[2].Add(1)
		case "link":
			sp.AddLink(trace.Link{Type: trace.LinkType(w*1000 + i)})
			counts[3].Add(1)
		case "child":
			_, ch := trace.StartSpan(ctx, "child", trace.WithSampler(trace.NeverSample()))
			ch.End()
			counts[4].Add(1)
		case "name":
			sp.SetName(fmt.Sprintf("n%d-%d", w, i))
		case "status":
			sp.SetStatus(trace.Status{Code: int32(w*1000 + i), Message: fmt.Sprintf("n%d-%d", w, i)})
		case "read":
			_ = sp.String()
			sp.SpanContext()
			if c.Store {
				store().ReportActiveSpans(name)
				if i == 0 {
					store().ReportSpansPerMethod()
				}
			}
		}
	}
	var wg sync.WaitGroup
	for w := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, o := range c.Workers[w] {
				apply(w, i, o)
			}
		}()
	}
	wg.Wait()
	var before [5]int
	for i := range before {
		before[i] = int(counts[i].Load())
	}
	if c.Store {
		act := store().ReportActiveSpans(name)
		if len(act) != 1 || len(act[0].Annotations)+act[0].DroppedAnnotationCount != before[1] {
			return Errf("the active span reports %d of it, want 1 with %d annotations", len(act), before[1])
		}
	}
	gate := make(chan struct{})
	for i := 0; i < c.Ends; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; sp.End() }()
	}
	for i := 0; i < c.Late; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			apply(90+i, 0, SOp{Op: []string{"annotate", "send", "link", "child", "attr"}[i%5]})
		}()
	}
	close(gate)
	wg.Wait()
	for _, id := range []string{"a", "b"} {
		if len(s.got[id]) != 1 {
			return Errf("exporter %s received the span %d times", id, len(s.got[id]))
		}
	}
	d := s.got["a"][0]
	kept := [5]int{len(d.Attributes), len(d.Annotations), len(d.MessageEvents), len(d.Links), d.ChildSpanCount}
	drop := [5]int{d.DroppedAttributeCount, d.DroppedAnnotationCount, d.DroppedMessageEventCount, d.DroppedLinkCount, 0}
	for i := 1; i < 5; i++ {
		n := kept[i] + drop[i]
		if n < before[i] || n > int(counts[i].Load()) {
			return Errf("kind %d: %d kept + %d dropped, but %d were added before the end and %d in all", i, kept[i], drop[i], before[i], counts[i].Load())
		}
		if i < 4 && (kept[i] > c.Caps[i] || drop[i] > 0 && kept[i] != c.Caps[i]) {
			return Errf("kind %d: %d kept, %d dropped, limit %d", i, kept[i], drop[i], c.Caps[i])
		}
	}
	if kept[0] > c.Caps[0] || drop[0] > 0 && kept[0] != c.Caps[0] {
		return Errf("%d attributes kept, %d dropped, limit %d", kept[0], drop[0], c.Caps[0])
	}
	// each goroutine's calls keep their order
	last := map[string]int{}
	for _, a := range d.Annotations {
		var w, i int
		fmt.Sscanf(a.Message, "%d/%d", &w, &i)
		k := fmt.Sprint("a", w)
		if l, ok := last[k]; ok && l >= i {
			return Errf("annotations of one goroutine are out of order: %v", d.Annotations)
		}
		last[k] = i
		if a.Attributes["i"] != int64(i) {
			return Errf("annotation %q carries %v", a.Message, a.Attributes)
		}
	}
	for _, m := range d.MessageEvents {
		w, i := int(m.MessageID)/1000, int(m.MessageID)%1000
		k := fmt.Sprint("m", w)
		if l, ok := last[k]; ok && l >= i {
			return Errf("message events of one goroutine are out of order")
		}
		last[k] = i
	}
	// attributes: with room for all, each goroutine's last write of a key holds
	if drop[0] == 0 {
		for w, ops := range c.Workers {
			final := map[string]int64{}
			for i, o := range ops {
				if o.Op == "attr" {
					final[fmt.Sprintf("w%d-%d", w, o.N)] = int64(i)
				}
			}
			for k, v := range final {
				if d.Attributes[k] != v {
					return Errf("attribute %s is %v, want %d", k, d.Attributes[k], v)
				}
			}
		}
	}
	if st := d.Status; st != (trace.Status{}) && st.Message != fmt.Sprintf("n%d-%d", st.Code/1000, st.Code%1000) {
		return Errf("status mixes two calls: %+v", st)
	}
	if d.Name != name && !strings.HasPrefix(d.Name, "n") {
		return Errf("name %q was never set", d.Name)
	}
	if c.Store {
		if act := store().ReportActiveSpans(name); len(act) != 0 {
			return Errf("the ended span is still active")
		}
		found := 0
		for _, x := range append(store().ReportSpansByLatency(name, 0, 0), store().ReportSpansByError(name, 0)...) {
			if x.SpanContext.SpanID == d.SpanContext.SpanID {
				found++
			}
		}
		if found != 1 {
			return Errf("the ended span is stored %d times", found)
		}
	}
	cx.ClassIf(c.Store, "span-store-on")
	cx.ClassIf(c.Ends > 1, "several-concurrent-ends")
	cx.ClassIf(c.Late > 0, "calls-race-the-end")
	cx.NonTrivial(before[0]+before[1]+before[2]+before[3] > 1)
	return nil
}

func TestS06(t *testing.T) {
	Check(t, "S06", "shared", Opts{Quick: 800, Thorough: 8000,
		Rule: "2-6 goroutines making 1-15 calls each on one span, then 1-4 concurrent ends racing up to 5 late calls, with and without the span store, under the race detector; non-trivial when more than one item is recorded"},
		genS06, execS06)
}

// ---- S07 local span store ----

type StOp struct {
	Op   string // start end status name size sleep burst
	Name int
	Span int
	D    int64 // ns
	Code int
	A, B int
	Samp bool
}

type S07Case struct {
	Ops    []StOp
	Ranges [][2]int64
	Codes  []int
}

var bounds = []int64{0, 10e3, 100e3, 1e6, 10e6, 100e6, 1e9, 10e9, 60e9}

func genDur(t *rapid.T, l string) int64 {
	b := bounds[Int(t, l+"b", 0, len(bounds)-1)]
	d := b + int64(Pick(t, l+"d", 0, 0, -1, 1, 999, 5000))
	if d < 0 {
		d = 0
	}
	return d
}

func genS07(t *rapid.T) S07Case {
	var c S07Case
	n := Int(t, "n", 3, 60)
	fav := Pick(t, "fav", "end", "start", "sleep", "burst", "size")
	for i := 0; i < n; i++ {
		o := StOp{Op: Pick(t, "op", "start", "start", "end", "end", "end", "status", "name", "size", "sleep", "burst", fav, fav), Name: Int(t, "name", 0, 2), Span: Int(t, "span", 0, 7), Samp: Bool(t, "samp")}
		if Bool(t, "hot") {
			o.Name = 0
		}
		switch o.Op {
		case "end":
			o.D = genDur(t, "d")
			if Bool(t, "short") {
				o.D %= 2e6
			}
		case "sleep":
			o.D = Pick[int64](t, "sl", 1, 999999999, 1000000000, 500000000, 3000000000)
		case "status":
			o.Code = Pick(t, "code", 0, 1, 1, 2, 5, -3, 200)
		case "name":
			o.Code = Int(t, "to", 0, 3)
		case "size":
			o.A, o.B = Pick(t, "a", -1, 0, 1, 2, 3, 4, 5, 12), Pick(t, "b", -1, 0, 1, 2, 3, 4, 5, 12)
		case "burst":
			o.A, o.D, o.Code = Int(t, "k", 1, 7), genDur(t, "d"), Pick(t, "bcode", 0, 0, 1, 2, -3)
			if Bool(t, "short") {
				o.D %= 10000
			}
		}
		c.Ops = append(c.Ops, o)
	}
	for i := 0; i < 3; i++ {
		c.Ranges = append(c.Ranges, [2]int64{genDur(t, "rmin"), genDur(t, "rmax")})
	}
	c.Codes = []int{0, 1, 2, 5, -3, 200, 7}
	return c
}

type mBucket struct {
	next time.Time
	ids  []trace.SpanID
	cap  int
}

func (b *mBucket) add(id trace.SpanID, end time.Time) {
	if b.cap == 0 || end.Before(b.next) {
		return
	}
	b.next = end.Add(time.Second)
	b.ids = append(b.ids, id)
	b.trim()
}
func (b *mBucket) trim() {
	if len(b.ids) > b.cap {
		b.ids = b.ids[len(b.ids)-b.cap:]
	}
}

type mStore struct {
	active map[trace.SpanID]bool
	lat    [9]mBucket
	errs   map[int32]*mBucket
	errCap int
}

func latBucket(d time.Duration) int {
	i := 0
	for i < 8 && int64(d) >= bounds[i+1] {
		i++
	}
	return i
}

func ids(ds []*trace.SpanData) string {
	var out []string
	for _, d := range ds {
		out = append(out, fmt.Sprintf("%x", d.SpanContext.SpanID[:]))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func idStr(l []trace.SpanID) string {
	var out []string
	for _, d := range l {
		out = append(out, fmt.Sprintf("%x", d[:]))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func execS07(cx *Ctx, c S07Case) error {
	internal.LocalSpanStoreEnabled = true
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	base := fmt.Sprintf("case%d-", nameSeq.Add(1))
	return Bubble(cx, func() error {
		stores := map[string]*mStore{}
		get := func(n string, a, b int) *mStore {
			s := stores[n]
			if s == nil {
				s = &mStore{active: map[trace.SpanID]bool{}, errs: map[int32]*mBucket{}, errCap: b}
				for i := range s.lat {
					s.lat[i].cap = a
				}
				stores[n] = s
			}
			return s
		}
		type live struct {
			sp     *trace.Span
			store  string
			name   string
			status int32
			start  time.Time
			dur    time.Duration
			over   bool
		}
		var spans []*live
		all := map[trace.SpanID]*live{}
		stored, skipped, resized := 0, 0, false
		// The per-method report covers every name the process ever used, so
		// it is only read where asked for.
		check := func(step string, summary bool) error {
			var per map[string]internal.PerMethodSummary
			if summary {
				per = store().ReportSpansPerMethod()
			}
			for i := 0; i < 3; i++ {
				n := fmt.Sprint(base, i)
				m := stores[n]
				if m == nil {
					if _, ok := per[n]; ok || store().ReportActiveSpans(n) != nil || store().ReportSpansByLatency(n, 0, 0) != nil || store().ReportSpansByError(n, 0) != nil {
						return Errf("%s: a name that was never used has a report", step)
					}
					continue
				}
				var act []trace.SpanID
				for id := range m.active {
					act = append(act, id)
				}
				ra := store().ReportActiveSpans(n)
				if ids(ra) != idStr(act) {
					return Errf("%s: active spans %s, want %s", step, ids(ra), idStr(act))
				}
				for _, d := range ra {
					if l := all[d.SpanContext.SpanID]; d.Name != l.name || d.Status.Code != l.status || !d.EndTime.IsZero() {
						return Errf("%s: active span reported as %s", step, dump(d))
					}
				}
				sum, ok := per[n]
				if !summary {
					sum.Active, sum.LatencyBuckets = len(act), make([]internal.LatencyBucketSummary, 9)
				} else if !ok || sum.Active != len(act) || len(sum.LatencyBuckets) != 9 {
					return Errf("%s: summary %+v, want %d active", step, sum, len(act))
				}
				var lat []trace.SpanID
				for j, b := range m.lat {
					lat = append(lat, b.ids...)
					lb := sum.LatencyBuckets[j]
					if summary && (lb.Size != len(b.ids) || int64(lb.MinLatency) != bounds[j] || (j < 8 && int64(lb.MaxLatency) != bounds[j+1])) {
						return Errf("%s: latency bucket %d is %+v, want %d spans", step, j, lb, len(b.ids))
					}
				}
				esize := map[int32]int{}
				for _, e := range sum.ErrorBuckets {
					esize[e.ErrorCode] += e.Size
				}
				var errs []trace.SpanID
				for code, b := range m.errs {
					errs = append(errs, b.ids...)
					if summary && esize[code] != len(b.ids) {
						return Errf("%s: error bucket %d has size %d, want %d", step, code, esize[code], len(b.ids))
					}
					delete(esize, code)
				}
				for code, k := range esize {
					if k != 0 {
						return Errf("%s: unexpected error bucket %d of %d", step, code, k)
					}
				}
				for _, code := range c.Codes {
					want := errs
					if code != 0 {
						want = nil
						if b := m.errs[int32(code)]; b != nil {
							want = b.ids
						}
					}
					if got := ids(store().ReportSpansByError(n, int32(code))); got != idStr(want) {
						return Errf("%s: spans with error %d: %s, want %s", step, code, got, idStr(want))
					}
				}
				for _, r := range append([][2]int64{{0, 0}, {bounds[(len(spans))%9], bounds[(len(spans)+1)%9]}}, c.Ranges...) {
					var want []trace.SpanID
					for _, id := range lat {
						d := int64(all[id].dur)
						if d >= r[0] && (r[1] == 0 || d <= r[1]) {
							want = append(want, id)
						}
					}
					got := store().ReportSpansByLatency(n, time.Duration(r[0]), time.Duration(r[1]))
					if ids(got) != idStr(want) {
						return Errf("%s: spans with latency in %v: %s, want %s", step, r, ids(got), idStr(want))
					}
					for _, d := range got {
						if l := all[d.SpanContext.SpanID]; d.Name != l.name || d.EndTime.Sub(d.StartTime) != l.dur || !d.StartTime.Equal(l.start) {
							return Errf("%s: stored span reported as %s", step, dump(d))
						}
					}
				}
			}
			return nil
		}
		end := func(l *live) {
			l.over = true
			l.dur = time.Since(l.start)
			m := stores[l.store]
			id := l.sp.SpanContext().SpanID
			l.sp.End()
			delete(m.active, id)
			b := &m.lat[latBucket(l.dur)]
			if l.status != 0 {
				b = m.errs[l.status]
				if b == nil {
					b = &mBucket{cap: m.errCap}
					m.errs[l.status] = b
				}
			}
			before := b.next
			b.add(id, time.Now())
			if b.next == before {
				skipped++
			} else {
				stored++
			}
		}
		for i, o := range c.Ops {
			n := fmt.Sprint(base, o.Name)
			var l *live
			if len(spans) > 0 {
				l = spans[o.Span%len(spans)]
			}
			switch o.Op {
			case "start":
				if len(spans) < 30 {
					s := trace.NeverSample()
					if o.Samp {
						s = trace.AlwaysSample()
					}
					_, sp := trace.StartSpan(context.Background(), n, trace.WithSampler(s))
					get(n, 10, 10).active[sp.SpanContext().SpanID] = true
					l = &live{sp: sp, store: n, name: n, start: time.Now()}
					spans = append(spans, l)
					all[sp.SpanContext().SpanID] = l
				}
			case "end":
				time.Sleep(time.Duration(o.D))
				// prefer a span that is still open
				for k := 0; l != nil && l.over && k < len(spans); k++ {
					l = spans[(o.Span+k)%len(spans)]
				}
				if l != nil && !l.over {
					end(l)
				} else if l != nil {
					l.sp.End()
				}
			case "status":
				if l != nil {
					l.sp.SetStatus(trace.Status{Code: int32(o.Code)})
					if !l.over {
						l.status = int32(o.Code)
					}
				}
			case "name":
				if l != nil {
					to := []string{"renamed", "/route", "", n}[o.Code&3] // n: another store's name, maybe
					l.sp.SetName(to)
					if !l.over {
						l.name = to
					}
				}
			case "sleep":
				time.Sleep(time.Duration(o.D))
			case "burst":
				// spans of one bucket, each far enough from the last to be kept
				for k := 0; k < o.A; k++ {
					_, sp := trace.StartSpan(context.Background(), n, trace.WithSampler(trace.NeverSample()))
					get(n, 10, 10).active[sp.SpanContext().SpanID] = true
					l := &live{sp: sp, store: n, name: n, start: time.Now(), status: int32(o.Code)}
					all[sp.SpanContext().SpanID] = l
					if o.Code != 0 {
						sp.SetStatus(trace.Status{Code: int32(o.Code)})
					}
					time.Sleep(time.Duration(o.D))
					end(l)
					time.Sleep(time.Second)
				}
			case "size":
				store().ConfigureBucketSizes([]internal.BucketConfiguration{{Name: n, MaxRequestsSucceeded: o.A, MaxRequestsErrors: o.B}})
				a, b := max(o.A, 0), max(o.B, 0)
				if stores[n] != nil {
					resized = true
				}
				m := get(n, a, b)
				m.errCap = b
				for j := range m.lat {
					m.lat[j].cap = a
					m.lat[j].trim()
				}
				for _, e := range m.errs {
					e.cap = b
					e.trim()
				}
			}
			if i%3 == 0 || i == len(c.Ops)-1 {
				if err := check(fmt.Sprintf("after op %d (%s)", i, o.Op), i == len(c.Ops)/2); err != nil {
					return err
				}
			}
		}
		for _, l := range spans {
			if !l.over {
				end(l)
			}
		}
		if err := check("after ending all spans", true); err != nil {
			return err
		}
		cx.ClassIf(stored > 3, "more-than-3-spans-stored")
		cx.ClassIf(skipped > 0, "within-the-sample-period")
		cx.ClassIf(resized, "resized-existing")
		cx.NonTrivial(stored > 0)
		return nil
	})
}

// S07Many is goroutines that use spans of the same new names.
type S07Many struct {
	Size    int
	Crowd   int // spans of the first name that run all the time
	Workers [][]StOp
}

func genS07Many(t *rapid.T) S07Many {
	c := S07Many{Size: Pick(t, "size", 1, 4, 15)}
	if OneIn(t, "crowded", 40) {
		c.Crowd = Pick(t, "crowd", 100, 1100, 3000, 9000)
	}
	n := Int(t, "workers", 2, 8)
	for i := 0; i < n; i++ {
		c.Workers = append(c.Workers, Slice(t, "ops", 1, 6, func(t *rapid.T) StOp {
			return StOp{Op: Pick(t, "op", "start", "start", "end", "size", "report"), Name: Int(t, "name", 0, 1), Code: Pick(t, "code", 0, 0, 5), Samp: Bool(t, "samp")}
		}))
	}
	return c
}

func execS07Many(cx *Ctx, c S07Many) error {
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	id := nameSeq.Add(1)
	name := func(i int) string { return fmt.Sprintf("many-%d-%d", id, i) }
	var sized [2]atomic.Bool
	var ended [2]atomic.Int64
	type live struct {
		sp *trace.Span
		n  int
	}
	open := make([][]live, len(c.Workers)+1)
	for i := 0; i < c.Crowd; i++ {
		_, sp := trace.StartSpan(context.Background(), name(0), trace.WithSampler(trace.NeverSample()))
		open[len(c.Workers)] = append(open[len(c.Workers)], live{sp, 0})
	}
	cx.ClassIf(c.Crowd > 0, "crowded")
	errs := make([]error, len(c.Workers))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for w, ops := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, o := range ops {
				switch o.Op {
				case "start":
					samp := trace.NeverSample()
					if o.Samp {
						samp = trace.AlwaysSample()
					}
					_, sp := trace.StartSpan(context.Background(), name(o.Name), trace.WithSampler(samp))
					open[w] = append(open[w], live{sp, o.Name})
				case "end":
					if len(open[w]) > 0 {
						l := open[w][0]
						open[w] = open[w][1:]
						l.sp.SetStatus(trace.Status{Code: int32(o.Code)})
						l.sp.End()
						ended[l.n].Add(1)
					}
				case "size":
					store().ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name(o.Name), MaxRequestsSucceeded: c.Size, MaxRequestsErrors: c.Size}})
					sized[o.Name].Store(true)
				case "report":
					// own spans are there, whatever others do
					have := map[trace.SpanID]bool{}
					for _, d := range store().ReportActiveSpans(name(o.Name)) {
						have[d.SpanID] = true
					}
					for _, l := range open[w] {
						if l.n == o.Name && !have[l.sp.SpanContext().SpanID] {
							errs[w] = Errf("a running span is not among the active ones")
						}
					}
					if o.Samp && o.Code == 5 && id%4 == 0 {
						store().ReportSpansPerMethod()
					}
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for i := range ended {
		want := map[trace.SpanID]bool{}
		for _, l := range open {
			for _, x := range l {
				if x.n == i {
					want[x.sp.SpanContext().SpanID] = true
				}
			}
		}
		act := store().ReportActiveSpans(name(i))
		for _, d := range act {
			if !want[d.SpanID] {
				return Errf("an ended span is active")
			}
		}
		if len(act) != len(want) {
			return Errf("%d active spans, want %d", len(act), len(want))
		}
		size := 10
		if sized[i].Load() {
			size = c.Size
		}
		kept := len(store().ReportSpansByLatency(name(i), 0, 0)) + len(store().ReportSpansByError(name(i), 5))
		if n := int(ended[i].Load()); kept > n || (kept == 0) != (n == 0) {
			return Errf("%d spans kept of %d", kept, n)
		}
		if sized[i].Load() || len(want) > 0 || ended[i].Load() > 0 {
			// the size holds from now on
			err := Bubble(cx, func() error {
				for k := 0; k < size+2; k++ {
					_, sp := trace.StartSpan(context.Background(), name(i), trace.WithSampler(trace.AlwaysSample()))
					sp.SetStatus(trace.Status{Code: 9})
					sp.End()
					time.Sleep(1100 * time.Millisecond)
				}
				return nil
			})
			if err != nil {
				return err
			}
			if n := len(store().ReportSpansByError(name(i), 9)); n != size {
				return Errf("%d failed spans kept in a bucket for %d", n, size)
			}
			cx.ClassIf(sized[i].Load(), "sized")
		}
	}
	for _, l := range open {
		for _, x := range l {
			x.sp.End()
		}
	}
	cx.NonTrivial(ended[0].Load()+ended[1].Load() > 1)
	return nil
}

func TestS07(t *testing.T) {
	Check(t, "S07", "store", Opts{Quick: 500, Thorough: 3000,
		Rule: "histories of up to 60 span starts, ends with latencies on and around every bucket boundary, statuses, renames, pauses around the one-second sample period and bucket resizes over three span names under a fake clock, all reports compared every third step; non-trivial when a finished span is stored"},
		genS07, execS07)
	Check(t, "S07", "concurrent", Opts{Quick: 1500, Thorough: 30000,
		Rule: "2-8 goroutines that start and end spans of two new names, resize their buckets and read the reports at once, now and then among up to 9000 running spans; non-trivial when several spans are ended"},
		genS07Many, execS07Many)
}
