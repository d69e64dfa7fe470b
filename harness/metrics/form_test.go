package metrics

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- M08 every exported metric is well-formed ----

// M08View is a view of the case.
type M08View struct {
	Measure int
	Agg     string
	Bounds  []F
	Keys    int
}

// M08Op is an update.
type M08Op struct {
	On     int // view or metric
	Labels []int
	V      F
	Attach bool
}

// M08Case is a set of metrics of every origin, updated and exported at once.
type M08Case struct {
	Views   []M08View
	Specs   []MSpec
	Writers [][]M08Op
	Reads   int
	Run     int
	Yield   int
}

func genM08(t *rapid.T) M08Case {
	return M08Case{
		Views: Slice(t, "views", 0, 4, func(t *rapid.T) M08View {
			v := M08View{Measure: Int(t, "measure", 0, 5), Agg: Pick(t, "agg", "count", "sum", "last", "dist", "dist", "dist"), Keys: Int(t, "keys", 0, 2)}
			x := Pick(t, "lowest", 0, 0, 0.5, 1, 10)
			for n := Int(t, "bounds", 0, 5); n > 0; n-- {
				v.Bounds = append(v.Bounds, F(x))
				x += Pick(t, "step", 0.25, 1, 5, 1000)
			}
			return v
		}),
		Specs: Slice(t, "specs", 0, 5, genSpec),
		Writers: Slice(t, "writers", 1, 3, func(t *rapid.T) []M08Op {
			return Slice(t, "ops", 0, 25, func(t *rapid.T) M08Op {
				return M08Op{On: Int(t, "on", 0, 8), Labels: Slice(t, "labels", 3, 3, func(t *rapid.T) int { return Int(t, "label", 0, 3) }), V: Pick[F](t, "v", 0, 1, 0.5, 0.25, 2, 7, 10.5, -3, 999, 1e6, -0.25), Attach: Bool(t, "attach")}
			})
		}),
		Reads: Int(t, "reads", 1, 6), Run: Int(t, "run", 0, 4), Yield: Int(t, "yield", 0, 3),
	}
}

// visited notes which method of a visitor a point called.
type visited struct {
	calls []string
	val   interface{}
}

func (v *visited) VisitFloat64Value(x float64) { v.calls, v.val = append(v.calls, "float64"), x }
func (v *visited) VisitInt64Value(x int64)     { v.calls, v.val = append(v.calls, "int64"), x }
func (v *visited) VisitDistributionValue(x *metricdata.Distribution) {
	v.calls, v.val = append(v.calls, "distribution"), x
}
func (v *visited) VisitSummaryValue(x *metricdata.Summary) {
	v.calls, v.val = append(v.calls, "summary"), x
}

var methodOf = map[metricdata.Type]string{
	metricdata.TypeGaugeInt64: "int64", metricdata.TypeGaugeFloat64: "float64", metricdata.TypeGaugeDistribution: "distribution",
	metricdata.TypeCumulativeInt64: "int64", metricdata.TypeCumulativeFloat64: "float64", metricdata.TypeCumulativeDistribution: "distribution",
	metricdata.TypeSummary: "summary",
}

func cumulative(t metricdata.Type) bool {
	return t >= metricdata.TypeCumulativeInt64
}

// wellFormed holds for what an exporter may rely on in a metric.
func wellFormed(m *metricdata.Metric, t0, t1 time.Time) error {
	d := m.Descriptor
	bad := func(format string, a ...interface{}) error {
		return Errf("metric %q of type %v: %s", d.Name, d.Type, fmt.Sprintf(format, a...))
	}
	method, ok := methodOf[d.Type]
	if !ok || d.Name == "" {
		return bad("descriptor %+v", d)
	}
	switch d.Unit {
	case metricdata.UnitDimensionless, metricdata.UnitBytes, metricdata.UnitMilliseconds:
	default:
		return bad("unit %q", d.Unit)
	}
	seen := map[string]bool{}
	for _, ts := range m.TimeSeries {
		if len(ts.LabelValues) != len(d.LabelKeys) {
			return bad("%d label values for %d keys", len(ts.LabelValues), len(d.LabelKeys))
		}
		for _, l := range ts.LabelValues {
			if !l.Present && l.Value != "" {
				return bad("a label that is not present has the value %q", l.Value)
			}
		}
		if v := vec(ts.LabelValues); seen[v] {
			return bad("two series with labels %q", v)
		} else {
			seen[v] = true
		}
		if len(ts.Points) != 1 {
			return bad("%d points", len(ts.Points))
		}
		p := ts.Points[0]
		if p.Time.Before(t0) || p.Time.After(t1) {
			return bad("read between %v and %v at %v", t0, t1, p.Time)
		}
		if ts.StartTime.After(p.Time) {
			return bad("starts at %v and is read at %v", ts.StartTime, p.Time)
		}
		if cumulative(d.Type) && ts.StartTime.IsZero() {
			return bad("has no start")
		}
		var v visited
		p.ReadValue(&v)
		if len(v.calls) != 1 || v.calls[0] != method {
			return bad("a point calls %v of its visitor", v.calls)
		}
		if x, ok := v.val.(*metricdata.Distribution); ok {
			if x == nil {
				return bad("no distribution")
			}
			if err := distForm(x, t1); err != nil {
				return bad("%v", err)
			}
		}
	}
	return nil
}

func distForm(x *metricdata.Distribution, t1 time.Time) error {
	if x.Count < 0 || math.IsNaN(x.Sum) || math.IsNaN(x.SumOfSquaredDeviation) || x.SumOfSquaredDeviation < -1e-6*(1+x.Sum*x.Sum) {
		return Errf("distribution %+v", x)
	}
	if x.Count == 0 && (x.Sum != 0 || x.SumOfSquaredDeviation != 0) {
		return Errf("the empty distribution %+v", x)
	}
	if x.BucketOptions == nil {
		if len(x.Buckets) != 0 {
			return Errf("%d buckets without bounds", len(x.Buckets))
		}
		return nil
	}
	b := x.BucketOptions.Bounds
	if len(x.Buckets) == 0 && len(b) == 0 {
		return nil
	}
	if len(x.Buckets) != len(b)+1 {
		return Errf("%d buckets for bounds %v", len(x.Buckets), b)
	}
	n := int64(0)
	for i, k := range x.Buckets {
		lo, hi := math.Inf(-1), math.Inf(1)
		if i > 0 {
			lo = b[i-1]
		}
		if i < len(b) {
			hi = b[i]
		}
		if !(lo < hi) || i < len(b) && hi <= 0 {
			return Errf("bounds %v", b)
		}
		if k.Count < 0 {
			return Errf("bucket %d counts %d", i, k.Count)
		}
		n += k.Count
		if e := k.Exemplar; e != nil {
			if k.Count == 0 {
				return Errf("bucket %d is empty and has an exemplar", i)
			}
			if e.Value < lo || e.Value >= hi || e.Timestamp.After(t1) {
				return Errf("bucket %d [%v,%v) has exemplar %+v", i, lo, hi, e)
			}
		}
	}
	if n != x.Count {
		return Errf("buckets count %d, the distribution %d", n, x.Count)
	}
	return nil
}

type formExporter struct {
	t0   time.Time
	err  error
	seen map[string]*metricdata.Metric
	kept []*metricdata.Metric // as handed over, and what they said then
	dump string
}

// dumpForm is all that ms says.
func dumpForm(ms []*metricdata.Metric) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "%+v %v\n", m.Descriptor, m.Resource)
		for _, ts := range m.TimeSeries {
			fmt.Fprintln(&b, vec(ts.LabelValues), ts.StartTime)
			for _, p := range ts.Points {
				if d, ok := p.Value.(*metricdata.Distribution); ok && d != nil {
					fmt.Fprintln(&b, p.Time, d.Count, d.Sum, d.SumOfSquaredDeviation, d.BucketOptions)
					for _, k := range d.Buckets {
						fmt.Fprintln(&b, k.Count, k.Exemplar)
					}
					continue
				}
				fmt.Fprintln(&b, p.Time, p.Value)
			}
		}
	}
	return b.String()
}

func (e *formExporter) ExportMetrics(_ context.Context, ms []*metricdata.Metric) error {
	t1 := time.Now()
	e.seen = map[string]*metricdata.Metric{}
	for _, m := range ms {
		if m == nil {
			e.err = Errf("a metric is nil")
			return nil
		}
		if e.err == nil {
			e.err = wellFormed(m, e.t0, t1)
		}
		if e.seen[m.Descriptor.Name] != nil && e.err == nil {
			e.err = Errf("metric %q is exported twice", m.Descriptor.Name)
		}
		e.seen[m.Descriptor.Name] = m
	}
	e.kept = ms
	e.dump = dumpForm(ms)
	return nil
}

var formMeasures = []stats.Measure{
	stats.Int64("m08/i1", "", stats.UnitDimensionless), stats.Int64("m08/ib", "", stats.UnitBytes), stats.Int64("m08/ix", "", "parsecs"),
	stats.Float64("m08/f1", "", stats.UnitDimensionless), stats.Float64("m08/fm", "", stats.UnitMilliseconds), stats.Float64("m08/fe", "", ""),
}

var formKeys = []tag.Key{tag.MustNewKey("m08a"), tag.MustNewKey("m08b")}

func execM08(cx *Ctx, c M08Case) error {
	meter := view.NewMeter()
	meter.Start()
	defer meter.Stop()
	want := map[string]map[string]bool{} // series of each metric that is sure to be there
	var wantMu sync.Mutex
	for i, v := range c.Views {
		agg := view.Count()
		switch v.Agg {
		case "sum":
			agg = view.Sum()
		case "last":
			agg = view.LastValue()
		case "dist":
			agg = view.Distribution(fs(v.Bounds)...)
		}
		vw := &view.View{Name: fmt.Sprint("view", i), Measure: formMeasures[v.Measure], Aggregation: agg, TagKeys: formKeys[:v.Keys]}
		if err := meter.Register(vw); err != nil {
			return err
		}
		want[vw.Name] = map[string]bool{}
	}
	reg := metric.NewRegistry()
	metricproducer.GlobalManager().AddProducer(reg)
	defer metricproducer.GlobalManager().DeleteProducer(reg)
	type target struct {
		h     handle
		kind  int
		nkeys int
		name  string
	}
	var targets []target
	for i, s := range c.Specs {
		name := fmt.Sprint("metric", i)
		var keys []string
		for j := 0; j < s.Keys; j++ {
			keys = append(keys, fmt.Sprint("k", j))
		}
		opts := []metric.Options{metric.WithLabelKeys(keys...), metric.WithUnit(metricdata.UnitBytes)}
		h, err := add(reg, s.Kind, name, opts...)
		if err != nil {
			return err
		}
		targets = append(targets, target{h, s.Kind, s.Keys, name})
		want[name] = map[string]bool{}
	}
	if c.Run > 0 {
		if err := runmetrics.Enable(runmetrics.RunMetricOptions{EnableCPU: c.Run%2 == 1, EnableMemory: true, UseDerivedCumulative: c.Run > 2, Prefix: "run/"}); err != nil {
			return err
		}
		defer runmetrics.Disable()
	}
	n := len(c.Views) + len(targets)
	errs := make(chan error, len(c.Writers))
	var wg sync.WaitGroup
	for _, ops := range c.Writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, o := range ops {
				if n == 0 {
					return
				}
				if c.Yield > 0 && k%c.Yield == 0 {
					runtime.Gosched()
				}
				i := o.On % n
				if i < len(c.Views) {
					v := c.Views[i]
					ctx := context.Background()
					have := map[int]string{}
					for j, l := range o.Labels[:2] {
						if l > 0 {
							have[j] = fmt.Sprint("v", l)
							ctx, _ = tag.New(ctx, tag.Upsert(formKeys[j], have[j]))
						}
					}
					var m stats.Measurement
					x := float64(o.V)
					switch k := formMeasures[v.Measure].(type) {
					case *stats.Int64Measure:
						m = k.M(int64(x))
					case *stats.Float64Measure:
						m = k.M(x)
					}
					opts := []stats.Options{stats.WithRecorder(meter), stats.WithMeasurements(m)}
					if o.Attach {
						opts = append(opts, stats.WithAttachments(map[string]interface{}{"k": i}))
					}
					if err := stats.RecordWithOptions(ctx, opts...); err != nil {
						errs <- err
						return
					}
					wantMu.Lock()
					for j, u := range c.Views {
						if u.Measure != v.Measure {
							continue
						}
						var ls []metricdata.LabelValue
						for q := 0; q < u.Keys; q++ {
							ls = append(ls, metricdata.LabelValue{Value: have[q], Present: have[q] != ""})
						}
						want[fmt.Sprint("view", j)][vec(ls)] = true
					}
					wantMu.Unlock()
					continue
				}
				x := targets[i-len(c.Views)]
				var ls []metricdata.LabelValue
				for j := 0; j < x.nkeys; j++ {
					l := metricdata.LabelValue{}
					if q := o.Labels[j%3]; q > 0 {
						l = metricdata.NewLabelValue(strings.Repeat("v", q-1))
					}
					ls = append(ls, l)
				}
				if isDerived(x.kind) {
					if err := x.h.upsert(float64(o.V), false, ls); err != nil {
						errs <- err
						return
					}
				} else {
					e, err := x.h.get(ls)
					if err != nil {
						errs <- err
						return
					}
					e.apply(o.Attach, float64(o.V))
				}
				wantMu.Lock()
				want[x.name][vec(ls)] = true
				wantMu.Unlock()
			}
		}()
	}
	read := func() (*formExporter, error) {
		e := &formExporter{t0: time.Now()}
		metricexport.NewReader().ReadAndExport(e)
		return e, e.err
	}
	var err error
	var earlier []*formExporter
	for i := 0; i < c.Reads && err == nil; i++ {
		var e *formExporter
		e, err = read()
		earlier = append(earlier, e)
		runtime.Gosched()
	}
	wg.Wait()
	if err != nil {
		return err
	}
	select {
	case err := <-errs:
		return err
	default:
	}
	meter.Find("") // behind the records in the meter's queue
	e, err := read()
	if err != nil {
		return err
	}
	for i, x := range earlier {
		if now := dumpForm(x.kept); now != x.dump {
			return Errf("what was exported by reading %d changed afterwards\nfrom %s\nto %s", i, x.dump, now)
		}
	}
	for name, series := range want {
		m := e.seen[name]
		if m == nil {
			if len(series) > 0 {
				return Errf("%q has %d series and is not exported", name, len(series))
			}
			continue
		}
		got := map[string]bool{}
		for _, ts := range m.TimeSeries {
			got[vec(ts.LabelValues)] = true
		}
		if len(got) != len(series) {
			return Errf("%q has series %v, exported are %v", name, series, got)
		}
		for s := range series {
			if !got[s] {
				return Errf("%q has series %v, exported are %v", name, series, got)
			}
		}
		cx.Class("type-%v", m.Descriptor.Type)
	}
	cx.ClassIf(e.seen["run/process/memory_alloc"] != nil, "runtime")
	cx.NonTrivial(len(want) > 1 && len(e.seen) > 1)
	return nil
}

func fs(l []F) []float64 {
	var out []float64
	for _, x := range l {
		out = append(out, float64(x))
	}
	return out
}

// PointCase is a point of any kind.
type PointCase struct {
	Kind    int
	N       int64
	V       F
	T       int64
	Summary metricdata.Snapshot
}

func genPoint(t *rapid.T) PointCase {
	return PointCase{Kind: Int(t, "kind", 0, 5), N: rapid.Int64().Draw(t, "n"), V: F(rapid.Float64().Draw(t, "v")), T: rapid.Int64().Draw(t, "t"), Summary: metricdata.Snapshot{Count: rapid.Int64().Draw(t, "count"), Sum: rapid.Float64().Draw(t, "sum")}}
}

func execPoint(cx *Ctx, c PointCase) error {
	at := time.Unix(0, c.T)
	var p metricdata.Point
	var want interface{}
	method := ""
	switch c.Kind {
	case 0:
		p, want, method = metricdata.NewInt64Point(at, c.N), c.N, "int64"
	case 1:
		p, want, method = metricdata.NewFloat64Point(at, float64(c.V)), float64(c.V), "float64"
	case 2:
		d := &metricdata.Distribution{Count: c.N, Sum: float64(c.V)}
		p, want, method = metricdata.NewDistributionPoint(at, d), d, "distribution"
	case 3:
		s := &metricdata.Summary{Count: c.N, Sum: float64(c.V), Snapshot: c.Summary}
		p, want, method = metricdata.NewSummaryPoint(at, s), s, "summary"
	case 4:
		var d *metricdata.Distribution
		p, want, method = metricdata.NewDistributionPoint(at, d), d, "distribution"
	case 5: // a value of no known kind is no other kind's
		p = metricdata.Point{Time: at, Value: int32(c.N)}
	}
	var v visited
	panicked := func() (r bool) {
		defer func() { r = recover() != nil }()
		p.ReadValue(&v)
		return
	}()
	cx.NonTrivial(true)
	cx.Class("kind-%d", c.Kind)
	if method == "" {
		if len(v.calls) != 0 || !panicked {
			return Errf("a point of an unknown kind calls %v", v.calls)
		}
		return nil
	}
	if panicked || len(v.calls) != 1 || v.calls[0] != method || v.val != want || !p.Time.Equal(at) {
		return Errf("a point with %v calls %v with %v (panic: %v)", want, v.calls, v.val, panicked)
	}
	if l := metricdata.NewLabelValue(fmt.Sprint(c.N)); !l.Present || l.Value != fmt.Sprint(c.N) {
		return Errf("label value %+v", l)
	}
	return nil
}

func TestM08(t *testing.T) {
	Check(t, "M08", "form", Opts{Quick: 800, Thorough: 12000,
		Rule: "up to 4 views, 5 metrics of the 8 kinds and the runtime metrics, updated by 1-3 goroutines while a reader exports them; every metric of every export is checked, and again when the updates are over, and the last export is complete; non-trivial with two metrics of the case's or more; race detector"},
		genM08, execM08)
	Check(t, "M08", "point", Opts{Quick: 1500, Thorough: 20000,
		Rule: "a point of each kind is read by a visitor; all are non-trivial"},
		genPoint, execPoint)
}
