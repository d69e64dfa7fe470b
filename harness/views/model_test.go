package views

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

type mspec struct {
	name, desc, unit string
	i                *stats.Int64Measure
	f                *stats.Float64Measure
}

func (m mspec) measure() stats.Measure {
	if m.i != nil {
		return m.i
	}
	return m.f
}

func (m mspec) m(v float64) stats.Measurement {
	if m.i != nil {
		return m.i.M(int64(v))
	}
	return m.f.M(v)
}

func (m mspec) unitWant(agg string) metricdata.Unit {
	if agg == "count" {
		return "1"
	}
	switch m.unit {
	case "ms", "By":
		return metricdata.Unit(m.unit)
	}
	return "1"
}

var measures = func() []mspec {
	var out []mspec
	for _, u := range []string{"ms", "By", "1", "kitten"} {
		n := "verif/int/" + u
		out = append(out, mspec{name: n, desc: "int " + u, unit: u, i: stats.Int64(n, "int "+u, u)})
		n = "verif/float/" + u
		out = append(out, mspec{name: n, desc: "float " + u, unit: u, f: stats.Float64(n, "float "+u, u)})
	}
	return out
}()

var tagKeys = func() []tag.Key {
	var out []tag.Key
	for _, k := range []string{"k1", "k2", "a", "z"} {
		out = append(out, tag.MustNewKey(k))
	}
	return out
}()

// wideKeys has more keys for views with many.
var wideKeys = func() []tag.Key {
	out := append([]tag.Key(nil), tagKeys...)
	for i := 0; i < 30; i++ {
		out = append(out, tag.MustNewKey(fmt.Sprintf("%c%02d", "wmA"[i%3], i)))
	}
	return out
}()

var errNegative = view.ErrNegativeBucketBounds

// ASpec is an aggregation; views of a case may share one.
type ASpec struct {
	T       string // count sum last dist
	Buckets []F
}

// VSpec is a view.
type VSpec struct {
	Name    int // -1: unset (defaults to the measure's name)
	Bad     int // 1 name too long 2 name not printable 3 no measure 4 no aggregation
	Desc    S
	Measure int
	Agg     int
	CopyOf  int // >0: a copy of view CopyOf-1 under the same name
}

// Sample is one measurement of a Record call.
type Sample struct {
	Measure int
	V       F
}

// EOp is one step of a history.
type EOp struct {
	Op    string // reg unreg find rec get read sleep period addexp delexp res
	Spoil bool   // get, read: the caller changes what it was given
	W     int    // meter
	Views []int
	Ss    []Sample
	Tags  []int // per key: 0 absent, 1 empty, else a value
	Att   int   // 0 none
	D     int64
	I     int
}

// ECase is a history over one or two meters.
type ECase struct {
	Aggs   []ASpec
	Keys   [][]int // tag keys by view name (last entry: unset name)
	Views  []VSpec
	Ops    []EOp
	Meters int
}

var long = strings.Repeat("x", 255)
var tagVals = []string{"", "", "v", "w", "vv", long, "x"}

const nNames = 4

func genV(t *rapid.T, l string) F {
	if Bool(t, l+"boundary") {
		return F(Pick(t, l+"b", 0.0, 1, 2, 5, 10, -1, 0.25, 100))
	}
	return F(float64(Int(t, l, -400, 4000)) / 4)
}

// weights of the operations, by property
func genE(ops []string, dist bool, nviews, maxops, meters int) func(*rapid.T) ECase {
	return func(t *rapid.T) ECase {
		c := ECase{Meters: meters}
		na := Int(t, "aggs", 1, 4)
		for i := 0; i < na; i++ {
			a := ASpec{T: Pick(t, "agg", "count", "sum", "last", "dist", "dist")}
			if dist {
				a.T = "dist"
			}
			if a.T == "dist" {
				a.Buckets = Slice(t, "buckets", 0, 5, func(t *rapid.T) F {
					if OneIn(t, "neg", 25) {
						return -1
					}
					return F(Pick(t, "bound", 0.0, 1, 2, 5, 10, 0.25, 100, 3))
				})
			}
			c.Aggs = append(c.Aggs, a)
		}
		wide := OneIn(t, "wide", 12)
		for i := 0; i <= nNames; i++ {
			if wide && Bool(t, "wideView") {
				c.Keys = append(c.Keys, rapid.SliceOfNDistinct(rapid.IntRange(0, len(wideKeys)-1), 5, len(wideKeys), func(i int) int { return i }).Draw(t, "keys"))
				continue
			}
			c.Keys = append(c.Keys, rapid.SliceOfNDistinct(rapid.IntRange(0, 3), 0, 3, func(i int) int { return i }).Draw(t, "keys"))
		}
		nv := Int(t, "views", 1, nviews)
		for i := 0; i < nv; i++ {
			v := VSpec{Name: Int(t, "name", 0, nNames-1), Desc: Pick[S](t, "desc", "", "described"), Measure: Int(t, "measure", 0, len(measures)-1), Agg: Int(t, "aggi", 0, na-1)}
			if OneIn(t, "noname", 8) {
				v.Name = -1
			}
			if OneIn(t, "bad", 20) {
				v.Bad = Int(t, "badKind", 1, 4)
			}
			if i > 0 && OneIn(t, "copy", 5) {
				v.CopyOf = Int(t, "copyOf", 1, i)
			}
			c.Views = append(c.Views, v)
		}
		n := Int(t, "n", 3, maxops)
		far := OneIn(t, "far", 10)
		// start with something registered, usually
		joined := strings.Join(ops, " ")
		if !strings.Contains(joined, "reg") || !OneIn(t, "emptyStart", 4) {
			// one call per view, so that an invalid one does not refuse the others
			for i := range c.Views {
				for w := 0; w < meters; w++ {
					c.Ops = append(c.Ops, EOp{Op: "reg", Views: []int{i}, W: w})
				}
			}
		}
		if strings.Contains(joined, "addexp") && !OneIn(t, "noExporter", 4) {
			for w := 0; w < meters; w++ {
				c.Ops = append(c.Ops, EOp{Op: "addexp", W: w})
			}
		}
		for i := 0; i < n; i++ {
			o := EOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), W: Int(t, "w", 0, meters-1), I: Int(t, "i", 0, 5)}
			switch o.Op {
			case "reg":
				o.Views = Slice(t, "which", 1, 3, func(t *rapid.T) int { return Int(t, "v", 0, nv-1) })
			case "unreg":
				o.Views = Slice(t, "which", 1, 2, func(t *rapid.T) int { return Int(t, "v", 0, nv-1) })
			case "rec":
				o.Ss = Slice(t, "samples", 1, 4, func(t *rapid.T) Sample {
					s := Sample{Measure: Int(t, "measure", 0, len(measures)-1), V: genV(t, "v")}
					if far { // many digits before those that differ
						s.V += 1 << 30
					}
					if Bool(t, "hit") {
						s.Measure = c.Views[Int(t, "hitView", 0, nv-1)].Measure
					}
					return s
				})
				nk := 4
				if wide {
					nk = len(wideKeys)
				}
				for k := 0; k < nk; k++ {
					if k >= 4 && Bool(t, "same") { // differ in a few keys only
						o.Tags = append(o.Tags, 2)
						continue
					}
					x := Pick(t, "tag", 0, 2, 2, 3, 1, 4, 5)
					o.Tags = append(o.Tags, x)
				}
				if OneIn(t, "notags", 6) {
					o.Tags = []int{0, 0, 0, 0}
				}
				o.Att = Pick(t, "att", 0, 0, 1, 2)
			case "sleep":
				o.D = Pick[int64](t, "d", 1, 1e9, 3e9, 5e9, 10e9, 25e9, 999999999)
			case "period":
				o.D = Pick[int64](t, "period", 0, -1, 1e9, 2e9, 3e9, 15e9, 1e9, 2e9, 3e9, 1, 1001, 999999, 250e6, 999999999)
			case "get", "read":
				o.Spoil = OneIn(t, "spoil", 3)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// ---- model ----

type sample struct {
	v   float64
	t   time.Time
	att map[string]interface{}
}

type mview struct {
	spec   int // index of the view that was registered
	name   string
	desc   string
	m      mspec
	agg    ASpec
	bounds []float64
	keys   []tag.Key // sorted
	start  time.Time
	rows   map[string][]sample
	tags   map[string][]tag.Tag
}

func (m *mview) clone() *mview {
	n := *m
	n.rows = map[string][]sample{}
	for k, v := range m.rows {
		n.rows[k] = v[:len(v):len(v)]
	}
	return &n
}

func canonBounds(a ASpec) (out []float64, err error) {
	for _, b := range a.Buckets {
		if b < 0 {
			err = errNegative
		}
		if b > 0 {
			out = append(out, float64(b))
		}
	}
	sort.Float64s(out)
	return out, err
}

func tagString(ts []tag.Tag) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%s=%q;", t.Key.Name(), t.Value)
	}
	return b.String()
}

func (m *mview) add(vals map[string]string, s sample) {
	var ts []tag.Tag
	for _, k := range m.keys {
		if v := vals[k.Name()]; v != "" {
			ts = append(ts, tag.Tag{Key: k, Value: v})
		}
	}
	id := tagString(ts)
	m.rows[id] = append(m.rows[id], s)
	m.tags[id] = ts
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// stat are the statistics of samples, computed around the first of them, and
// how far an algorithm that keeps its digits may be off.
type stat struct{ sum, mean, dev, sumTol, meanTol, devTol float64 }

func statOf(ss []sample) (x stat) {
	n, most, off := float64(len(ss)), 0.0, 0.0
	for _, s := range ss {
		off += s.v - ss[0].v
		most = math.Max(most, math.Abs(s.v))
	}
	for _, s := range ss {
		d := s.v - ss[0].v - off/n
		x.dev += d * d
	}
	x.sum, x.mean = n*ss[0].v+off, ss[0].v+off/n
	x.meanTol = 1e-9 + 1e-13*n*most
	x.sumTol = 1e-9 + 1e-13*n*n*most
	x.devTol = 1e-9*(1+x.dev) + 1e-13*n*n*most*math.Sqrt(1+x.dev)
	return x
}

// foldCheck compares aggregated data with the fold of its samples.
func (m *mview) foldCheck(d view.AggregationData, ss []sample) error {
	st := statOf(ss)
	switch x := d.(type) {
	case *view.CountData:
		if m.agg.T != "count" || x.Value != int64(len(ss)) || !x.Start.Equal(ss[0].t) {
			return Errf("count %d since %v, want %d since %v (%s)", x.Value, x.Start, len(ss), ss[0].t, m.agg.T)
		}
	case *view.SumData:
		if m.agg.T != "sum" || !near(x.Value, st.sum, st.sumTol) || !x.Start.Equal(ss[0].t) {
			return Errf("sum %v since %v, want %v since %v (%s)", x.Value, x.Start, st.sum, ss[0].t, m.agg.T)
		}
	case *view.LastValueData:
		if m.agg.T != "last" || x.Value != ss[len(ss)-1].v {
			return Errf("last value %v, want %v (%s)", x.Value, ss[len(ss)-1].v, m.agg.T)
		}
	case *view.DistributionData:
		if m.agg.T != "dist" {
			return Errf("a distribution for %s", m.agg.T)
		}
		mn, mx := math.Inf(1), math.Inf(-1)
		buckets := make([]int64, len(m.bounds)+1)
		ex := make([]*sample, len(m.bounds)+1)
		for i, s := range ss {
			mn, mx = math.Min(mn, s.v), math.Max(mx, s.v)
			b := sort.Search(len(m.bounds), func(i int) bool { return s.v < m.bounds[i] })
			buckets[b]++
			if len(s.att) > 0 {
				ex[b] = &ss[i]
			}
		}
		if x.Count != int64(len(ss)) || x.Min != mn || x.Max != mx || !x.Start.Equal(ss[0].t) {
			return Errf("distribution count %d min %v max %v since %v, want %d %v %v %v", x.Count, x.Min, x.Max, x.Start, len(ss), mn, mx, ss[0].t)
		}
		if !near(x.Mean, st.mean, st.meanTol) || !near(x.Sum(), st.sum, st.sumTol) || !near(x.SumOfSquaredDev, st.dev, st.devTol) {
			return Errf("distribution mean %v sum %v deviation %v, want %v %v %v", x.Mean, x.Sum(), x.SumOfSquaredDev, st.mean, st.sum, st.dev)
		}
		if fmt.Sprint(x.CountPerBucket) != fmt.Sprint(buckets) {
			return Errf("buckets %v, want %v for bounds %v", x.CountPerBucket, buckets, m.bounds)
		}
		if len(x.ExemplarsPerBucket) != len(buckets) {
			return Errf("%d exemplars for %d buckets", len(x.ExemplarsPerBucket), len(buckets))
		}
		for i, e := range x.ExemplarsPerBucket {
			if err := exemplarCheck(e, ex[i]); err != nil {
				return Errf("bucket %d: %v", i, err)
			}
		}
	default:
		return Errf("data of type %T", d)
	}
	return nil
}

func exemplarCheck(e *metricdata.Exemplar, s *sample) error {
	if (e == nil) != (s == nil) {
		return Errf("exemplar %v, want one: %v", e, s != nil)
	}
	if e == nil {
		return nil
	}
	if e.Value != s.v || !e.Timestamp.Equal(s.t) || fmt.Sprint(e.Attachments) != fmt.Sprint(metricdata.Attachments(s.att)) {
		return Errf("exemplar %v, want %v at %v with %v", e, s.v, s.t, s.att)
	}
	return nil
}

func (m *mview) rowsCheck(rows []*view.Row) error {
	if len(rows) != len(m.rows) {
		return Errf("view %s has %d rows, want %d", m.name, len(rows), len(m.rows))
	}
	seen := map[string]bool{}
	for _, r := range rows {
		id := tagString(r.Tags)
		ss := m.rows[id]
		if ss == nil || seen[id] {
			return Errf("view %s: unexpected or repeated row {%.300s}", m.name, id)
		}
		seen[id] = true
		if err := m.foldCheck(r.Data, ss); err != nil {
			return Errf("view %s{%.300s}: %v", m.name, id, err)
		}
	}
	return nil
}

func (m *mview) metricType() metricdata.Type {
	isInt := m.m.i != nil
	switch m.agg.T {
	case "count":
		return metricdata.TypeCumulativeInt64
	case "sum":
		if isInt {
			return metricdata.TypeCumulativeInt64
		}
		return metricdata.TypeCumulativeFloat64
	case "last":
		if isInt {
			return metricdata.TypeGaugeInt64
		}
		return metricdata.TypeGaugeFloat64
	}
	return metricdata.TypeCumulativeDistribution
}

func (m *mview) metricCheck(x *metricdata.Metric, now time.Time, r *resource.Resource) error {
	d := x.Descriptor
	var keys []string
	for _, k := range m.keys {
		keys = append(keys, k.Name())
	}
	var got []string
	for _, k := range d.LabelKeys {
		got = append(got, k.Key)
	}
	if d.Name != m.name || d.Description != m.desc || d.Unit != m.m.unitWant(m.agg.T) || d.Type != m.metricType() || fmt.Sprint(keys) != fmt.Sprint(got) {
		return Errf("metric descriptor %+v, want %s %q %s %v %v", d, m.name, m.desc, m.m.unitWant(m.agg.T), m.metricType(), keys)
	}
	if (x.Resource == nil) != (r == nil) || r != nil && (x.Resource.Type != r.Type || fmt.Sprint(x.Resource.Labels) != fmt.Sprint(r.Labels)) {
		return Errf("metric resource %v, want %v", x.Resource, r)
	}
	if len(x.TimeSeries) != len(m.rows) {
		return Errf("metric %s has %d time series, want %d", m.name, len(x.TimeSeries), len(m.rows))
	}
	seen := map[string]bool{}
	for _, ts := range x.TimeSeries {
		if len(ts.LabelValues) != len(m.keys) || len(ts.Points) != 1 {
			return Errf("metric %s: %d label values, %d points", m.name, len(ts.LabelValues), len(ts.Points))
		}
		var tags []tag.Tag
		for i, l := range ts.LabelValues {
			if l.Present {
				tags = append(tags, tag.Tag{Key: m.keys[i], Value: l.Value})
			} else if l.Value != "" {
				return Errf("an absent label has value %q", l.Value)
			}
		}
		id := tagString(tags)
		ss := m.rows[id]
		if ss == nil || seen[id] {
			return Errf("metric %s: unexpected or repeated series {%.300s}", m.name, id)
		}
		seen[id] = true
		p := ts.Points[0]
		if !p.Time.Equal(now) {
			return Errf("metric %s: point at %v, want %v", m.name, p.Time, now)
		}
		if m.agg.T != "last" && !ts.StartTime.Equal(ss[0].t) {
			return Errf("metric %s: series starts at %v, want %v", m.name, ts.StartTime, ss[0].t)
		}
		st := statOf(ss)
		sum := 0.0
		for _, s := range ss {
			sum += s.v
		}
		var want interface{}
		switch {
		case m.agg.T == "count":
			want = int64(len(ss))
		case m.agg.T == "sum" && m.m.i != nil:
			want = int64(sum)
		case m.agg.T == "sum":
			want = sum
		case m.agg.T == "last" && m.m.i != nil:
			want = int64(ss[len(ss)-1].v)
		case m.agg.T == "last":
			want = ss[len(ss)-1].v
		default:
			d, ok := p.Value.(*metricdata.Distribution)
			if !ok {
				return Errf("metric %s: point of type %T", m.name, p.Value)
			}
			buckets := make([]int64, len(m.bounds)+1)
			ex := make([]*sample, len(m.bounds)+1)
			for i, s := range ss {
				b := sort.Search(len(m.bounds), func(i int) bool { return s.v < m.bounds[i] })
				buckets[b]++
				if len(s.att) > 0 {
					ex[b] = &ss[i]
				}
			}
			if d.Count != int64(len(ss)) || !near(d.Sum, st.sum, st.sumTol) || !near(d.SumOfSquaredDeviation, st.dev, st.devTol) {
				return Errf("metric %s: distribution %+v, want %d %v %v", m.name, d, len(ss), st.sum, st.dev)
			}
			if d.BucketOptions == nil || fmt.Sprint(d.BucketOptions.Bounds) != fmt.Sprint(m.bounds) || len(d.Buckets) != len(buckets) {
				return Errf("metric %s: bounds %+v and %d buckets, want %v", m.name, d.BucketOptions, len(d.Buckets), m.bounds)
			}
			for i, b := range d.Buckets {
				if b.Count != buckets[i] {
					return Errf("metric %s: bucket %d holds %d, want %d", m.name, i, b.Count, buckets[i])
				}
				if err := exemplarCheck(b.Exemplar, ex[i]); err != nil {
					return Errf("metric %s bucket %d: %v", m.name, i, err)
				}
			}
			continue
		}
		if p.Value != want {
			return Errf("metric %s{%.300s} = %v (%T), want %v (%T)", m.name, id, p.Value, p.Value, want, want)
		}
	}
	return nil
}

// export is one expected or received ExportView call.
type export struct {
	data *view.Data
	want *mview
	end  time.Time
	may  bool // whether it happens is open
}

type vexp struct {
	name   string
	mu     sync.Mutex
	got    []*view.Data
	inside *atomic.Int32
	over   *atomic.Int32
}

func (e *vexp) ExportView(d *view.Data) {
	if e.inside.Add(1) > 1 {
		e.over.Add(1)
	}
	e.mu.Lock()
	e.got = append(e.got, d)
	e.mu.Unlock()
	e.inside.Add(-1)
}

func (e *vexp) take() []*view.Data {
	e.mu.Lock()
	defer e.mu.Unlock()
	g := e.got
	e.got = nil
	return g
}

type meter struct {
	m       view.Meter
	views   map[string]*mview
	period  time.Duration
	next    time.Time
	exps    []*vexp
	on      map[int]bool
	pending []export // expected for every exporter registered then
	res     *resource.Resource
}

type engine struct {
	c       ECase
	views   []*view.View
	aggs    []*view.Aggregation
	meters  []*meter
	checks  []func() error
	stat    map[string]int
	touched []bool // views whose canonicalization may have changed them
}

func dumpRows(rows []*view.Row) string {
	var l []string
	for _, r := range rows {
		s := ""
		switch d := r.Data.(type) {
		case *view.DistributionData:
			s = fmt.Sprintf("%v %v %v %v %v %v", d.Count, d.Min, d.Max, d.Mean, d.SumOfSquaredDev, d.CountPerBucket)
			for _, e := range d.ExemplarsPerBucket {
				if e == nil {
					s += " -"
				} else {
					s += fmt.Sprintf(" %v@%v %v", e.Value, e.Timestamp, e.Attachments)
				}
			}
		case *view.CountData:
			s = fmt.Sprint(d.Value, d.Start)
		case *view.SumData:
			s = fmt.Sprint(d.Value, d.Start)
		case *view.LastValueData:
			s = fmt.Sprint(d.Value)
		}
		l = append(l, tagString(r.Tags)+" "+s)
	}
	return strings.Join(l, "\n")
}

func dumpMetrics(ms []*metricdata.Metric) string {
	var l []string
	for _, m := range ms {
		l = append(l, fmt.Sprintf("%v", m.Descriptor))
		for _, ts := range m.TimeSeries {
			s := fmt.Sprintf("%v %v ", ts.LabelValues, ts.StartTime)
			for _, p := range ts.Points {
				if d, ok := p.Value.(*metricdata.Distribution); ok {
					s += fmt.Sprintf("%v %v %v %v %v", d.Count, d.Sum, d.SumOfSquaredDeviation, d.BucketOptions, p.Time)
					for _, b := range d.Buckets {
						s += fmt.Sprint(" ", b.Count, b.Exemplar)
					}
				} else {
					s += fmt.Sprint(p.Value, p.Time)
				}
			}
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n")
}

// spoilRows changes everything that a caller owns of rows.
func spoilRows(rows []*view.Row) {
	for _, r := range rows {
		for i := range r.Tags {
			r.Tags[i].Value = "spoilt"
		}
		switch d := r.Data.(type) {
		case *view.DistributionData:
			d.Count, d.Min, d.Max, d.Mean, d.SumOfSquaredDev = -5, -5, -5, -5, -5
			for i := range d.CountPerBucket {
				d.CountPerBucket[i] = -5
			}
			for i := range d.ExemplarsPerBucket {
				d.ExemplarsPerBucket[i] = nil
			}
		case *view.CountData:
			d.Value = -5
		case *view.SumData:
			d.Value = -5
		case *view.LastValueData:
			d.Value = -5
		}
	}
}

func (e *engine) freeze(what string, f func() string) {
	was := f()
	e.checks = append(e.checks, func() error {
		if now := f(); now != was {
			return Errf("%s changed after it was handed out:\nwas %s\nnow %s", what, was, now)
		}
		return nil
	})
}

func (e *engine) build() {
	for _, a := range e.c.Aggs {
		switch a.T {
		case "count":
			e.aggs = append(e.aggs, view.Count())
		case "sum":
			e.aggs = append(e.aggs, view.Sum())
		case "last":
			e.aggs = append(e.aggs, view.LastValue())
		default:
			var b []float64
			for _, x := range a.Buckets {
				b = append(b, float64(x))
			}
			e.aggs = append(e.aggs, view.Distribution(b...))
			for j := range b { // the caller may reuse its slice
				b[j] = float64(7 - 3*j)
			}
		}
	}
	for i, v := range e.c.Views {
		if v.CopyOf > 0 {
			base := e.resolve(i)
			nv := *e.views[base]
			e.views = append(e.views, &nv)
			continue
		}
		x := &view.View{Description: string(v.Desc), Measure: measures[v.Measure].measure(), Aggregation: e.aggs[v.Agg]}
		if v.Name >= 0 {
			x.Name = viewName(v.Name)
		}
		switch v.Bad {
		case 1:
			x.Name = strings.Repeat("n", 256)
		case 2:
			x.Name = []string{"caf\u00e9", "view\x1f", "\x7f", "view\n1", "\x00", strings.Repeat("n", 254) + "\u00e9"}[(i+v.Measure)%6]
		case 3:
			x.Measure = nil
		case 4:
			x.Aggregation = nil
		}
		for _, k := range e.c.Keys[(v.Name+len(e.c.Keys))%len(e.c.Keys)] {
			x.TagKeys = append(x.TagKeys, wideKeys[k])
		}
		e.views = append(e.views, x)
	}
}

// resolve follows copies to the view they copy.
func (e *engine) resolve(i int) int {
	for e.c.Views[i].CopyOf > 0 {
		i = e.c.Views[i].CopyOf - 1
	}
	return i
}

// viewName is a valid name; some are as long as a name may be or hold the first
// and last characters it may hold.
func viewName(i int) string {
	switch i {
	case 2:
		return "view2" + strings.Repeat("n", 250)
	case 3:
		return " view 3~"
	}
	return fmt.Sprint("view", i)
}

func (e *engine) name(i int) string {
	v := e.c.Views[e.resolve(i)]
	if v.Name < 0 {
		return measures[v.Measure].name
	}
	return viewName(v.Name)
}

// newMview is the model of view i registered now; err when it is invalid.
func (e *engine) newMview(i int) (*mview, error) {
	v := e.c.Views[e.resolve(i)]
	if v.Bad != 0 {
		return nil, errors.New("bad view")
	}
	m := &mview{spec: i, name: e.name(i), desc: string(v.Desc), m: measures[v.Measure], agg: e.c.Aggs[v.Agg], start: time.Now(), rows: map[string][]sample{}, tags: map[string][]tag.Tag{}}
	if m.desc == "" {
		m.desc = m.m.desc
	}
	var err error
	m.bounds, err = canonBounds(m.agg)
	if err != nil {
		return nil, err
	}
	for _, k := range e.c.Keys[(v.Name+len(e.c.Keys))%len(e.c.Keys)] {
		m.keys = append(m.keys, wideKeys[k])
	}
	sort.Slice(m.keys, func(a, b int) bool { return m.keys[a].Name() < m.keys[b].Name() })
	return m, nil
}

// relation of a view with the registered one of the same name:
// "same", "different" or "unspecified".
func (e *engine) relation(a *mview, i int) string {
	va, vb := e.c.Views[e.resolve(a.spec)], e.c.Views[e.resolve(i)]
	if va.Measure != vb.Measure {
		return "different"
	}
	if va.Agg == vb.Agg {
		return "same"
	}
	x, y := e.c.Aggs[va.Agg], e.c.Aggs[vb.Agg]
	if x.T != y.T {
		return "different"
	}
	switch x.T {
	case "count", "sum":
		return "same"
	case "dist":
		bx, _ := canonBounds(x)
		by, _ := canonBounds(y)
		if fmt.Sprint(bx) != fmt.Sprint(by) {
			return "different"
		}
	}
	return "unspecified"
}

// expect an export at a tick, or at the end of a view, which need not be
// exported then if it has no data.
func (m *meter) expect(v *mview, at time.Time, last bool) {
	m.pending = append(m.pending, export{want: v.clone(), end: at, may: last && len(v.rows) == 0})
}

// settle compares what the exporters received with what they should have.
func (e *engine) settle(m *meter) error {
	for i, x := range m.exps {
		got := x.take()
		if !m.on[i] {
			if len(got) > 0 {
				return Errf("an exporter that is not registered received %d exports", len(got))
			}
			continue
		}
		used, met, must := make([]bool, len(got)), 0, 0
		for _, w := range m.pending {
			if !w.may {
				must++
			}
		}
		if len(got) < must || len(got) > len(m.pending) {
			return Errf("exporter %d received %d exports, want %d", i, len(got), must)
		}
		for _, w := range m.pending {
			found := false
			for k, d := range got {
				if used[k] || d.View == nil || d.View.Name != w.want.name || !d.End.Equal(w.end) {
					continue
				}
				used[k], found = true, true
				met++
				if !d.Start.Equal(w.want.start) {
					return Errf("export of %s starts at %v, want %v", w.want.name, d.Start, w.want.start)
				}
				if d.View.Measure.Name() != w.want.m.name {
					return Errf("export of %s is for measure %s", w.want.name, d.View.Measure.Name())
				}
				if err := w.want.rowsCheck(d.Rows); err != nil {
					return Errf("export: %v", err)
				}
				e.freeze("exported data", func() string { return fmt.Sprint(d.Start, d.End, d.View.Name, dumpRows(d.Rows)) })
				break
			}
			if !found && !w.may {
				return Errf("exporter %d misses the export of %s at %v", i, w.want.name, w.end)
			}
		}
		if met != len(got) {
			return Errf("exporter %d received %d exports that were not due", i, len(got)-met)
		}
		for _, d := range got {
			if len(d.Rows) > 0 {
				e.stat["exports"]++
			}
		}
	}
	m.pending = nil
	return nil
}

func attachments(n int) map[string]interface{} {
	switch n {
	case 1:
		return map[string]interface{}{"a": 1}
	case 2:
		return map[string]interface{}{"b": "x", metricdata.AttachmentKeySpanContext: 7}
	}
	return nil
}

func (e *engine) step(o EOp) error {
	m := e.meters[o.W%len(e.meters)]
	now := time.Now()
	switch o.Op {
	case "reg":
		var vs []*view.View
		var idx []int
		// leave out what the documentation does not decide
		byName := map[string]int{}
		for n, v := range m.views {
			byName[n] = v.spec
		}
		for _, i := range o.Views {
			i %= len(e.views)
			n := e.name(i)
			if e.c.Views[e.resolve(i)].Bad == 0 {
				if old, ok := byName[n]; ok {
					ov, _ := e.newMview(old)
					if ov != nil && e.relation(ov, i) == "unspecified" {
						continue
					}
				} else {
					byName[n] = i
				}
			}
			vs, idx = append(vs, e.views[i]), append(idx, i)
		}
		err := m.m.Register(vs...)
		wantErr := false
		for _, i := range idx {
			if _, merr := e.newMview(i); merr != nil {
				wantErr = true
			}
		}
		if wantErr {
			e.stat["invalid"]++
		} else {
			for _, i := range idx {
				nm, _ := e.newMview(i)
				if old := m.views[nm.name]; old != nil {
					if e.relation(old, i) == "different" {
						wantErr = true
						e.stat["conflict"]++
					} else {
						e.stat["again"]++
					}
					continue
				}
				m.views[nm.name] = nm
			}
		}
		if (err != nil) != wantErr {
			return Errf("Register(%v): error %v, want one: %v", idx, err, wantErr)
		}
	case "unreg":
		var vs []*view.View
		for _, i := range o.Views {
			i %= len(e.views)
			if e.c.Views[e.resolve(i)].Bad != 0 || e.views[i].Name == "" {
				continue
			}
			if old := m.views[e.name(i)]; old != nil {
				if e.relation(old, i) != "same" {
					continue
				}
				m.expect(old, now, true)
				delete(m.views, old.name)
				e.stat["unregistered"]++
			}
			vs = append(vs, e.views[i])
		}
		m.m.Unregister(vs...)
	case "find":
		n := e.name(o.I % len(e.views))
		v := m.m.Find(n)
		w := m.views[n]
		if (v == nil) != (w == nil) {
			return Errf("Find(%s) = %v, want registered: %v", n, v, w != nil)
		}
		if v != nil && (v.Name != n || v.Measure.Name() != w.m.name || v.Description != w.desc) {
			return Errf("Find(%s) gives %+v", n, v)
		}
		if v != nil {
			was := *v
			r := v.WithName(n + "/renamed")
			if r == v || r.Name != n+"/renamed" || r.Description != v.Description || r.Measure != v.Measure || r.Aggregation != v.Aggregation || fmt.Sprint(r.TagKeys) != fmt.Sprint(v.TagKeys) || v.Name != was.Name {
				return Errf("WithName of %+v gives %+v and leaves %+v", was, r, v)
			}
		}
	case "rec":
		var mut []tag.Mutator
		vals := map[string]string{}
		for k, x := range o.Tags {
			if x > 0 {
				mut = append(mut, tag.Insert(wideKeys[k], tagVals[x]))
				vals[wideKeys[k].Name()] = tagVals[x]
			}
		}
		ctx := context.Background()
		if len(mut) > 0 {
			var err error
			if ctx, err = tag.New(ctx, mut...); err != nil {
				return err
			}
		}
		att := attachments(o.Att)
		var ms []stats.Measurement
		for _, s := range o.Ss {
			sp := measures[s.Measure%len(measures)]
			v := float64(s.V)
			if sp.i != nil {
				v = float64(int64(v))
			}
			ms = append(ms, sp.m(v))
			for _, x := range m.views {
				if x.m.name == sp.name {
					x.add(vals, sample{v, now, att})
					e.stat["samples"]++
				}
			}
		}
		opts := []stats.Options{stats.WithRecorder(m.m), stats.WithMeasurements(ms...)}
		if att != nil {
			opts = append(opts, stats.WithAttachments(att))
		}
		if err := stats.RecordWithOptions(ctx, opts...); err != nil {
			return Errf("RecordWithOptions: %v", err)
		}
	case "get":
		n := e.name(o.I % len(e.views))
		rows, err := m.m.RetrieveData(n)
		w := m.views[n]
		if (err != nil) != (w == nil) {
			return Errf("RetrieveData(%s): error %v, registered: %v", n, err, w != nil)
		}
		if w != nil {
			if err := w.rowsCheck(rows); err != nil {
				return err
			}
			if o.Spoil {
				spoilRows(rows)
			}
			e.freeze("retrieved data", func() string { return dumpRows(rows) })
			e.stat["retrieved"]++
		}
	case "read":
		synctest.Wait() // recorded measurements are processed
		if err := e.readCheck(m, o.Spoil); err != nil {
			return err
		}
	case "sleep":
		for _, m := range e.meters { // at most 40 exports
			o.D = min(o.D, 40*int64(m.period))
		}
		end := now.Add(time.Duration(o.D))
		for _, m := range e.meters {
			for !m.next.After(end) {
				for _, v := range m.views {
					m.expect(v, m.next, false)
				}
				m.next = m.next.Add(m.period)
				e.stat["ticks"]++
			}
		}
		time.Sleep(time.Duration(o.D))
	case "period":
		m.m.SetReportingPeriod(time.Duration(o.D))
		m.period = time.Duration(o.D)
		if o.D <= 0 {
			m.period = 10 * time.Second
		}
		m.next = now.Add(m.period)
	case "addexp":
		k := o.I % len(m.exps)
		m.m.RegisterExporter(m.exps[k])
		m.on[k] = true
	case "delexp":
		k := o.I % len(m.exps)
		m.m.UnregisterExporter(m.exps[k])
		m.on[k] = false
	case "res":
		m.res = []*resource.Resource{nil, {Type: "t", Labels: map[string]string{"a": "b"}}, {Type: "u"}}[o.I%3]
		m.m.SetResource(m.res)
	}
	synctest.Wait()
	for _, m := range e.meters {
		if err := e.settle(m); err != nil {
			return err
		}
	}
	return nil
}

func (e *engine) readCheck(m *meter, spoil bool) error {
	ms := m.m.(metricproducer.Producer).Read()
	now := time.Now()
	seen := map[string]bool{}
	for _, x := range ms {
		w := m.views[x.Descriptor.Name]
		if w == nil || seen[x.Descriptor.Name] {
			return Errf("metric %q is not a registered view or was read twice", x.Descriptor.Name)
		}
		seen[x.Descriptor.Name] = true
		if err := w.metricCheck(x, now, m.res); err != nil {
			return err
		}
	}
	for n, v := range m.views {
		if len(v.rows) > 0 && !seen[n] {
			return Errf("view %s has data but no metric was read", n)
		}
	}
	if len(ms) > 0 {
		e.stat["metrics"]++
	}
	if spoil {
		for _, x := range ms {
			for _, ts := range x.TimeSeries {
				for i := range ts.LabelValues {
					ts.LabelValues[i] = metricdata.NewLabelValue("spoilt")
				}
				for i, p := range ts.Points {
					if d, ok := p.Value.(*metricdata.Distribution); ok {
						for j := range d.Buckets {
							d.Buckets[j] = metricdata.Bucket{Count: -5}
						}
						d.Count, d.Sum = -5, -5
					}
					ts.Points[i].Time = p.Time.Add(-time.Hour)
				}
				ts.StartTime = time.Time{}
			}
			x.TimeSeries = x.TimeSeries[:0]
		}
	}
	e.freeze("read metrics", func() string { return dumpMetrics(ms) })
	return nil
}

func (e *engine) allCheck() error {
	synctest.Wait()
	for wi, m := range e.meters {
		for n, v := range m.views {
			rows, err := m.m.RetrieveData(n)
			if err != nil {
				return Errf("meter %d: %v", wi, err)
			}
			if err := v.rowsCheck(rows); err != nil {
				return Errf("meter %d: %v", wi, err)
			}
			if len(v.rows) > 1 {
				e.stat["several-rows"]++
			}
			for _, ss := range v.rows {
				if len(ss) > 1 {
					e.stat["several-samples"]++
				}
			}
		}
		if err := e.readCheck(m, false); err != nil {
			return Errf("meter %d: %v", wi, err)
		}
	}
	return nil
}

func runE(cx *Ctx, c ECase, nontrivial func(map[string]int) bool) error {
	return Bubble(cx, func() error {
		e := &engine{c: c, stat: map[string]int{}}
		e.build()
		for i := 0; i < max(1, c.Meters); i++ {
			m := &meter{m: view.NewMeter(), views: map[string]*mview{}, period: 10 * time.Second, on: map[int]bool{}}
			m.next = time.Now().Add(m.period)
			in, over := &atomic.Int32{}, &atomic.Int32{}
			for k := 0; k < 2; k++ {
				m.exps = append(m.exps, &vexp{name: fmt.Sprint(k), inside: in, over: over})
			}
			m.m.Start()
			synctest.Wait()
			e.meters = append(e.meters, m)
			defer m.m.Stop()
		}
		for i, o := range c.Ops {
			if err := e.step(o); err != nil {
				return Errf("op %d (%s): %v", i, o.Op, err)
			}
		}
		if err := e.allCheck(); err != nil {
			return Errf("at the end: %v", err)
		}
		for _, f := range e.checks {
			if err := f(); err != nil {
				return err
			}
		}
		for k, n := range e.stat {
			if n > 0 {
				cx.Class("%s", k)
			}
		}
		cx.NonTrivial(nontrivial(e.stat))
		return nil
	})
}
