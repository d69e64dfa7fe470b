package metrics

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// LV is a label value of a case.
type LV struct {
	V  S
	N  int  `json:",omitempty"` // bytes of padding in front
	No bool `json:",omitempty"` // not present
}

var padding = strings.Repeat("a", 1<<17)

func (l LV) md() metricdata.LabelValue {
	return metricdata.LabelValue{Value: padding[:l.N] + string(l.V), Present: !l.No}
}

func mds(ls []LV) []metricdata.LabelValue {
	out := make([]metricdata.LabelValue, 0, len(ls))
	for _, l := range ls {
		out = append(out, l.md())
	}
	return out
}

// id of a label vector, unambiguous.
func vec(ls []metricdata.LabelValue) string {
	var b strings.Builder
	for _, l := range ls {
		if l.Present {
			b.WriteString(strconv.Itoa(len(l.Value)))
			b.WriteByte(':')
			b.WriteString(l.Value)
		} else {
			b.WriteString("-,")
		}
	}
	return b.String()
}

func genLV(t *rapid.T, l string) LV {
	switch Pick(t, l+"kind", "small", "small", "small", "no", "empty", "long", "bytes") {
	case "no":
		// a value that is not present identifies "no value" whatever its text
		return LV{V: Pick[S](t, l+"junk", "", "x"), No: true}
	case "empty":
		return LV{}
	case "long":
		n := Pick(t, l+"n", 127, 128, 253, 254, 255, 256, 257, 300, 510, 511, 512, 1000)
		if OneIn(t, l+"huge", 40) {
			n = Pick(t, l+"hugeN", 16383, 16384, 70000)
		}
		return LV{N: n - 1, V: Pick[S](t, l+"last", "a", "b")}
	case "bytes":
		return LV{V: S(Bytes(t, l+"b", 0, 6))}
	}
	return LV{V: Pick[S](t, l+"v", "a", "b", "aa", "\x00", "\x01", "\x01a", "\x02\x01a", "a\x02\x01")}
}

const (
	kGaugeI = iota
	kGaugeF
	kDGaugeI
	kDGaugeF
	kCumI
	kCumF
	kDCumI
	kDCumF
	nKinds
)

var kindType = [nKinds]metricdata.Type{
	metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64, metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64,
	metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64, metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64,
}

// handle is a metric of any kind.
type handle struct{ v interface{} }

func add(r *metric.Registry, kind int, name string, o ...metric.Options) (handle, error) {
	var v interface{}
	var err error
	switch kind {
	case kGaugeI:
		v, err = r.AddInt64Gauge(name, o...)
	case kGaugeF:
		v, err = r.AddFloat64Gauge(name, o...)
	case kDGaugeI:
		v, err = r.AddInt64DerivedGauge(name, o...)
	case kDGaugeF:
		v, err = r.AddFloat64DerivedGauge(name, o...)
	case kCumI:
		v, err = r.AddInt64Cumulative(name, o...)
	case kCumF:
		v, err = r.AddFloat64Cumulative(name, o...)
	case kDCumI:
		v, err = r.AddInt64DerivedCumulative(name, o...)
	case kDCumF:
		v, err = r.AddFloat64DerivedCumulative(name, o...)
	}
	return handle{v}, err
}

// entry is one series of a non-derived metric.
type entry struct{ v interface{} }

func (h handle) get(ls []metricdata.LabelValue) (entry, error) {
	var e interface{}
	var err error
	switch m := h.v.(type) {
	case *metric.Int64Gauge:
		e, err = m.GetEntry(ls...)
	case *metric.Float64Gauge:
		e, err = m.GetEntry(ls...)
	case *metric.Int64Cumulative:
		e, err = m.GetEntry(ls...)
	case *metric.Float64Cumulative:
		e, err = m.GetEntry(ls...)
	}
	return entry{e}, err
}

func (h handle) upsert(v float64, nilFn bool, ls []metricdata.LabelValue) error {
	return h.upsertN(v, int64(v), nilFn, ls)
}

// upsertN upserts a function that gives v, or n for integers.
func (h handle) upsertN(v float64, n int64, nilFn bool, ls []metricdata.LabelValue) error {
	fi, ff := func() int64 { return n }, func() float64 { return v }
	if nilFn {
		fi, ff = nil, nil
	}
	switch m := h.v.(type) {
	case *metric.Int64DerivedGauge:
		return m.UpsertEntry(fi, ls...)
	case *metric.Float64DerivedGauge:
		return m.UpsertEntry(ff, ls...)
	case *metric.Int64DerivedCumulative:
		return m.UpsertEntry(fi, ls...)
	case *metric.Float64DerivedCumulative:
		return m.UpsertEntry(ff, ls...)
	}
	panic("verif: not a derived metric")
}

// apply performs op on the entry: "set" or "add".
func (e entry) apply(set bool, v float64) { e.applyN(set, v, int64(v)) }

// applyN performs op with v, or n on integers.
func (e entry) applyN(set bool, v float64, n int64) {
	switch x := e.v.(type) {
	case *metric.Int64GaugeEntry:
		if set {
			x.Set(n)
		} else {
			x.Add(n)
		}
	case *metric.Float64Entry:
		if set {
			x.Set(v)
		} else {
			x.Add(v)
		}
	case *metric.Int64CumulativeEntry:
		x.Inc(n)
	case *metric.Float64CumulativeEntry:
		x.Inc(v)
	}
}

func isInt(k int) bool     { return k == kGaugeI || k == kDGaugeI || k == kCumI || k == kDCumI }
func isDerived(k int) bool { return k == kDGaugeI || k == kDGaugeF || k == kDCumI || k == kDCumF }
func isCum(k int) bool     { return k >= kCumI }

func num(p metricdata.Point) (float64, bool, error) {
	switch v := p.Value.(type) {
	case int64:
		return float64(v), true, nil
	case float64:
		return v, false, nil
	}
	return 0, false, Errf("point of type %T", p.Value)
}

// ---- M01/M02/M03 model ----

// MSpec declares a metric.
type MSpec struct {
	Name   int
	Pair   int `json:",omitempty"` // of names the first two of which are taken
	Kind   int
	Keys   int  // number of label keys
	Desc   bool // keys given with descriptions
	Consts []LV
	Names  int // of the constant labels
	Unit   int
	Text   S
}

// MOp is one step.
type MOp struct {
	Op   string // set add upsert get nilfn arity new sleep read
	M    int
	L    []LV // label values, trimmed or padded to the arity
	V    F
	D    int64
	N    int64 `json:",omitempty"` // added to V for integers
	Spec MSpec
}

// MCase is a history over one registry.
type MCase struct {
	Specs []MSpec
	Ops   []MOp
}

var constNames = []string{"zc", "ac", "mc", "bc", "yc"}

// constKeys are the keys of constant labels: some alike, some those of labels.
var constKeys = [][]string{constNames, {"ab", "a", "ac", "b", "aa"}, {"k9", "K8", "k8", "", "k"}}
var units = []metricdata.Unit{"", metricdata.UnitDimensionless, metricdata.UnitBytes, metricdata.UnitMilliseconds, "kitten"}

// metricNames are pairs of names, most of them alike.
var metricNames = [][2]string{{"metric0", "metric1"}, {"m", "m/"}, {"m", "/m"}, {"metric", "Metric"}, {"metric", " metric"}, {"metric", "metric "}, {"metric", ""}, {"a/b", "b"}, {"a/b", "a/c"}, {"a_b", "a.b"}, {"a-b", "a b"},
	{strings.Repeat("n", 300), strings.Repeat("n", 300) + "2"}, {"\u00e9", "e\u0301"}, {"m\x00", "m"}, {"x\xff", "x\xfe"}, {"1", "01"}}

func genSpec(t *rapid.T) MSpec {
	return MSpec{Name: Int(t, "name", 0, 4), Kind: Int(t, "kind", 0, nKinds-1), Keys: Pick(t, "keys", 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 6, 12), Desc: Bool(t, "desc"),
		Consts: Slice(t, "consts", 0, 5, func(t *rapid.T) LV { return genLV(t, "const") }), Names: Int(t, "names", 0, len(constKeys)-1),
		Unit: Int(t, "unit", 0, len(units)-1), Text: Pick[S](t, "text", "", "some text")}
}

func genM(values, labels bool) func(*rapid.T) MCase {
	return func(t *rapid.T) MCase {
		var c MCase
		// a small pool, so that series are met again
		pool := Slice(t, "pool", 1, 5, func(t *rapid.T) LV { return genLV(t, "p") })
		c.Specs = Slice(t, "specs", 1, 3, genSpec)
		n := Int(t, "n", 1, 30)
		for i := 0; i < n; i++ {
			o := MOp{Op: Pick(t, "op", "set", "add", "add", "add", "upsert", "upsert", "get", "nilfn", "arity", "new", "sleep", "read"), M: Int(t, "m", 0, 3)}
			for k := 0; k < 13; k++ {
				if k > 3 { // seldom needed: like the first four
					o.L = append(o.L, o.L[(k*k+i)%4])
				} else if labels && Bool(t, "fresh") {
					o.L = append(o.L, genLV(t, "l"))
				} else {
					o.L = append(o.L, rapid.SampledFrom(pool).Draw(t, "fromPool"))
				}
			}
			o.V = F(float64(Int(t, "v", -40, 400)) / 4)
			if values && OneIn(t, "bigv", 8) {
				o.V *= F(Pick(t, "scale", float64(1<<20), 1<<40, 1.0/(1<<20)))
			}
			if values && OneIn(t, "huge", 8) { // integers that no float64 holds
				o.N = Pick[int64](t, "hugeN", 1<<53+1, -1<<53-1, 1<<57+1, -1<<57-3)
			}
			if values && OneIn(t, "notfinite", 12) { // for gauges of floats
				o.V = F(Pick(t, "what", math.NaN(), math.Inf(1), math.Inf(-1)))
			}
			if o.Op == "new" {
				o.Spec = genSpec(t)
			}
			o.D = int64(Int(t, "d", 1, 5)) * 1e9
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

type series struct {
	labels []metricdata.LabelValue
	v      float64
	n      int64 // of a metric of integers
}

type mModel struct {
	h       handle
	kind    int
	desc    metricdata.Descriptor
	consts  []metricdata.LabelValue
	nkeys   int
	created time.Time
	series  map[string]*series
}

func (m *mModel) at(ls []metricdata.LabelValue) *series {
	full := append(append([]metricdata.LabelValue{}, m.consts...), ls...)
	for i := range full {
		if !full[i].Present {
			full[i].Value = ""
		}
	}
	k := vec(full)
	s := m.series[k]
	if s == nil {
		s = &series{labels: full}
		m.series[k] = s
	}
	return s
}

// declare adds the metric and returns the model it should give.
func declare(r *metric.Registry, s MSpec) (*mModel, error) {
	m := &mModel{kind: s.Kind, nkeys: s.Keys, created: time.Now(), series: map[string]*series{}}
	name := fmt.Sprint("metric", s.Name)
	if s.Name < 2 {
		name = metricNames[s.Pair][s.Name]
	}
	opts := []metric.Options{metric.WithDescription(string(s.Text)), metric.WithUnit(units[s.Unit])}
	cn := constKeys[s.Names]
	about := func(k string) string {
		if s.Names == 2 { // as for a label of that key
			if s.Desc {
				return "about " + k
			}
			return ""
		}
		return "d" + k
	}
	cl := map[metricdata.LabelKey]metricdata.LabelValue{}
	var order []int
	for i, c := range s.Consts {
		cl[metricdata.LabelKey{Key: cn[i], Description: about(cn[i])}] = c.md()
		order = append(order, i)
	}
	opts = append(opts, metric.WithConstLabel(cl))
	sort.Slice(order, func(a, b int) bool { return cn[order[a]] < cn[order[b]] })
	var keys []metricdata.LabelKey
	for _, i := range order {
		keys = append(keys, metricdata.LabelKey{Key: cn[i], Description: about(cn[i])})
		m.consts = append(m.consts, s.Consts[i].md())
	}
	var own []metricdata.LabelKey
	var names []string
	for i := 0; i < s.Keys; i++ {
		k := metricdata.LabelKey{Key: fmt.Sprintf("k%d", 9-i)}
		if s.Desc {
			k.Description = "about " + k.Key
		}
		own = append(own, k)
		names = append(names, k.Key)
	}
	keys = append(keys, own...)
	if s.Desc {
		opts = append(opts, metric.WithLabelKeysAndDescription(own...))
	} else {
		opts = append(opts, metric.WithLabelKeys(names...))
	}
	h, err := add(r, s.Kind, name, opts...)
	for i := range own { // the caller reuses its slices
		own[i], names[i] = metricdata.LabelKey{Key: "clobbered"}, "clobbered"
	}
	m.h = h
	m.desc = metricdata.Descriptor{Name: name, Description: string(s.Text), Unit: units[s.Unit], Type: kindType[s.Kind], LabelKeys: keys}
	return m, err
}

func compare(ms []*metricdata.Metric, want map[string]*mModel, now time.Time) error {
	if len(ms) != len(want) {
		return Errf("%d metrics read, want %d", len(ms), len(want))
	}
	seen := map[string]bool{}
	for _, x := range ms {
		m := want[x.Descriptor.Name]
		if m == nil || seen[x.Descriptor.Name] {
			return Errf("metric %q is unknown or was read twice", x.Descriptor.Name)
		}
		seen[x.Descriptor.Name] = true
		d, e := x.Descriptor, m.desc
		if d.Description != e.Description || d.Unit != e.Unit || d.Type != e.Type || fmt.Sprintf("%q", d.LabelKeys) != fmt.Sprintf("%q", e.LabelKeys) {
			return Errf("descriptor %+v, want %+v", d, e)
		}
		if len(x.TimeSeries) != len(m.series) {
			return Errf("%s has %d time series, want %d", d.Name, len(x.TimeSeries), len(m.series))
		}
		got := map[string]bool{}
		for _, ts := range x.TimeSeries {
			k := vec(ts.LabelValues)
			s := m.series[k]
			if s == nil || got[k] {
				return Errf("%s: unexpected or repeated series %.200s", d.Name, k)
			}
			got[k] = true
			for i := range ts.LabelValues {
				if ts.LabelValues[i] != s.labels[i] {
					return Errf("label value %+v, want %+v", ts.LabelValues[i], s.labels[i])
				}
			}
			if len(ts.Points) != 1 {
				return Errf("%d points", len(ts.Points))
			}
			v, i, err := num(ts.Points[0])
			if err != nil {
				return err
			}
			w := s.v
			if isInt(m.kind) != i {
				return Errf("%s has a point of type %T", d.Name, ts.Points[0].Value)
			}
			if !isDerived(m.kind) && w < 0 {
				w = 0
			}
			if n, ok := ts.Points[0].Value.(int64); ok {
				w := s.n
				if !isDerived(m.kind) && w < 0 {
					w = 0
				}
				if n != w {
					return Errf("%s%.200s = %d, want %d", d.Name, k, n, w)
				}
			} else if v != w && (v == v || w == w) {
				return Errf("%s%.200s = %v, want %v", d.Name, k, v, w)
			}
			if !now.IsZero() {
				start := now
				if isCum(m.kind) {
					start = m.created
				}
				if !ts.Points[0].Time.Equal(now) || !ts.StartTime.Equal(start) {
					return Errf("%s: point at %v since %v, want %v since %v", d.Name, ts.Points[0].Time, ts.StartTime, now, start)
				}
			}
		}
	}
	return nil
}

func execM(cx *Ctx, c MCase, nontrivial func(st map[string]int) bool) error {
	return Bubble(cx, func() error {
		r := metric.NewRegistry()
		models := map[string]*mModel{}
		var handles []*mModel // every metric ever added, replaced ones included
		st := map[string]int{}
		declareIn := func(s MSpec) error {
			m, err := declare(r, s)
			old := models[m.desc.Name]
			if old != nil && old.kind != m.kind {
				st["refused"]++
				if err == nil {
					return Errf("%s was added with another type", m.desc.Name)
				}
				return nil
			}
			if err != nil {
				return Errf("adding %s: %v", m.desc.Name, err)
			}
			if old != nil {
				st["replaced"]++
			}
			models[m.desc.Name] = m
			handles = append(handles, m)
			return nil
		}
		for _, s := range c.Specs {
			if err := declareIn(s); err != nil {
				return err
			}
		}
		var snaps []func() error
		for i, o := range c.Ops {
			m := handles[o.M%len(handles)]
			ls := mds(o.L[:m.nkeys])
			v := float64(o.V)
			if v-v != 0 && m.kind != kGaugeF && m.kind != kDGaugeF {
				v = 1
			}
			n := int64(v) + o.N
			switch o.Op {
			case "set", "add", "get":
				if isDerived(m.kind) {
					continue
				}
				e, err := m.h.get(ls)
				if err != nil {
					return Errf("op %d: GetEntry: %v", i, err)
				}
				s := m.at(ls)
				if o.Op == "get" {
					break
				}
				set := o.Op == "set" && !isCum(m.kind)
				e.applyN(set, v, n)
				switch {
				case set:
					s.v, s.n = v, n
				case isCum(m.kind):
					if v > 0 {
						s.v += v
					}
					if n > 0 {
						s.n += n
					}
					if isInt(m.kind) && n <= 0 || !isInt(m.kind) && v <= 0 {
						st["ignored"]++
					}
				default:
					s.v += v
					s.n += n
				}
				if s.n >= 1<<53 {
					st["beyond-float"]++
				}
				st["values"]++
			case "upsert":
				if !isDerived(m.kind) {
					continue
				}
				if err := m.h.upsertN(v, n, false, ls); err != nil {
					return Errf("op %d: UpsertEntry: %v", i, err)
				}
				m.at(ls).v, m.at(ls).n = v, n
				st["values"]++
			case "nilfn":
				if isDerived(m.kind) {
					if err := m.h.upsert(0, true, ls); err == nil {
						return Errf("op %d: UpsertEntry accepts a nil function", i)
					}
				}
			case "arity":
				bad := mds(o.L[:(m.nkeys+1+int(o.D/1e9)%4)%(len(o.L)+1)])
				if len(bad) == m.nkeys {
					continue
				}
				var err error
				if isDerived(m.kind) {
					err = m.h.upsert(v, false, bad)
				} else {
					_, err = m.h.get(bad)
				}
				if err == nil {
					return Errf("op %d: %d label values accepted for %d keys", i, len(bad), m.nkeys)
				}
				st["arity"]++
			case "new":
				if err := declareIn(o.Spec); err != nil {
					return Errf("op %d: %v", i, err)
				}
			case "sleep":
				time.Sleep(time.Duration(o.D))
			case "read":
				ms := r.Read()
				if err := compare(ms, models, time.Now()); err != nil {
					return Errf("op %d: %v", i, err)
				}
				frozen := dumpMetrics(ms)
				snaps = append(snaps, func() error {
					if s := dumpMetrics(ms); s != frozen {
						return Errf("metrics read at op %d changed later", i)
					}
					return nil
				})
				st["reads"]++
			}
		}
		if err := compare(r.Read(), models, time.Now()); err != nil {
			return Errf("at the end: %v", err)
		}
		for _, f := range snaps {
			if err := f(); err != nil {
				return err
			}
		}
		for _, m := range models {
			st["series"] += len(m.series)
			for _, s := range m.series {
				if (s.v < 0 && !isInt(m.kind) || s.n < 0 && isInt(m.kind)) && !isDerived(m.kind) {
					st["negative"]++
				}
				for _, l := range s.labels {
					if len(l.Value) > 254 {
						st["long"]++
					}
				}
			}
			if len(m.series) > 1 {
				st["multi"]++
			}
		}
		for k := range st {
			cx.Class("%s", k)
		}
		cx.NonTrivial(nontrivial(st))
		return nil
	})
}

func dumpMetrics(ms []*metricdata.Metric) string {
	var l []string
	for _, m := range ms {
		for _, ts := range m.TimeSeries {
			l = append(l, fmt.Sprintf("%v %v %v %v", m.Descriptor, vec(ts.LabelValues), ts.Points, ts.StartTime))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func TestM01(t *testing.T) {
	Check(t, "M01", "values", Opts{Quick: 4000, Thorough: 60000,
		Rule: "histories of up to 30 sets, adds, increments (negative and zero included), derived-function upserts, reads, pauses and rejected calls over all eight metric kinds under a fake clock; non-trivial when at least three values are written and something is read between"},
		genM(true, false), func(cx *Ctx, c MCase) error {
			return execM(cx, c, func(st map[string]int) bool { return st["values"] >= 3 })
		})
}

func TestM02(t *testing.T) {
	Check(t, "M02", "labels", Opts{Quick: 4000, Thorough: 60000,
		Rule: "histories in which label values are arbitrary byte strings: absent, empty, near-colliding, binary and 127 to 70000 bytes long, with up to five constant labels; non-trivial when one metric has at least two series"},
		genM(false, true), func(cx *Ctx, c MCase) error {
			return execM(cx, c, func(st map[string]int) bool { return st["multi"] > 0 })
		})
}

func genM03(t *rapid.T) MCase {
	c := genM(false, false)(t)
	pair := Int(t, "pair", 0, len(metricNames)-1)
	for i := range c.Specs {
		c.Specs[i].Pair = pair
	}
	for i := range c.Ops {
		c.Ops[i].Spec.Pair = pair
		if i%2 == 0 {
			c.Ops[i].Op, c.Ops[i].Spec = "new", genSpec(t)
			c.Ops[i].Spec.Pair = pair
			c.Ops[i].Spec.Name %= 2
			if Bool(t, "fewKinds") {
				c.Ops[i].Spec.Kind %= 2
			}
		}
	}
	for i := range c.Specs {
		c.Specs[i].Name %= 2
		c.Specs[i].Kind %= 2
	}
	return c
}

func TestM03(t *testing.T) {
	Check(t, "M03", "registry", Opts{Quick: 3000, Thorough: 50000,
		Rule: "histories in which metrics are added again under two names (most of them alike: case, space, slash, a long common prefix) with the same or another kind, labels, unit and description, with stale handles still in use; non-trivial when an addition is refused or replaces a metric"},
		genM03, func(cx *Ctx, c MCase) error {
			return execM(cx, c, func(st map[string]int) bool { return st["refused"]+st["replaced"] > 0 })
		})
}

// ---- M04 concurrency ----

// M04Case has workers operate on one registry at once.
type M04Case struct {
	Kinds   []int
	Consts  int
	Workers [][]MOp
	Readers int
	Repeat  int `json:",omitempty"` // every worker makes its steps so often
}

func genM04(t *rapid.T) M04Case {
	c := M04Case{Kinds: Slice(t, "kinds", 1, 4, func(t *rapid.T) int { return Int(t, "kind", 0, nKinds-1) }), Consts: Int(t, "consts", 0, 5), Readers: Int(t, "readers", 0, 2)}
	n := Int(t, "workers", 2, 6)
	for i := 0; i < n; i++ {
		c.Workers = append(c.Workers, Slice(t, "ops", 1, 25, func(t *rapid.T) MOp {
			return MOp{M: Int(t, "m", 0, 3), D: int64(Int(t, "label", 0, 3)), V: F(Int(t, "v", 1, 9))}
		}))
	}
	if n := 0; Int(t, "busy", 0, 19) == 0 {
		// as many goroutines as there are cores, all at the same series
		c.Kinds, c.Readers, c.Repeat = []int{Int(t, "kind", 0, nKinds-1)}, 0, 500
		for n = len(c.Workers); n < 8; n++ {
			c.Workers = append(c.Workers, c.Workers[n%len(c.Workers)])
		}
		for i := range c.Workers {
			c.Workers[i] = slices.Clone(c.Workers[i])
			for k := range c.Workers[i] {
				c.Workers[i][k].D = 0
			}
		}
	}
	return c
}

func execM04(cx *Ctx, c M04Case) error {
	r := metric.NewRegistry()
	cl := map[metricdata.LabelKey]metricdata.LabelValue{}
	for i := 0; i < c.Consts; i++ {
		cl[metricdata.LabelKey{Key: constNames[i]}] = metricdata.NewLabelValue("c")
	}
	var hs []handle
	// derived metrics whose entries are all present before the race starts
	for i, k := range c.Kinds {
		h, err := add(r, k, fmt.Sprint("m", i), metric.WithLabelKeys("k"), metric.WithConstLabel(cl))
		if err != nil {
			return err
		}
		hs = append(hs, h)
	}
	lab := func(i int64) []metricdata.LabelValue {
		return []metricdata.LabelValue{metricdata.NewLabelValue(fmt.Sprint("l", i))}
	}
	for i, k := range c.Kinds {
		if isDerived(k) {
			for l := int64(0); l < 4; l++ {
				if err := hs[i].upsert(-1, false, lab(l)); err != nil {
					return err
				}
			}
		}
	}
	var wg, rg sync.WaitGroup
	var firstErr atomic.Value
	fail := func(err error) {
		if err != nil {
			firstErr.CompareAndSwap(nil, err)
		}
	}
	stop := make(chan struct{})
	for i := 0; i < c.Readers; i++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			last := map[string]float64{}
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				seen := map[string]bool{}
				for _, m := range r.Read() {
					var k int
					fmt.Sscanf(m.Descriptor.Name, "m%d", &k)
					for _, ts := range m.TimeSeries {
						if len(ts.LabelValues) != c.Consts+1 {
							fail(Errf("%d label values", len(ts.LabelValues)))
							return
						}
						key := m.Descriptor.Name + vec(ts.LabelValues)
						if seen[key] {
							fail(Errf("series %s was read twice at once", key))
							return
						}
						seen[key] = true
						v, _, err := num(ts.Points[0])
						fail(err)
						if !isDerived(c.Kinds[k]) {
							if v < last[key] {
								fail(Errf("%s went down from %v to %v although it was only ever incremented", key, last[key], v))
								return
							}
							last[key] = v
						}
					}
					if isDerived(c.Kinds[k]) && len(m.TimeSeries) != 4 {
						fail(Errf("a derived metric shows %d of its 4 series while one is being updated", len(m.TimeSeries)))
						return
					}
				}
				for key := range last {
					if !seen[key] {
						fail(Errf("series %s disappeared", key))
						return
					}
				}
			}
		}()
	}
	gate := make(chan struct{})
	want := make([]map[string]float64, len(hs))
	finals := make([]map[string]map[float64]bool, len(hs))
	for i := range want {
		want[i] = map[string]float64{}
		finals[i] = map[string]map[float64]bool{}
	}
	for _, ops := range c.Workers {
		lastUp := map[[2]int64]float64{}
		for _, o := range ops {
			m := o.M % len(hs)
			k := lab(o.D)[0].Value
			want[m][k] += float64(o.V) * float64(max(c.Repeat, 1))
			lastUp[[2]int64{int64(m), o.D}] = float64(o.V)
		}
		for k, v := range lastUp {
			l := lab(k[1])[0].Value
			if finals[k[0]][l] == nil {
				finals[k[0]][l] = map[float64]bool{}
			}
			finals[k[0]][l][v] = true
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, o := range ops {
				m := o.M % len(hs)
				if isDerived(c.Kinds[m]) {
					fail(hs[m].upsert(float64(o.V), false, lab(o.D)))
					continue
				}
				e, err := hs[m].get(lab(o.D))
				if err != nil {
					fail(err)
					continue
				}
				for i := 0; i < max(c.Repeat, 1); i++ {
					e.apply(false, float64(o.V))
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	close(stop)
	rg.Wait()
	if err, ok := firstErr.Load().(error); ok {
		return err
	}
	ms := r.Read()
	if len(ms) != len(hs) {
		return Errf("%d metrics, want %d", len(ms), len(hs))
	}
	for _, m := range ms {
		var k int
		fmt.Sscanf(m.Descriptor.Name, "m%d", &k)
		if !isDerived(c.Kinds[k]) && len(m.TimeSeries) != len(want[k]) {
			return Errf("%s has %d series, want %d", m.Descriptor.Name, len(m.TimeSeries), len(want[k]))
		}
		for _, ts := range m.TimeSeries {
			l := ts.LabelValues[c.Consts].Value
			v, _, err := num(ts.Points[0])
			if err != nil {
				return err
			}
			if isDerived(c.Kinds[k]) {
				if f := finals[k][l]; (f == nil && v != -1) || (f != nil && !f[v]) {
					return Errf("derived %s[%s] = %v, which no goroutine wrote last", m.Descriptor.Name, l, v)
				}
			} else if v != want[k][l] {
				return Errf("%s[%s] = %v, but %v was added", m.Descriptor.Name, l, v, want[k][l])
			}
		}
	}
	total := 0
	for _, w := range c.Workers {
		total += len(w)
	}
	cx.ClassIf(c.Readers > 0, "read-meanwhile")
	cx.ClassIf(c.Repeat > 0, "heavy-contention")
	cx.ClassIf(c.Consts > 2, "several-constant-labels")
	cx.NonTrivial(total > 5)
	return nil
}

func TestM04(t *testing.T) {
	Check(t, "M04", "concurrent", Opts{Quick: 1500, Thorough: 20000,
		Rule: "2-6 goroutines obtaining, incrementing and upserting the same series of up to four metrics with up to five constant labels while up to two others read, in one case in 20 eight at one series, each step 500 times, under the race detector; non-trivial when more than five operations are made"},
		genM04, execM04)
}
