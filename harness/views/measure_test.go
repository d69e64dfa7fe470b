package views

import (
	"context"
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// V11Op is one step: make a measure, register or unregister a view, record,
// or read.
type V11Op struct {
	Op   string
	Name int
	F    bool // float64 measure
	Desc int
	Unit int
	Agg  string
	On   []int // measures, in order of their making
	V    []F
	Via  int
}

// V11Case makes measures of few names again and again.
type V11Case struct {
	Ops    []V11Op
	Global bool
}

var v11Units = []string{"1", "By", "ms", "", "furlong"}

func genV11(t *rapid.T) V11Case {
	c := V11Case{Global: Bool(t, "global")}
	c.Ops = Slice(t, "ops", 3, 30, func(t *rapid.T) V11Op {
		o := V11Op{Op: Pick(t, "op", "new", "new", "view", "view", "unview", "rec", "rec", "rec", "read"), Name: Pick(t, "name", 0, 0, 0, 1, 2), F: Bool(t, "float"), Desc: Int(t, "desc", 0, 2), Unit: Int(t, "unit", 0, 4),
			Agg: Pick(t, "agg", "count", "sum", "last", "dist"), Via: Int(t, "via", 0, 2)}
		for n := Int(t, "n", 1, 4); n > 0; n-- {
			o.On = append(o.On, Int(t, "on", 0, 5))
			o.V = append(o.V, F(Pick[float64](t, "v", 0, 1, -1, 2, 100, 1<<40, -7)))
		}
		return o
	})
	c.Ops[0].Op = "new"
	return c
}

var v11Seq atomic.Int64

type v11Measure struct {
	m    stats.Measure
	name string
	f    bool
}

func (m v11Measure) make(v float64) stats.Measurement {
	switch x := m.m.(type) {
	case *stats.Int64Measure:
		return x.M(int64(v))
	case *stats.Float64Measure:
		return x.M(v)
	}
	panic("kind")
}

func newV11Measure(f bool, name, desc, unit string) v11Measure {
	if f {
		return v11Measure{stats.Float64(name, desc, unit), name, f}
	}
	return v11Measure{stats.Int64(name, desc, unit), name, f}
}

func v11Agg(s string) *view.Aggregation {
	switch s {
	case "count":
		return view.Count()
	case "sum":
		return view.Sum()
	case "last":
		return view.LastValue()
	}
	return view.Distribution(0.5, 50)
}

// v11Rows is what the rows of an untagged view say.
func v11Rows(rows []*view.Row) string {
	s := ""
	for _, r := range rows {
		switch d := r.Data.(type) {
		case *view.CountData:
			s += fmt.Sprint("count ", d.Value)
		case *view.SumData:
			s += fmt.Sprint("sum ", d.Value)
		case *view.LastValueData:
			s += fmt.Sprint("last ", d.Value)
		case *view.DistributionData:
			s += fmt.Sprint("dist ", d.Count, d.Min, d.Max, d.CountPerBucket)
		}
	}
	return s
}

func v11Want(agg string, vs []float64) string {
	if len(vs) == 0 {
		return ""
	}
	sum, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
	var b [3]int
	for _, v := range vs {
		sum += v
		lo, hi = math.Min(lo, v), math.Max(hi, v)
		switch {
		case v < 0.5:
			b[0]++
		case v < 50:
			b[1]++
		default:
			b[2]++
		}
	}
	switch agg {
	case "count":
		return fmt.Sprint("count ", len(vs))
	case "sum":
		return fmt.Sprint("sum ", sum)
	case "last":
		return fmt.Sprint("last ", vs[len(vs)-1])
	}
	return fmt.Sprint("dist ", len(vs), lo, hi, b)
}

func execV11(cx *Ctx, c V11Case) error {
	id := v11Seq.Add(1)
	type desc struct{ desc, unit string }
	first := map[string]desc{}
	var ms []v11Measure
	type vw struct {
		v       *view.View
		agg, on string
		m       v11Measure
		vals    []float64
	}
	var vs []*vw
	var meter view.Meter
	register, unregister, find, retrieve := view.Register, view.Unregister, view.Find, view.RetrieveData
	if !c.Global {
		meter = view.NewMeter()
		meter.Start()
		defer meter.Stop()
		register, unregister, find, retrieve = meter.Register, meter.Unregister, meter.Find, meter.RetrieveData
	}
	defer func() {
		for _, v := range vs {
			unregister(v.v)
		}
	}()
	nviews, handles, shared := 0, map[string]int{}, false
	check := func() error {
		for i, m := range ms {
			if w := first[m.name]; m.m.Name() != m.name || m.m.Description() != w.desc || m.m.Unit() != w.unit {
				return Errf("measure %d is %q, %q, %q; the first of its name has %q, %q", i, m.m.Name(), m.m.Description(), m.m.Unit(), w.desc, w.unit)
			}
		}
		for i, v := range vs {
			rows, err := retrieve(v.v.Name)
			if err != nil {
				return err
			}
			if got, want := v11Rows(rows), v11Want(v.agg, v.vals); got != want {
				return Errf("view %d of %q has %q, want %q", i, v.on, got, want)
			}
			if f := find(v.v.Name); f == nil || f.Description != first[v.on].desc {
				return Errf("view %d of %q has the description %q, want the measure's %q", i, v.on, f.Description, first[v.on].desc)
			}
		}
		if c.Global {
			return nil
		}
		for _, m := range meter.(metricproducer.Producer).Read() {
			for _, v := range vs {
				if v.v.Name != m.Descriptor.Name {
					continue
				}
				var typ metricdata.Type
				switch {
				case v.agg == "dist":
					typ = metricdata.TypeCumulativeDistribution
				case v.agg == "count" || v.agg == "sum" && !v.m.f:
					typ = metricdata.TypeCumulativeInt64
				case v.agg == "sum":
					typ = metricdata.TypeCumulativeFloat64
				case v.m.f:
					typ = metricdata.TypeGaugeFloat64
				default:
					typ = metricdata.TypeGaugeInt64
				}
				unit := first[v.on].unit
				if v.agg == "count" || unit != "By" && unit != "ms" {
					unit = "1"
				}
				if m.Descriptor.Type != typ || string(m.Descriptor.Unit) != unit && first[v.on].unit != "furlong" {
					return Errf("the metric of %s over %q (float %v) has type %v and unit %q, want %v and %q", v.agg, v.on, v.m.f, m.Descriptor.Type, m.Descriptor.Unit, typ, unit)
				}
			}
		}
		return nil
	}
	for _, o := range c.Ops {
		switch o.Op {
		case "new":
			name := fmt.Sprintf("v11/%d/%d", id, o.Name)
			d := desc{[]string{"", "one", "another"}[o.Desc], v11Units[o.Unit]}
			ms = append(ms, newV11Measure(o.F, name, d.desc, d.unit))
			if _, ok := first[name]; !ok {
				first[name] = d
			} else if first[name] != d {
				cx.Class("other-words")
			}
			handles[name]++
		case "view":
			m := ms[o.On[0]%len(ms)]
			v := &vw{agg: o.Agg, on: m.name, m: m, v: &view.View{Name: fmt.Sprintf("v11/%d/view%d", id, nviews), Measure: m.m, Aggregation: v11Agg(o.Agg)}}
			nviews++
			if err := register(v.v); err != nil {
				return err
			}
			vs = append(vs, v)
		case "unview":
			if len(vs) > 0 {
				i := o.Name % len(vs)
				unregister(vs[i].v)
				vs = append(vs[:i], vs[i+1:]...)
			}
		case "rec":
			var l []stats.Measurement
			for i, k := range o.On {
				m := ms[k%len(ms)]
				x := m.make(float64(o.V[i]))
				if x.Value() != float64(o.V[i]) || x.Measure() != m.m {
					return Errf("the measurement of %v with %q is %v of %v", o.V[i], m.name, x.Value(), x.Measure().Name())
				}
				l = append(l, x)
				for _, v := range vs {
					if v.on == m.name {
						v.vals = append(v.vals, float64(o.V[i]))
						shared = shared || v.m.m != m.m
					}
				}
			}
			var err error
			switch {
			case !c.Global:
				err = stats.RecordWithOptions(context.Background(), stats.WithRecorder(meter), stats.WithMeasurements(l...))
			case o.Via == 0:
				stats.Record(context.Background(), l...)
			case o.Via == 1:
				err = stats.RecordWithTags(context.Background(), nil, l...)
			default:
				err = stats.RecordWithOptions(context.Background(), stats.WithMeasurements(l...))
			}
			if err != nil {
				return err
			}
		case "read":
			if err := check(); err != nil {
				return err
			}
		}
	}
	cx.ClassIf(shared, "other-handle")
	cx.ClassIf(c.Global, "global")
	cx.NonTrivial(shared)
	return check()
}

// V11Par makes one measure from several goroutines.
type V11Par struct {
	Floats []bool
	Names  []int
	Recs   int
	Early  bool // views are registered by the goroutines, not after them
	Global bool
}

func genV11Par(t *rapid.T) V11Par {
	c := V11Par{Recs: Int(t, "recs", 1, 30), Early: Bool(t, "early"), Global: Bool(t, "global")}
	for n := Int(t, "n", 2, 8); n > 0; n-- {
		c.Floats = append(c.Floats, Bool(t, "float"))
		c.Names = append(c.Names, Pick(t, "name", 0, 0, 0, 1))
	}
	return c
}

func execV11Par(cx *Ctx, c V11Par) error {
	id := v11Seq.Add(1)
	register, unregister, retrieve := view.Register, view.Unregister, view.RetrieveData
	var opts []stats.Options
	if !c.Global {
		meter := view.NewMeter()
		meter.Start()
		defer meter.Stop()
		register, unregister, retrieve = meter.Register, meter.Unregister, meter.RetrieveData
		opts = append(opts, stats.WithRecorder(meter))
	}
	n := len(c.Floats)
	ms := make([]v11Measure, n)
	vs := make([]*view.View, n)
	errs := make([]error, n)
	start, made := make(chan struct{}), make(chan struct{})
	var wg, mk sync.WaitGroup
	reg := func(i int) {
		vs[i] = &view.View{Name: fmt.Sprintf("v11p/%d/view%d", id, i), Measure: ms[i].m, Aggregation: view.Count()}
		if err := register(vs[i]); err != nil {
			errs[i] = err
		}
	}
	for i := range ms {
		wg.Add(1)
		mk.Add(1)
		go func() {
			defer wg.Done()
			<-start
			ms[i] = newV11Measure(c.Floats[i], fmt.Sprintf("v11p/%d/%d", id, c.Names[i]), fmt.Sprint("by", i), v11Units[i%len(v11Units)])
			if c.Early {
				reg(i)
			}
			mk.Done()
			<-made
			for k := 0; k < c.Recs; k++ {
				o := append([]stats.Options{stats.WithMeasurements(ms[i].make(1))}, opts...)
				if err := stats.RecordWithOptions(context.Background(), o...); err != nil {
					errs[i] = err
				}
			}
		}()
	}
	close(start)
	mk.Wait()
	if !c.Early {
		for i := range ms {
			reg(i)
		}
	}
	close(made)
	wg.Wait()
	defer unregister(vs...)
	users := map[int]int{}
	for i := range ms {
		if errs[i] != nil {
			return errs[i]
		}
		users[c.Names[i]]++
	}
	for i := range ms {
		for j := range ms {
			if c.Names[i] != c.Names[j] {
				continue
			}
			a, b := ms[i].m, ms[j].m
			if a.Name() != b.Name() || a.Description() != b.Description() || a.Unit() != b.Unit() {
				return Errf("measures of one name differ: %q %q %q, %q %q %q", a.Name(), a.Description(), a.Unit(), b.Name(), b.Description(), b.Unit())
			}
		}
		var by int
		if k, err := fmt.Sscanf(ms[i].m.Description(), "by%d", &by); k != 1 || err != nil || by >= n || c.Names[by] != c.Names[i] || v11Units[by%len(v11Units)] != ms[i].m.Unit() {
			return Errf("measure %d has the description %q and unit %q, which nobody gave", i, ms[i].m.Description(), ms[i].m.Unit())
		}
		rows, err := retrieve(vs[i].Name)
		if err != nil {
			return err
		}
		if got, want := v11Rows(rows), fmt.Sprint("count ", c.Recs*users[c.Names[i]]); got != want {
			return Errf("view %d has %q, want %q", i, got, want)
		}
	}
	cx.ClassIf(c.Early, "early")
	cx.NonTrivial(users[0] > 1)
	return nil
}

func TestV11(t *testing.T) {
	Check(t, "V11", "measures", Opts{Quick: 3000, Thorough: 40000,
		Rule: "histories that make int and float measures of three names again and again, with other descriptions and units, before and after views on any of them are registered, and record with any of them; non-trivial when a view receives samples of a measure other than the one it was given"},
		genV11, execV11)
	Check(t, "V11", "together", Opts{Quick: 1000, Thorough: 15000,
		Rule: "2-8 goroutines that make measures of two names, register views and record at once, under the race detector; non-trivial when two make one name"},
		genV11Par, execV11Par)
}
