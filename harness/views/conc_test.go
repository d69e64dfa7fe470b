package views

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- V07 concurrent recording ----

// V07Case: recorders and others at work on one meter.
type V07Case struct {
	Aggs  []string // aggregations of the views that stay registered
	Recs  [][]int  // per recorder: tag value of each record (0 none)
	Yield []int
	Churn [][]string
}

var churnOps = []string{"reg", "reg", "get", "get", "unreg", "find", "read", "read", "getfixed", "res", "addexp", "delexp", "period", "rows", "make"}

// v07n numbers the cases: each makes measures of its own.
var v07n atomic.Int64

func genV07(t *rapid.T) V07Case {
	c := V07Case{}
	c.Aggs = Slice(t, "aggs", 1, 3, func(t *rapid.T) string { return Pick(t, "agg", "count", "sum", "dist") })
	c.Recs = Slice(t, "recs", 1, 4, func(t *rapid.T) []int {
		return Slice(t, "rec", 1, 60, func(t *rapid.T) int { return Int(t, "tag", 0, 3) })
	})
	for range c.Recs {
		c.Yield = append(c.Yield, Int(t, "yield", 0, 3))
	}
	c.Churn = Slice(t, "churn", 0, 3, func(t *rapid.T) []string {
		return Slice(t, "ops", 1, 20, func(t *rapid.T) string { return rapid.SampledFrom(churnOps).Draw(t, "op") })
	})
	return c
}

type flagExp struct {
	allowed atomic.Int32 // exports may arrive
	inside  *atomic.Int32
	errs    chan error
	gone    *sync.Map // view names that must not be exported
	last    map[string]int64
	calls   *atomic.Int64
}

func report(ch chan error, err error) {
	select {
	case ch <- err:
	default:
	}
}

func (x *flagExp) ExportView(d *view.Data) {
	if x.inside.Add(1) > 1 {
		report(x.errs, Errf("two ExportView calls at once"))
	}
	defer x.inside.Add(-1)
	if x.allowed.Load() == 0 {
		report(x.errs, Errf("ExportView called on an exporter that is not registered"))
	}
	if g, ok := x.gone.Load(d.View.Name); ok && g.(*atomic.Int32).Load() == 1 && len(d.Rows) > 0 {
		report(x.errs, Errf("view %s exported after Unregister returned", d.View.Name))
	}
	if strings.HasPrefix(d.View.Name, "fixed") {
		if err := monotone(x.last, d.View.Name, d.Rows); err != nil {
			report(x.errs, Errf("exported data: %v", err))
		}
	}
	x.calls.Add(1)
	runtime.Gosched()
}

func count(d view.AggregationData) int64 {
	switch x := d.(type) {
	case *view.CountData:
		return x.Value
	case *view.SumData:
		return int64(x.Value) // every sample is 1
	case *view.DistributionData:
		return x.Count
	}
	return -1
}

func monotone(last map[string]int64, name string, rows []*view.Row) error {
	seen := map[string]bool{}
	for _, r := range rows {
		k := name + "|" + tagString(r.Tags)
		n := count(r.Data)
		seen[k] = true
		if n < last[k] {
			return Errf("%s went from %d back to %d", k, last[k], n)
		}
		last[k] = n
		if d, ok := r.Data.(*view.DistributionData); ok {
			var s int64
			for _, b := range d.CountPerBucket {
				s += b
			}
			if s != d.Count || d.Min != 1 || d.Max != 1 || d.Mean != 1 {
				return Errf("%s is torn: %+v", k, d)
			}
		}
	}
	for k := range last {
		if strings.HasPrefix(k, name+"|") && !seen[k] {
			return Errf("row %s disappeared", k)
		}
	}
	return nil
}

func pointCount(p metricdata.Point) int64 {
	switch v := p.Value.(type) {
	case int64:
		return v
	case float64:
		return int64(v)
	case *metricdata.Distribution:
		return v.Count
	}
	return -1
}

func aggOf(s string) *view.Aggregation {
	switch s {
	case "count":
		return view.Count()
	case "sum":
		return view.Sum()
	case "last":
		return view.LastValue()
	}
	return view.Distribution(0.5, 2)
}

func execV07(cx *Ctx, c V07Case) error {
	m := view.NewMeter()
	m.Start()
	defer m.Stop()
	m.SetReportingPeriod(200 * time.Microsecond)
	key := tagKeys[0]
	var fixed []*view.View
	for i, a := range c.Aggs {
		fixed = append(fixed, &view.View{Name: fmt.Sprint("fixed", i), Measure: measures[i].measure(), Aggregation: aggOf(a), TagKeys: []tag.Key{key}})
	}
	if err := m.Register(fixed...); err != nil {
		return err
	}
	var ms []stats.Measurement
	for i := range fixed {
		ms = append(ms, measures[i].m(1))
	}
	errs := make(chan error, 1)
	inside := &atomic.Int32{}
	gone := &sync.Map{}
	calls := &atomic.Int64{}
	id := v07n.Add(1)
	var made [2]atomic.Int64
	var started, finished atomic.Int64
	var wg, rg sync.WaitGroup
	want := map[string]int64{}
	for r, tags := range c.Recs {
		for _, x := range tags {
			want[recTag(key, x)]++
		}
		wg.Add(1)
		rg.Add(1)
		go func() {
			defer wg.Done()
			defer rg.Done()
			for i, x := range tags {
				ctx := context.Background()
				if x > 0 {
					ctx, _ = tag.New(ctx, tag.Insert(key, fmt.Sprint("t", x)))
				}
				started.Add(1)
				stats.RecordWithOptions(ctx, stats.WithRecorder(m), stats.WithMeasurements(ms...))
				finished.Add(1)
				if c.Yield[r] > 0 && i%c.Yield[r] == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	fail := func(format string, a ...interface{}) { report(errs, Errf(format, a...)) }
	for w, ops := range c.Churn {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := &view.View{Name: fmt.Sprint("churn", w), Measure: measures[0].measure(), Aggregation: view.Count()}
			out := &atomic.Int32{}
			out.Store(1)
			gone.Store(mine.Name, out)
			registered := false
			var regLow, regHigh int64 // finished before Register was called, started when it had returned
			exp := &flagExp{inside: inside, errs: errs, gone: gone, last: map[string]int64{}, calls: calls}
			last := map[string]int64{}
			mlast := map[string]int64{}
			for i, op := range ops {
				switch op {
				case "reg":
					out.Store(0)
					f := finished.Load()
					if err := m.Register(mine); err != nil {
						fail("Register: %v", err)
					}
					if !registered {
						regLow, regHigh = f, started.Load()
					}
					registered = true
				case "unreg":
					m.Unregister(mine)
					registered = false
					out.Store(1)
				case "get", "rows":
					f := finished.Load()
					rows, err := m.RetrieveData(mine.Name)
					s := started.Load()
					if (err != nil) == registered {
						fail("RetrieveData(%s): %v, registered %v", mine.Name, err, registered)
					}
					if registered {
						var n int64
						for _, r := range rows {
							n += count(r.Data)
						}
						if n < f-regHigh || n > s-regLow {
							fail("view counts %d of between %d and %d records", n, f-regHigh, s-regLow)
						}
					}
				case "find":
					if v := m.Find(mine.Name); (v != nil) != registered {
						fail("Find(%s) = %v, registered %v", mine.Name, v, registered)
					}
				case "getfixed":
					for _, v := range fixed {
						rows, err := m.RetrieveData(v.Name)
						if err != nil {
							fail("RetrieveData: %v", err)
						}
						if err := monotone(last, v.Name, rows); err != nil {
							fail("retrieved data: %v", err)
						}
					}
				case "read":
					totals := map[int64][]string{}
					for _, x := range m.(metricproducer.Producer).Read() {
						if !strings.HasPrefix(x.Descriptor.Name, "fixed") {
							continue
						}
						var n int64
						for _, ts := range x.TimeSeries {
							k := fmt.Sprint(x.Descriptor.Name, ts.LabelValues)
							v := pointCount(ts.Points[0])
							if v < mlast[k] {
								fail("metric %s went from %d back to %d", k, mlast[k], v)
							}
							mlast[k] = v
							n += v
						}
						totals[n] = append(totals[n], x.Descriptor.Name)
					}
					if len(totals) > 1 {
						fail("one reading shows part of a Record call: totals by view %v", totals)
					}
				case "make":
					// the goroutines make the same measures, and views of them
					name := fmt.Sprintf("verif/made/%d/%d", id, i%2)
					h := stats.Int64(name, "made", "1")
					if err := m.Register(&view.View{Name: name, Measure: h, Aggregation: view.Count()}); err != nil {
						fail("Register of a view of a measure made again: %v", err)
					}
					stats.RecordWithOptions(context.Background(), stats.WithRecorder(m), stats.WithMeasurements(h.M(1)))
					made[i%2].Add(1)
				case "res":
					m.SetResource(&resource.Resource{Type: fmt.Sprint(w)})
				case "addexp":
					exp.allowed.Store(1)
					m.RegisterExporter(exp)
				case "delexp":
					m.UnregisterExporter(exp)
					exp.allowed.Store(0)
				case "period":
					m.SetReportingPeriod(time.Duration(100+w*100) * time.Microsecond)
				}
			}
			m.UnregisterExporter(exp)
			exp.allowed.Store(0)
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	for i := range made {
		if n := made[i].Load(); n > 0 {
			rows, err := m.RetrieveData(fmt.Sprintf("verif/made/%d/%d", id, i))
			if err != nil || len(rows) != 1 || count(rows[0].Data) != n {
				return Errf("of %d records through handles of one measure, its view has %v, %v", n, rows, err)
			}
			cx.ClassIf(n > 1, "measure-made-again")
		}
	}
	var total int64
	for _, v := range fixed {
		rows, err := m.RetrieveData(v.Name)
		if err != nil {
			return err
		}
		if len(rows) != len(want) {
			return Errf("view %s has %d rows, want %d", v.Name, len(rows), len(want))
		}
		for _, r := range rows {
			id := tagString(r.Tags)
			if n := count(r.Data); n != want[id] {
				return Errf("view %s{%s} counts %d, want %d", v.Name, id, n, want[id])
			}
			total += want[id]
		}
	}
	cx.ClassIf(calls.Load() > 0, "exports")
	cx.ClassIf(len(c.Recs) > 1, "several-recorders")
	cx.ClassIf(len(c.Churn) > 0, "churn")
	cx.NonTrivial(total > 5 && len(c.Recs)+len(c.Churn) > 1)
	return nil
}

func recTag(k tag.Key, x int) string {
	if x == 0 {
		return ""
	}
	return tagString([]tag.Tag{{Key: k, Value: fmt.Sprint("t", x)}})
}

func TestV07(t *testing.T) {
	Check(t, "V07", "concurrent", Opts{Quick: 1500, Thorough: 20000,
		Rule: "1-4 goroutines recording up to 60 times each while up to three others register, look up, retrieve, read, export, change the resource, the period and the exporters, under the race detector; non-trivial when more than five samples are recorded with at least two goroutines at work"},
		genV07, execV07)
}

// ---- V08 meters are independent; stopping is final and safe ----

// V08Case: what goroutines do around the Stop of a meter.
type V08Case struct {
	Before  []string
	Workers [][]string
	Stops   int
	After   []string
	Wait    bool // let the meter start before it is stopped
	Idle    bool // it is not started before
}

var stopOps = []string{"rec", "rec", "reg", "unreg", "find", "get", "period", "read", "addexp", "delexp", "res", "sleep", "start"}

func genV08(t *rapid.T) V08Case {
	ops := func(l string, lo, hi int) []string {
		return Slice(t, l, lo, hi, func(t *rapid.T) string { return rapid.SampledFrom(stopOps).Draw(t, "op") })
	}
	c := V08Case{Before: ops("before", 0, 6), After: ops("after", 0, 12), Stops: Int(t, "stops", 1, 3), Wait: Bool(t, "wait")}
	if Bool(t, "observed") {
		c.Before = append([]string{"addexp", "reg", "rec"}, c.Before...)
	}
	if Bool(t, "again") {
		c.After = append(c.After, "stop")
	}
	if OneIn(t, "idle", 6) { // calls that need the meter wait until it is started or stopped
		c.Idle, c.Before = true, nil
	}
	n := Int(t, "workers", 0, 3)
	for i := 0; i < n; i++ {
		c.Workers = append(c.Workers, ops("w", 1, 10))
	}
	return c
}

func execV08(cx *Ctx, c V08Case) error {
	return Bubble(cx, func() error {
		was := len(metricproducer.GlobalManager().GetAll())
		m := view.NewMeter()
		errs := make(chan error, 1)
		exp := &flagExp{inside: &atomic.Int32{}, errs: errs, gone: &sync.Map{}, last: map[string]int64{}, calls: &atomic.Int64{}}
		exp.allowed.Store(1)
		if !c.Idle {
			m.Start()
		}
		if c.Wait {
			synctest.Wait()
		}
		do := func(op string, v *view.View) {
			switch op {
			case "rec":
				stats.RecordWithOptions(context.Background(), stats.WithRecorder(m), stats.WithMeasurements(measures[0].m(1)))
			case "reg":
				m.Register(v)
			case "unreg":
				m.Unregister(v)
			case "find":
				m.Find(v.Name)
			case "get":
				m.RetrieveData(v.Name)
			case "period":
				m.SetReportingPeriod(time.Second)
			case "read":
				m.(metricproducer.Producer).Read()
			case "addexp":
				m.RegisterExporter(exp)
			case "delexp":
				m.UnregisterExporter(exp)
			case "res":
				m.SetResource(&resource.Resource{Type: "x"})
			case "stop":
				m.Stop()
			case "start":
				m.Start()
			case "sleep":
				time.Sleep(11 * time.Second)
			}
		}
		mk := func(i int) *view.View {
			return &view.View{Name: fmt.Sprint("stop", i), Measure: measures[0].measure(), Aggregation: view.Count()}
		}
		v := mk(0)
		for _, op := range c.Before {
			do(op, v)
		}
		panics := make(chan error, 8)
		guard := func(what string) {
			if r := recover(); r != nil {
				report(panics, Errf("%s panics: %v", what, r))
			}
		}
		var wg sync.WaitGroup
		for i, ops := range c.Workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := mk(i + 1)
				for _, op := range ops {
					func() { defer guard(op); do(op, mine) }()
				}
			}()
		}
		for i := 0; i < c.Stops; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer guard("Stop")
				m.Stop()
				exp.allowed.Store(0)
			}()
		}
		wg.Wait()
		if all := metricproducer.GlobalManager().GetAll(); len(all) != was {
			return Errf("%d producers remain after the meter was stopped, there were %d before it was started", len(all), was)
		}
		for _, op := range c.After {
			func() { defer guard(op + " after Stop"); do(op, v) }()
		}
		// far more records than any queue holds
		func() {
			defer guard("rec after Stop")
			for i := 0; i < 3000 && len(c.After) > 0; i++ {
				do("rec", v)
			}
		}()
		time.Sleep(time.Minute)
		synctest.Wait()
		if all := metricproducer.GlobalManager().GetAll(); len(all) != was {
			return Errf("%d producers a minute after the meter was stopped, there were %d before", len(all), was)
		}
		for _, ch := range []chan error{panics, errs} {
			select {
			case err := <-ch:
				return err
			default:
			}
		}
		cx.ClassIf(exp.calls.Load() > 0, "exported-before")
		cx.ClassIf(len(c.Workers) > 0, "concurrent")
		cx.ClassIf(!c.Wait, "stopped-while-starting")
		cx.ClassIf(c.Idle, "not-started-before")
		cx.NonTrivial(len(c.Workers)+len(c.After)+c.Stops > 1)
		return nil
	})
}

func TestV08(t *testing.T) {
	Check(t, "V08", "isolation", Opts{Quick: 1500, Thorough: 20000,
		Rule: "histories over two meters with the same view names, measures, exporter and resource changes, each compared with its own model; non-trivial when samples are recorded and metrics read"},
		genE([]string{"rec", "rec", "rec", "reg", "unreg", "get", "read", "res", "addexp", "delexp", "sleep", "period", "find"}, false, 4, 40, 2),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool { return s["samples"] > 2 && s["metrics"] > 0 })
		})
	Check(t, "V08", "stop", Opts{Quick: 2000, Thorough: 30000,
		Rule: "1-3 Stop calls, concurrent with up to three goroutines using the meter and followed by more uses, the meter possibly still starting, under the race detector and a fake clock; non-trivial when something besides one Stop happens"},
		genV08, execV08)
	Check(t, "V08", "shared", Opts{Quick: 2500, Thorough: 40000,
		Rule: "2-4 goroutines, each registering, recording, looking up, reading and exporting on a meter of its own (one may be the package's), with views and aggregations they share, under the race detector and the real scheduler; non-trivial when several registrations and a recorded sample happen"},
		genV08Share, execV08Share)
	Check(t, "V08", "program", Opts{Quick: 200, Thorough: 4000,
		Rule: "the test binary run again as a program that uses the package's meter and one of its own, stops the package's (1-3 calls, up to three goroutines at work on it) and goes on; what each meter then finds, holds, refuses and exports is compared with a model of it; non-trivial when something happens before the stop"},
		genV08Program, execV08Program)
}

// V08Share: goroutines each at work on a meter of their own, with views
// and aggregations they share.
type V08Share struct {
	Default bool       // the first uses the package's own meter
	Views   []V08SView // shared by all
	Ops     [][]V08SOp // by meter
	Exp     []bool     // which meters have an exporter from the start
}

// V08SView describes one shared view.
type V08SView struct {
	Agg    int
	Keys   []int
	NoName bool
}

// V08SOp is one use of a meter.
type V08SOp struct {
	Op   string
	View int
}

func genV08Share(t *rapid.T) V08Share {
	c := V08Share{Default: Bool(t, "default")}
	c.Views = Slice(t, "views", 1, 4, func(t *rapid.T) V08SView {
		return V08SView{Agg: Int(t, "agg", 0, 5), NoName: Bool(t, "noname"),
			Keys: rapid.SliceOfNDistinct(rapid.IntRange(0, 3), 0, 3, func(i int) int { return i }).Draw(t, "keys")}
	})
	n := Int(t, "meters", 2, 4)
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, Slice(t, "ops", 2, 25, func(t *rapid.T) V08SOp {
			return V08SOp{Op: Pick(t, "op", "reg", "reg", "reg", "rec", "rec", "rec", "unreg", "get", "read", "find", "addexp", "delexp", "yield"), View: Int(t, "view", 0, 3)}
		}))
		c.Exp = append(c.Exp, Bool(t, "exp"))
	}
	return c
}

// ownExp complains about rows that another meter recorded.
type ownExp struct {
	who  string
	errs chan error
}

func (x *ownExp) ExportView(d *view.Data) {
	if !strings.HasPrefix(d.View.Name, "share") && !strings.HasPrefix(d.View.Name, "verif/") {
		return
	}
	for _, r := range d.Rows {
		if err := ownRow(x.who, d.View.Name, r.Tags); err != nil {
			report(x.errs, Errf("the exporter of meter %s: %v", x.who, err))
		}
	}
}

func ownRow(who, name string, tags []tag.Tag) error {
	for _, t := range tags {
		if t.Key == ownKey && t.Value != who {
			return Errf("view %s shows what meter %s recorded", name, t.Value)
		}
	}
	return nil
}

var ownKey = tag.MustNewKey("owner")

func execV08Share(cx *Ctx, c V08Share) error {
	aggs := []*view.Aggregation{view.Count(), view.Sum(), view.LastValue(), view.Distribution(5, 0, 1), view.Distribution(2, 1), view.Distribution()}
	var vs []*view.View
	for i, s := range c.Views {
		v := &view.View{Name: fmt.Sprint("share", i), Measure: measures[i%len(measures)].measure(), Aggregation: aggs[s.Agg%len(aggs)], TagKeys: []tag.Key{ownKey}}
		if s.NoName {
			v.Name = ""
		}
		for _, k := range s.Keys {
			v.TagKeys = append(v.TagKeys, tagKeys[k%len(tagKeys)])
		}
		vs = append(vs, v)
	}
	names := func(i int) string {
		if c.Views[i].NoName {
			return measures[i%len(measures)].name
		}
		return fmt.Sprint("share", i)
	}
	errs := make(chan error, 1)
	var wg sync.WaitGroup
	var shared, recorded atomic.Int64
	for w, ops := range c.Ops {
		var m view.Meter
		if w > 0 || !c.Default {
			m = view.NewMeter()
			m.Start()
			defer m.Stop()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			who := fmt.Sprint("w", w)
			fail := func(format string, a ...interface{}) { report(errs, Errf("meter "+who+": "+format, a...)) }
			exp := &ownExp{who, errs}
			register, unregister, retrieve, find := view.Register, view.Unregister, view.RetrieveData, view.Find
			addexp, delexp, period := view.RegisterExporter, view.UnregisterExporter, view.SetReportingPeriod
			ctx, _ := tag.New(context.Background(), tag.Insert(ownKey, who))
			record := func(x stats.Measurement) { stats.Record(ctx, x) }
			if m != nil {
				register, unregister, retrieve, find = m.Register, m.Unregister, m.RetrieveData, m.Find
				addexp, delexp, period = m.RegisterExporter, m.UnregisterExporter, m.SetReportingPeriod
				record = func(x stats.Measurement) {
					stats.RecordWithOptions(ctx, stats.WithRecorder(m), stats.WithMeasurements(x))
				}
			}
			period(300 * time.Microsecond)
			defer period(10 * time.Second)
			if c.Exp[w] {
				addexp(exp)
			}
			defer delexp(exp)
			n := map[int]int64{} // registered views, samples since
			defer func() {
				for i := range n {
					unregister(vs[i])
				}
			}()
			for _, o := range ops {
				i := o.View % len(vs)
				_, on := n[i]
				switch o.Op {
				case "reg":
					if err := register(vs[i]); err != nil {
						fail("Register: %v", err)
					}
					if !on {
						n[i] = 0
						shared.Add(1)
					}
				case "unreg":
					if on { // a view never registered here is still the other meters' to name
						unregister(vs[i])
						delete(n, i)
					}
				case "rec":
					record(measures[i%len(measures)].m(1))
					for j := range n {
						if j%len(measures) == i%len(measures) {
							n[j]++
							recorded.Add(1)
						}
					}
				case "find":
					if v := find(names(i)); (v != nil) != on {
						fail("Find(%s) = %v, registered %v", names(i), v, on)
					}
				case "get":
					rows, err := retrieve(names(i))
					if (err == nil) != on {
						fail("RetrieveData(%s): %v, registered %v", names(i), err, on)
						continue
					}
					var total int64
					for _, r := range rows {
						if err := ownRow(who, names(i), r.Tags); err != nil {
							fail("%v", err)
						}
						if d, ok := r.Data.(*view.LastValueData); ok && d.Value == 1 {
							total = n[i]
						} else {
							total += count(r.Data)
						}
					}
					if on && total != n[i] {
						fail("view %s counts %d, want %d", names(i), total, n[i])
					}
				case "read":
					if m == nil {
						break
					}
					for _, x := range m.(metricproducer.Producer).Read() {
						for _, ts := range x.TimeSeries {
							for k, l := range ts.LabelValues {
								if x.Descriptor.LabelKeys[k].Key == ownKey.Name() && l.Value != who {
									fail("metric %s shows what meter %s recorded", x.Descriptor.Name, l.Value)
								}
							}
						}
					}
				case "addexp":
					addexp(exp)
				case "delexp":
					delexp(exp)
				case "yield":
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	cx.ClassIf(c.Default, "with-default-meter")
	cx.NonTrivial(shared.Load() > 1 && recorded.Load() > 0)
	return nil
}

// ---- V09 what Record records ----

// V09Mut is a tag mutator.
type V09Mut struct {
	Op  string
	Key int
	Val S
}

// V09Op is one record call.
type V09Op struct {
	Call  string // record withtags options
	Ctx   int    // which context
	Muts  []V09Mut
	Ss    []Sample // measures: 0 int 1 float 2 unsubscribed 3 second handle of 0
	Att   int
	Meter bool
}

// V09Case is a series of record calls.
type V09Case struct {
	Ctxs [][]V09Mut
	Ops  []V09Op
	// the caller reuses its slice of measurements and map of attachments
	Reuse bool
}

var (
	v09i  = stats.Int64("verif/rec/int", "first", "ms")
	v09i2 = stats.Int64("verif/rec/int", "second", "By")
	v09f  = stats.Float64("verif/rec/float", "float", "By")
	v09u  = stats.Int64("verif/rec/unsubscribed", "never subscribed", "1")
)

func genV09(t *rapid.T) V09Case {
	mut := func(bad bool) func(*rapid.T) V09Mut {
		return func(t *rapid.T) V09Mut {
			m := V09Mut{Op: Pick(t, "mut", "insert", "update", "upsert", "delete"), Key: Int(t, "key", 0, 2), Val: Pick[S](t, "val", "a", "b", "", "c", S(long))}
			if bad && OneIn(t, "bad", 12) {
				m.Val = Pick[S](t, "badval", "caf\u00e9", S(long+"x"), "\n")
			}
			return m
		}
	}
	c := V09Case{Reuse: OneIn(t, "reuse", 3)}
	c.Ctxs = Slice(t, "ctxs", 1, 3, func(t *rapid.T) []V09Mut { return Slice(t, "tags", 0, 3, mut(false)) })
	c.Ops = Slice(t, "ops", 1, 12, func(t *rapid.T) V09Op {
		o := V09Op{Call: Pick(t, "call", "record", "withtags", "options", "options"), Ctx: Int(t, "ctx", 0, len(c.Ctxs)-1), Att: Pick(t, "att", 0, 1, 2), Meter: Bool(t, "meter")}
		o.Muts = Slice(t, "muts", 0, 4, mut(true))
		most := 4
		if OneIn(t, "batch", 4) {
			most = 24
		}
		o.Ss = Slice(t, "ss", 0, most, func(t *rapid.T) Sample {
			return Sample{Measure: Int(t, "m", 0, 3), V: genV(t, "v")}
		})
		return o
	})
	return c
}

// applyMut follows the documentation of the tag mutators.
func applyMut(vals map[string]string, m V09Mut) bool {
	k := tagKeys[m.Key%len(tagKeys)].Name()
	if m.Op != "delete" {
		if len(m.Val) > 255 {
			return false
		}
		for i := 0; i < len(m.Val); i++ {
			if m.Val[i] < 0x20 || m.Val[i] > 0x7e {
				return false
			}
		}
	}
	_, has := vals[k]
	switch {
	case m.Op == "delete":
		delete(vals, k)
	case m.Op == "upsert", m.Op == "insert" && !has, m.Op == "update" && has:
		vals[k] = string(m.Val)
	}
	return true
}

func mutator(m V09Mut) tag.Mutator {
	k := tagKeys[m.Key%len(tagKeys)]
	switch m.Op {
	case "insert":
		return tag.Insert(k, string(m.Val))
	case "update":
		return tag.Update(k, string(m.Val))
	case "upsert":
		return tag.Upsert(k, string(m.Val))
	}
	return tag.Delete(k)
}

func copyMap(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func ctxString(ctx context.Context) string {
	if m := tag.FromContext(ctx); m != nil {
		return m.String()
	}
	return ""
}

func execV09(cx *Ctx, c V09Case) error {
	if v09i2.Name() != "verif/rec/int" || v09i2.Description() != "first" || v09i2.Unit() != "ms" {
		return Errf("a measure made again is described as %q %q", v09i2.Description(), v09i2.Unit())
	}
	if u := [5]string{stats.UnitNone, stats.UnitDimensionless, stats.UnitBytes, stats.UnitMilliseconds, stats.UnitSeconds}; u != [5]string{"1", "1", "By", "ms", "s"} {
		return Errf("the units are %q", u)
	}
	meter := view.NewMeter()
	meter.Start()
	defer meter.Stop()
	keys := tagKeys[:3]
	type target struct {
		v *view.View
		m *mview
	}
	mkTargets := func() (out []target) {
		for i, mm := range []mspec{{name: v09i.Name(), i: v09i}, {name: v09f.Name(), f: v09f}} {
			for _, a := range []string{"count", "sum", "last", "dist"} {
				v := &view.View{Name: fmt.Sprint("rec/", i, a), Measure: mm.measure(), Aggregation: aggOf(a), TagKeys: append([]tag.Key(nil), keys...)}
				mv := &mview{name: v.Name, m: mm, agg: ASpec{T: a}, rows: map[string][]sample{}, tags: map[string][]tag.Tag{}}
				if a == "dist" {
					mv.bounds = []float64{0.5, 2}
				}
				mv.keys = []tag.Key{tagKeys[2], tagKeys[0], tagKeys[1]} // a k1 k2
				out = append(out, target{v, mv})
			}
		}
		return out
	}
	targets := [][]target{mkTargets(), mkTargets()}
	for i, ts := range targets {
		for _, x := range ts {
			var err error
			if i == 0 {
				err = view.Register(x.v)
				defer view.Unregister(x.v)
			} else {
				err = meter.Register(x.v)
			}
			if err != nil {
				return err
			}
		}
	}
	var ctxs []context.Context
	var vals []map[string]string
	for _, muts := range c.Ctxs {
		ctx, v := context.Background(), map[string]string{}
		for _, m := range muts {
			var err error
			if ctx, err = tag.New(ctx, mutator(m)); err != nil {
				return err
			}
			applyMut(v, m)
		}
		ctxs, vals = append(ctxs, ctx), append(vals, v)
	}
	type rec struct {
		op   int
		tags map[string]string
	}
	handles := func(s Sample) (stats.Measurement, string, float64) {
		v := float64(s.V)
		iv := float64(int64(v))
		switch s.Measure % 4 {
		case 0:
			return v09i.M(int64(v)), v09i.Name(), iv
		case 1:
			return v09f.M(v), v09f.Name(), v
		case 2:
			return v09u.M(int64(v)), v09u.Name(), iv
		}
		return v09i2.M(int64(v)), v09i.Name(), iv
	}
	stat := map[string]int{}
	start := time.Now()
	buf := make([]stats.Measurement, 0, 32)
	shared := map[string]interface{}{}
	for i, o := range c.Ops {
		ctx := ctxs[o.Ctx%len(ctxs)]
		before := ctxString(ctx)
		tags := copyMap(vals[o.Ctx%len(ctxs)])
		var muts []tag.Mutator
		ok := true
		for _, m := range o.Muts {
			muts = append(muts, mutator(m))
			ok = ok && applyMut(tags, m)
		}
		var ms []stats.Measurement
		if c.Reuse {
			ms = buf[:0]
		}
		live := false
		for _, s := range o.Ss {
			x, name, _ := handles(s)
			ms = append(ms, x)
			live = live || name != v09u.Name()
		}
		var err error
		att := attachments(o.Att)
		which := 0
		switch o.Call {
		case "record":
			ok, tags, att = true, vals[o.Ctx%len(ctxs)], nil
			stats.Record(ctx, ms...)
		case "withtags":
			att = nil
			err = stats.RecordWithTags(ctx, muts, ms...)
		default:
			given := att
			if c.Reuse && att != nil {
				for k := range shared {
					delete(shared, k)
				}
				for k, v := range att {
					shared[k] = v
				}
				given = shared
			}
			opts := []stats.Options{stats.WithTags(muts...), stats.WithMeasurements(ms...), stats.WithAttachments(given)}
			if o.Meter {
				opts = append(opts, stats.WithRecorder(meter))
				which = 1
			}
			err = stats.RecordWithOptions(ctx, opts...)
		}
		if c.Reuse {
			for j := range muts {
				muts[j] = nil
			}
			if i == len(c.Ops)-1 {
				for j := range ms {
					ms[j] = v09i.M(1 << 40)
				}
				for k := range shared {
					shared[k] = "later"
				}
			}
			stat["reused"]++
		}
		if live && (err == nil) != ok {
			return Errf("op %d: recording with %v gave error %v", i, o.Muts, err)
		}
		if after := ctxString(ctx); after != before {
			return Errf("op %d: recording changed the context's tags from %s to %s", i, before, after)
		}
		if !ok {
			if live {
				stat["refused"]++
			}
			continue
		}
		for _, s := range o.Ss {
			_, name, v := handles(s)
			for _, x := range targets[which] {
				if x.m.m.name == name {
					x.m.add(tags, sample{v, start, att})
					stat["samples"]++
				}
			}
		}
		if len(o.Muts) > 0 && o.Call != "record" && live {
			stat["mutated"]++
		}
		if att != nil && live {
			stat["attached"]++
		}
	}
	for i, ts := range targets {
		for _, x := range ts {
			var rows []*view.Row
			var err error
			if i == 0 {
				rows, err = view.RetrieveData(x.v.Name)
			} else {
				rows, err = meter.RetrieveData(x.v.Name)
			}
			if err != nil {
				return err
			}
			for _, r := range rows { // real clock: only the range of times is known
				if err := settime(r.Data, start); err != nil {
					return err
				}
			}
			if err := x.m.rowsCheck(rows); err != nil {
				return Errf("recorder %d: %v", i, err)
			}
		}
	}
	for k, n := range stat {
		if n > 0 {
			cx.Class("%s", k)
		}
	}
	cx.NonTrivial(stat["mutated"]+stat["refused"]+stat["attached"] > 0)
	return nil
}

// settime checks the times of data against the range they must lie in and
// replaces them by t.
func settime(d view.AggregationData, t time.Time) error {
	now := time.Now()
	in := func(x time.Time) error {
		if x.Before(t) || x.After(now) {
			return Errf("time %v is outside the recording period %v - %v", x, t, now)
		}
		return nil
	}
	var err error
	switch x := d.(type) {
	case *view.CountData:
		err, x.Start = in(x.Start), t
	case *view.SumData:
		err, x.Start = in(x.Start), t
	case *view.DistributionData:
		err, x.Start = in(x.Start), t
		for i, e := range x.ExemplarsPerBucket {
			if e != nil {
				if err == nil {
					err = in(e.Timestamp)
				}
				n := *e
				n.Timestamp = t
				x.ExemplarsPerBucket[i] = &n
			}
		}
	}
	return err
}

func TestV09(t *testing.T) {
	Check(t, "V09", "record", Opts{Quick: 2500, Thorough: 40000,
		Rule: "1-12 calls of Record, RecordWithTags and RecordWithOptions in up to three tagged contexts, with up to four mutators (some invalid), up to 24 measurements of subscribed, unsubscribed and twice-made measures, attachments, and either recorder; non-trivial when a call mutates tags, is refused or carries attachments"},
		genV09, execV09)
}
