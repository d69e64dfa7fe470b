// Package misc checks the small plugins and helpers.
package misc

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ROp is one step.
type ROp struct {
	Op      string // enable, disable, read, old, gc, alloc, go
	CPU     bool
	Mem     bool
	Cum     bool
	Prefix  S
	N       int
	Through string // how to read: manager, reader
}

// RCase is a history of one process.
type RCase struct{ Ops []ROp }

func genROp(t *rapid.T) ROp {
	op := ROp{Op: Pick(t, "op", "enable", "enable", "enable", "disable", "read", "read", "read", "old", "gc", "alloc", "go")}
	switch op.Op {
	case "enable":
		op.CPU, op.Mem, op.Cum = Bool(t, "cpu"), Bool(t, "mem"), Bool(t, "cum")
		op.Prefix = Pick[S](t, "prefix", "", "", "p_", "process/", "é/", "x/y/", "\xff")
	case "read":
		op.Through = Pick(t, "through", "manager", "reader")
	case "alloc":
		op.N = Pick(t, "n", 1, 1000, 1<<20, 20<<20)
	case "go":
		op.N = Int(t, "n", 0, 20)
	}
	return op
}

func genRun(t *rapid.T) RCase { return RCase{Slice(t, "ops", 1, 12, genROp)} }

// field is what a metric reports.
type field struct {
	unit metricdata.Unit
	kind string // g: gauge of integers, f: of floats, c: cumulative if asked for
	get  func(*sample) float64
}

// sample is the state of the runtime.
type sample struct {
	runtime.MemStats
	goroutines int
	cgo        int64
}

func look() *sample {
	s := &sample{}
	runtime.ReadMemStats(&s.MemStats)
	s.goroutines, s.cgo = runtime.NumGoroutine(), runtime.NumCgoCall()
	return s
}

func i64(u uint64) float64 { return float64(int64(u)) }

var memory = map[string]field{
	"memory_alloc":               {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.Alloc) }},
	"total_memory_alloc":         {metricdata.UnitBytes, "c", func(s *sample) float64 { return i64(s.TotalAlloc) }},
	"sys_memory_alloc":           {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.Sys) }},
	"memory_lookups":             {metricdata.UnitDimensionless, "c", func(s *sample) float64 { return i64(s.Lookups) }},
	"memory_malloc":              {metricdata.UnitDimensionless, "c", func(s *sample) float64 { return i64(s.Mallocs) }},
	"memory_frees":               {metricdata.UnitDimensionless, "c", func(s *sample) float64 { return i64(s.Frees) }},
	"heap_alloc":                 {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.HeapAlloc) }},
	"sys_heap":                   {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.HeapSys) }},
	"heap_idle":                  {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.HeapIdle) }},
	"heap_inuse":                 {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.HeapInuse) }},
	"heap_objects":               {metricdata.UnitDimensionless, "g", func(s *sample) float64 { return i64(s.HeapObjects) }},
	"heap_release":               {metricdata.UnitBytes, "c", func(s *sample) float64 { return i64(s.HeapReleased) }},
	"stack_inuse":                {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.StackInuse) }},
	"sys_stack":                  {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.StackSys) }},
	"stack_mspan_inuse":          {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.MSpanInuse) }},
	"sys_stack_mspan":            {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.MSpanSys) }},
	"stack_mcache_inuse":         {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.MCacheInuse) }},
	"sys_stack_mcache":           {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.MCacheSys) }},
	"gc_sys":                     {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.GCSys) }},
	"other_sys":                  {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.OtherSys) }},
	"num_gc":                     {metricdata.UnitDimensionless, "c", func(s *sample) float64 { return float64(s.NumGC) }},
	"num_forced_gc":              {metricdata.UnitDimensionless, "c", func(s *sample) float64 { return float64(s.NumForcedGC) }},
	"next_gc_heap_size":          {metricdata.UnitBytes, "g", func(s *sample) float64 { return i64(s.NextGC) }},
	"last_gc_finished_timestamp": {metricdata.UnitMilliseconds, "g", func(s *sample) float64 { return float64(s.LastGC / 1e6) }},
	"pause_total":                {metricdata.UnitMilliseconds, "c", func(s *sample) float64 { return float64(s.PauseTotalNs / 1e6) }},
	"gc_cpu_fraction":            {metricdata.UnitDimensionless, "f", func(s *sample) float64 { return s.GCCPUFraction }},
}

var cpu = map[string]field{
	"cpu_goroutines": {metricdata.UnitDimensionless, "g", func(s *sample) float64 { return float64(s.goroutines) }},
	"cpu_cgo_calls":  {metricdata.UnitDimensionless, "g", func(s *sample) float64 { return float64(s.cgo) }},
}

// fields are those that are to be reported.
func (op ROp) fields() map[string]field {
	m := map[string]field{}
	if op.Mem {
		for k, f := range memory {
			m[string(op.Prefix)+"process/"+k] = f
		}
	}
	if op.CPU {
		for k, f := range cpu {
			m[string(op.Prefix)+"process/"+k] = f
		}
	}
	return m
}

// shape compares everything but the values.
func (op ROp) shape(ms []*metricdata.Metric, t0, t1 time.Time) (map[string]float64, error) {
	want := op.fields()
	got := map[string]float64{}
	for _, m := range ms {
		d := m.Descriptor
		f, ok := want[d.Name]
		if !ok {
			return nil, Errf("%q is reported with %+v", d.Name, op)
		}
		if _, ok := got[d.Name]; ok {
			return nil, Errf("%q is reported twice", d.Name)
		}
		typ := metricdata.TypeGaugeInt64
		switch {
		case f.kind == "f":
			typ = metricdata.TypeGaugeFloat64
		case f.kind == "c" && op.Cum:
			typ = metricdata.TypeCumulativeInt64
		}
		if d.Type != typ || d.Unit != f.unit || d.Description == "" || len(d.LabelKeys) != 0 {
			return nil, Errf("descriptor of %q with %+v: %+v", d.Name, op, d)
		}
		if len(m.TimeSeries) != 1 || len(m.TimeSeries[0].Points) != 1 || len(m.TimeSeries[0].LabelValues) != 0 {
			return nil, Errf("%q has no single point: %+v", d.Name, m.TimeSeries)
		}
		p := m.TimeSeries[0].Points[0]
		if p.Time.Before(t0) || p.Time.After(t1) {
			return nil, Errf("%q was read at %v, its point is of %v", d.Name, t0, p.Time)
		}
		switch v := p.Value.(type) {
		case int64:
			if f.kind == "f" {
				return nil, Errf("%q is a %T", d.Name, v)
			}
			got[d.Name] = float64(v)
		case float64:
			if f.kind != "f" {
				return nil, Errf("%q is a %T", d.Name, v)
			}
			got[d.Name] = v
		default:
			return nil, Errf("%q is a %T", d.Name, v)
		}
	}
	if len(got) != len(want) {
		var lacks []string
		for k := range want {
			if _, ok := got[k]; !ok {
				lacks = append(lacks, k)
			}
		}
		sort.Strings(lacks)
		return nil, Errf("with %+v these are not reported: %s", op, strings.Join(lacks, ", "))
	}
	return got, nil
}

// pass is an exporter that keeps what it gets.
type pass struct{ ms []*metricdata.Metric }

func (p *pass) ExportMetrics(_ context.Context, ms []*metricdata.Metric) error {
	p.ms = append(p.ms, ms...)
	return nil
}

// values compares what is read with the runtime before and after: each must
// be between. As some go up and down, one is wrong only if it keeps on being
// wrong.
func (op ROp) values(read func() []*metricdata.Metric) error {
	var err error
	wrong := map[string]int{}
	const tries = 12
	for i := range tries {
		t0 := time.Now()
		a := look()
		ms := read()
		b := look()
		var got map[string]float64
		if got, err = op.shape(ms, t0, time.Now()); err != nil {
			return err
		}
		ok := true
		for k, f := range op.fields() {
			lo, hi := f.get(a), f.get(b)
			if lo > hi {
				lo, hi = hi, lo
			}
			if v := got[k]; v < lo || v > hi {
				ok = false
				if wrong[k]++; wrong[k] == tries {
					return Errf("%q is %v with %+v, the runtime says %v to %v", k, v, op, lo, hi)
				}
			}
		}
		if ok {
			return nil
		}
		_ = i
		time.Sleep(time.Millisecond)
	}
	return nil
}

var sink []byte

// ours are the producers that were not there before.
func ours(base map[metricproducer.Producer]bool) []metricproducer.Producer {
	var out []metricproducer.Producer
	for _, p := range metricproducer.GlobalManager().GetAll() {
		if !base[p] {
			out = append(out, p)
		}
	}
	return out
}

func baseline() map[metricproducer.Producer]bool {
	runmetrics.Disable()
	base := map[metricproducer.Producer]bool{}
	for _, p := range metricproducer.GlobalManager().GetAll() {
		base[p] = true
	}
	return base
}

func execRun(cx *Ctx, c RCase) error {
	base := baseline()
	defer runmetrics.Disable()
	var cur *ROp
	var (
		olds []metricproducer.Producer
		last metricproducer.Producer
		kept []string
		was  [][]*metricdata.Metric
	)
	wait := make(chan struct{})
	var wg sync.WaitGroup
	defer func() { close(wait); wg.Wait() }()
	for i, op := range c.Ops {
		switch op.Op {
		case "enable":
			if err := runmetrics.Enable(runmetrics.RunMetricOptions{EnableCPU: op.CPU, EnableMemory: op.Mem, UseDerivedCumulative: op.Cum, Prefix: string(op.Prefix)}); err != nil {
				return Errf("op %d: Enable: %v", i, err)
			}
			if cur != nil {
				olds = append(olds, last)
				cx.Class("replaced")
			}
			cur = &op
			ps := ours(base)
			if len(ps) != 1 {
				return Errf("op %d: %d producers after Enable", i, len(ps))
			}
			if ps[0] == last {
				return Errf("op %d: Enable left the producer as it was", i)
			}
			last = ps[0]
		case "disable":
			runmetrics.Disable()
			if cur != nil {
				olds = append(olds, last)
				cx.Class("disabled")
			}
			cur = nil
		case "read":
			if cur == nil {
				continue
			}
			read := func() []*metricdata.Metric { return ours(base)[0].Read() }
			if op.Through == "reader" {
				if len(base) > 0 {
					continue
				}
				read = func() []*metricdata.Metric {
					p := &pass{}
					metricexport.NewReader().ReadAndExport(p)
					return p.ms
				}
			}
			if err := cur.values(read); err != nil {
				return Errf("op %d: %v", i, err)
			}
			ms := read()
			j, _ := json.Marshal(ms)
			kept, was = append(kept, string(j)), append(was, ms)
			cx.ClassIf(cur.Mem && cur.Cum, "cumulative")
			cx.ClassIf(cur.Mem && !cur.Cum, "gauges")
			cx.ClassIf(cur.CPU, "cpu")
			cx.NonTrivial(cur.CPU || cur.Mem)
		case "old":
			// a reader may have got it before
			if len(olds) > 0 {
				olds[len(olds)-1].Read()
				cx.Class("old")
			}
		case "gc":
			runtime.GC()
		case "alloc":
			sink = make([]byte, op.N)
		case "go":
			for range op.N {
				wg.Add(1)
				go func() { defer wg.Done(); <-wait }()
			}
		}
		n := 0
		if cur != nil {
			n = 1
		}
		if ps := ours(base); len(ps) != n || n == 1 && ps[0] != last {
			return Errf("op %d %s: %d producers, want %d", i, op.Op, len(ps), n)
		}
	}
	for i, ms := range was {
		if j, _ := json.Marshal(ms); string(j) != kept[i] {
			return Errf("what was read changed later")
		}
	}
	return nil
}

// RConc is a set of goroutines that switch the metrics and read them.
type RConc struct {
	Switchers [][]ROp
	Readers   int
	Reads     int
	Last      ROp
}

func genRunConc(t *rapid.T) RConc {
	sw := func(t *rapid.T) ROp {
		op := ROp{Op: Pick(t, "op", "enable", "enable", "disable"), CPU: Bool(t, "cpu"), Mem: Bool(t, "mem"), Cum: Bool(t, "cum")}
		return op
	}
	last := sw(t)
	last.Op = Pick(t, "last", "enable", "enable", "enable", "disable")
	return RConc{
		Switchers: Slice(t, "switchers", 0, 3, func(t *rapid.T) []ROp { return Slice(t, "ops", 1, 5, sw) }),
		Readers:   Int(t, "readers", 2, 4), Reads: Int(t, "reads", 1, 6), Last: last,
	}
}

func apply(op ROp) error {
	if op.Op == "disable" {
		runmetrics.Disable()
		return nil
	}
	return runmetrics.Enable(runmetrics.RunMetricOptions{EnableCPU: op.CPU, EnableMemory: op.Mem, UseDerivedCumulative: op.Cum, Prefix: string(op.Prefix)})
}

func execRunConc(cx *Ctx, c RConc) error {
	base := baseline()
	defer runmetrics.Disable()
	errs := make(chan error, 64)
	// first all read one producer, then they read while it is switched
	if err := apply(ROp{Op: "enable", CPU: c.Last.CPU, Mem: true, Cum: c.Last.Cum}); err != nil {
		return err
	}
	for _, switching := range []bool{false, true} {
		var wg sync.WaitGroup
		start := make(chan struct{})
		if switching {
			for _, ops := range c.Switchers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, op := range ops {
						if err := apply(op); err != nil {
							errs <- err
							return
						}
					}
				}()
			}
		}
		for range c.Readers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				last := map[string]int64{}
				for range c.Reads {
					ps := ours(base)
					if len(ps) > 1 {
						errs <- Errf("%d producers at once", len(ps))
						return
					}
					for _, p := range ps {
						for _, m := range p.Read() {
							if len(m.TimeSeries) != 1 || len(m.TimeSeries[0].Points) != 1 {
								errs <- Errf("%q has no single point", m.Descriptor.Name)
								return
							}
							n := m.Descriptor.Name
							switch strings.TrimPrefix(n, "process/") {
							case "total_memory_alloc", "memory_malloc", "memory_frees", "num_gc", "pause_total":
								v := m.TimeSeries[0].Points[0].Value.(int64)
								if v < last[n] {
									errs <- Errf("%s went from %d to %d", n, last[n], v)
									return
								}
								last[n] = v
							}
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}
	}
	if err := apply(c.Last); err != nil {
		return err
	}
	n := 1
	if c.Last.Op == "disable" {
		n = 0
	}
	ps := ours(base)
	if len(ps) != n {
		return Errf("%d producers at the end, want %d", len(ps), n)
	}
	cx.NonTrivial(len(c.Switchers) > 0 && c.Reads > 1)
	cx.ClassIf(c.Last.Cum, "cumulative")
	if n == 1 {
		return c.Last.values(ps[0].Read)
	}
	return nil
}

func TestX01(t *testing.T) {
	Check(t, "X01", "history", Opts{Quick: 12000, Thorough: 200000,
		Rule: fmt.Sprintf("histories of up to 12 Enable (any options), Disable, reads, garbage collections, allocations and goroutines; each of the %d metrics is compared with the runtime just before and after; non-trivial with a read of enabled metrics", len(memory)+len(cpu))},
		genRun, execRun)
}

func TestX02(t *testing.T) {
	Check(t, "X02", "concurrent", Opts{Quick: 3000, Thorough: 60000,
		Rule: "2-4 readers of one producer, then while up to three goroutines enable and disable; race detector; non-trivial with a switcher and several reads"},
		genRunConc, execRunConc)
}
