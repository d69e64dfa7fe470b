package metrics

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	mtest "go.opencensus.io/metric/test"
	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- M05 producer manager ----

type prod struct {
	id int
	n  atomic.Int64
}

func (p *prod) Read() []*metricdata.Metric {
	n := p.n.Add(1)
	var out []*metricdata.Metric
	for i := 0; i < p.id; i++ { // producer i gives i metrics
		out = append(out, &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: fmt.Sprintf("p%d.%d", p.id, i)},
			TimeSeries: []*metricdata.TimeSeries{{Points: []metricdata.Point{metricdata.NewInt64Point(time.Now(), n)}}}})
	}
	return out
}

type vprod struct{ id string }

func (p vprod) Read() []*metricdata.Metric { return nil }

// M05Case is a history of the global producer set.
type M05Case struct {
	Ops     []string // "+i" "-i" "+nil" "-nil" "get" "clobber"
	Workers [][]string
}

func genM05(t *rapid.T) M05Case {
	op := func(t *rapid.T) string {
		return Pick(t, "op", "+", "+", "-", "get", "clobber")
	}
	who := func(t *rapid.T) string { return Pick(t, "who", "0", "1", "2", "v1", "v2", "nil") }
	one := func(t *rapid.T) string {
		o := op(t)
		if o == "+" || o == "-" {
			return o + who(t)
		}
		return o
	}
	c := M05Case{Ops: Slice(t, "ops", 0, 20, one)}
	for i := 0; i < Int(t, "workers", 0, 4); i++ {
		c.Workers = append(c.Workers, Slice(t, "wops", 1, 8, one))
	}
	return c
}

func execM05(cx *Ctx, c M05Case) error {
	pm := metricproducer.GlobalManager()
	others := map[metricproducer.Producer]bool{}
	for _, p := range pm.GetAll() {
		others[p] = true
	}
	ps := map[string]func() metricproducer.Producer{}
	for _, i := range []int{0, 1, 2} {
		p := &prod{id: i}
		ps[fmt.Sprint(i)] = func() metricproducer.Producer { return p }
	}
	for _, v := range []string{"v1", "v2"} {
		ps[v] = func() metricproducer.Producer { return vprod{v} } // equal, made afresh each time
	}
	ps["nil"] = func() metricproducer.Producer { return nil }
	defer func() {
		for _, f := range ps {
			pm.DeleteProducer(f())
		}
	}()
	get := func() (map[metricproducer.Producer]bool, error) {
		out := map[metricproducer.Producer]bool{}
		for _, p := range pm.GetAll() {
			if p == nil {
				return nil, Errf("a nil producer is listed")
			}
			if out[p] {
				return nil, Errf("producer %v is listed twice", p)
			}
			if !others[p] {
				out[p] = true
			}
		}
		return out, nil
	}
	want := map[string]bool{}
	changes := 0
	for i, o := range c.Ops {
		switch o[0] {
		case '+':
			pm.AddProducer(ps[o[1:]]())
			want[o[1:]] = true
			changes++
		case '-':
			pm.DeleteProducer(ps[o[1:]]())
			delete(want, o[1:])
			changes++
		case 'c':
			l := pm.GetAll()
			for j := range l {
				l[j] = vprod{"intruder"}
			}
		}
		delete(want, "nil")
		got, err := get()
		if err != nil {
			return Errf("op %d: %v", i, err)
		}
		if len(got) != len(want) {
			return Errf("op %d (%s): %d producers, want %v", i, o, len(got), want)
		}
		for k := range want {
			if !got[ps[k]()] {
				return Errf("op %d (%s): producer %s is missing", i, o, k)
			}
		}
	}
	// concurrent phase: each goroutine's last word on a producer is decisive
	// where only it touched that producer
	touched := map[string]int{}
	final := map[string]bool{}
	var wg sync.WaitGroup
	var firstErr atomic.Value
	for w, ops := range c.Workers {
		for _, o := range ops {
			if o[0] == '+' || o[0] == '-' {
				if t, ok := touched[o[1:]]; ok && t != w {
					touched[o[1:]] = -1
				} else {
					touched[o[1:]] = w
				}
				final[o[1:]] = o[0] == '+'
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				switch o[0] {
				case '+':
					pm.AddProducer(ps[o[1:]]())
				case '-':
					pm.DeleteProducer(ps[o[1:]]())
				default:
					if _, err := get(); err != nil {
						firstErr.CompareAndSwap(nil, err)
					}
				}
			}
		}()
	}
	wg.Wait()
	if err, ok := firstErr.Load().(error); ok {
		return err
	}
	got, err := get()
	if err != nil {
		return err
	}
	for k, f := range ps {
		if k == "nil" {
			continue
		}
		w, ok := touched[k]
		if ok && w < 0 {
			continue
		}
		exp := want[k]
		if ok {
			exp = final[k]
		}
		if got[f()] != exp {
			return Errf("after the concurrent phase, producer %s listed=%v, want %v", k, got[f()], exp)
		}
	}
	cx.ClassIf(len(c.Workers) > 1, "concurrent")
	cx.NonTrivial(changes > 1)
	return nil
}

func TestM05(t *testing.T) {
	Check(t, "M05", "manager", Opts{Quick: 3000, Thorough: 40000,
		Rule: "histories of up to 20 additions, deletions (equal values, absent ones, nil) and clobbered listings, then up to four goroutines doing the same, under the race detector; non-trivial when the set is changed at least twice"},
		genM05, execM05)
}

// ---- M06 reader and interval reader ----

// M06Op is one step in the life of an interval reader.
type M06Op struct {
	Op string // start stop flush sleep interval add del read
	N  int
	D  int64
}

// M06Case is a history of one interval reader, or several workers of it.
type M06Case struct {
	Interval int64
	Name     bool
	Fails    bool
	Slow     int64 // yields during an export; 0 in the exact histories
	Others   bool  // leave the producers of the process there
	Ops      []M06Op
	Workers  [][]M06Op
}

func genM06(conc bool) func(t *rapid.T) M06Case {
	iv := func(t *rapid.T) int64 {
		return Pick[int64](t, "iv", 0, 1e9, 1e9, 15e8, 2e9, 60e9, 999999999, 1, -1e9, 5e8)
	}
	one := func(t *rapid.T) M06Op {
		o := M06Op{Op: Pick(t, "op", "start", "start", "stop", "flush", "sleep", "sleep", "sleep", "interval", "add", "del", "read"), N: Int(t, "n", 0, 3)}
		o.D = int64(Int(t, "d", 0, 300))*1e7 + 1
		if OneIn(t, "longd", 5) {
			o.D = int64(Int(t, "dd", 5000, 13000))*1e7 + 1
		}
		if o.Op == "interval" {
			o.D = iv(t)
		}
		return o
	}
	return func(t *rapid.T) M06Case {
		c := M06Case{Interval: iv(t), Name: Bool(t, "name"), Fails: Bool(t, "fails"), Others: OneIn(t, "others", 3)}
		if !conc {
			c.Ops = Slice(t, "ops", 1, 25, one)
			return c
		}
		c.Interval = Pick[int64](t, "iv", 1e9, 1e9, 15e8)
		c.Slow = Pick[int64](t, "slow", 0, 10, 300)
		n := Int(t, "workers", 1, 3)
		for i := 0; i < n; i++ {
			ops := Slice(t, "wops", 1, 8, one)
			for j := range ops {
				if ops[j].Op == "interval" || ops[j].Op == "read" {
					ops[j].Op = "sleep"
				}
				ops[j].D = int64(Int(t, "halves", 0, 7)) * 5e8 // meets the ticks
			}
			c.Workers = append(c.Workers, ops)
		}
		return c
	}
}

type exportRec struct {
	at   time.Time
	vals string
	kept []*metricdata.Metric // as handed over, and as it was then
	dump string
}

func jsonMetrics(data []*metricdata.Metric) string {
	b, _ := json.Marshal(data)
	return string(b)
}

type recExporter struct {
	mu       sync.Mutex
	recs     []exportRec
	inside   atomic.Int32
	overlaps atomic.Int32
	slow     int
	fails    bool
	span     string
	spanErr  error
	started  atomic.Int64
	ended    atomic.Int64
}

type spanReports interface {
	ReportActiveSpans(name string) []*trace.SpanData
}

func (e *recExporter) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	e.started.Add(1)
	if e.inside.Add(1) > 1 {
		e.overlaps.Add(1)
	}
	defer e.ended.Add(1)
	defer e.inside.Add(-1)
	var l []string
	for _, m := range data {
		if strings.HasPrefix(m.Descriptor.Name, "p") {
			l = append(l, fmt.Sprint(m.Descriptor.Name, "=", m.TimeSeries[0].Points[0].Value))
		}
	}
	sort.Strings(l)
	e.mu.Lock()
	e.recs = append(e.recs, exportRec{time.Now(), strings.Join(l, " "), data, jsonMetrics(data)})
	e.mu.Unlock()
	if e.span != "" {
		sp := trace.FromContext(ctx)
		act := internal.Trace.(spanReports).ReportActiveSpans(e.span)
		if sp == nil || len(act) != 1 || act[0].SpanContext.SpanID != sp.SpanContext().SpanID || act[0].ParentSpanID != (trace.SpanID{}) {
			e.spanErr = Errf("the export context does not carry an active root span named %s (%d active)", e.span, len(act))
		}
	}
	// Slow in real time: under the fake clock a sleep here could not pass while
	// another goroutine waits for a mutex.
	for i := 0; i < e.slow; i++ {
		runtime.Gosched()
	}
	if e.fails {
		return errors.New("exporter failure")
	}
	return nil
}

// unchanged checks that what was handed over before still is what it was.
func (e *recExporter) unchanged() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i, r := range e.recs {
		if now := jsonMetrics(r.kept); now != r.dump {
			return Errf("the metrics handed over by export %d changed afterwards\n from %s\n to   %s", i, r.dump, now)
		}
	}
	return nil
}

func execM06(cx *Ctx, c M06Case) error {
	internal.LocalSpanStoreEnabled = true
	pm := metricproducer.GlobalManager()
	return Bubble(cx, func() error {
		ps := []*prod{{id: 1}, {id: 2}, {id: 3}, {id: 0}}
		on := map[int]bool{}
		others := pm.GetAll() // sometimes there is no producer at all
		for _, p := range others {
			if !c.Others {
				pm.DeleteProducer(p)
			}
		}
		defer func() {
			for _, p := range ps {
				pm.DeleteProducer(p)
			}
			for _, p := range others {
				pm.AddProducer(p)
			}
		}()
		span := "ExportMetrics"
		var ro []metricexport.ReaderOption
		if c.Name {
			span = "custom-span"
			ro = append(ro, metricexport.WithSpanName(span))
		}
		reader := metricexport.NewReader(ro...)
		exp := &recExporter{fails: c.Fails, span: span}
		if _, err := metricexport.NewIntervalReader(nil, exp); err == nil {
			return Errf("a nil reader is accepted")
		}
		if _, err := metricexport.NewIntervalReader(reader, nil); err == nil {
			return Errf("a nil exporter is accepted")
		}
		var none *metricexport.IntervalReader
		if none.Start() == nil {
			return Errf("a nil interval reader starts")
		}
		none.Stop()
		ir, err := metricexport.NewIntervalReader(reader, exp)
		if err != nil {
			return err
		}
		ir.ReportingInterval = time.Duration(c.Interval)
		defer ir.Stop()
		var want []exportRec
		counts := map[int]int64{}
		expect := func(at time.Time) {
			var l []string
			for i := range on {
				p := ps[i]
				counts[i]++
				for k := 0; k < p.id; k++ {
					l = append(l, fmt.Sprintf("p%d.%d=%d", p.id, k, counts[i]))
				}
			}
			sort.Strings(l)
			want = append(want, exportRec{at: at, vals: strings.Join(l, " ")})
		}
		running := false
		var next time.Time
		var every time.Duration
		starts, ticks, flushes := 0, 0, 0
		for i, o := range c.Ops {
			switch o.Op {
			case "interval":
				if !running {
					ir.ReportingInterval = time.Duration(o.D)
				}
			case "start":
				iv := ir.ReportingInterval
				bad := iv != 0 && iv < time.Second
				err := ir.Start()
				if (err != nil) != (bad || running) {
					return Errf("op %d: Start with interval %v, running=%v: %v", i, iv, running, err)
				}
				if err == nil {
					running = true
					starts++
					every = iv
					if iv == 0 {
						every = time.Minute
					}
					next = time.Now().Add(every)
				}
			case "stop":
				ir.Stop()
				running = false
			case "flush":
				ir.Flush()
				if !running {
					expect(time.Now())
					flushes++
				}
			case "read":
				reader.ReadAndExport(exp)
				expect(time.Now())
			case "add":
				pm.AddProducer(ps[o.N])
				on[o.N] = true
			case "del":
				pm.DeleteProducer(ps[o.N])
				delete(on, o.N)
			case "sleep":
				end := time.Now().Add(time.Duration(o.D))
				for running && !next.After(end) {
					expect(next)
					ticks++
					next = next.Add(every)
				}
				time.Sleep(time.Duration(o.D))
				synctest.Wait()
			}
			exp.mu.Lock()
			recs := append([]exportRec(nil), exp.recs...)
			exp.mu.Unlock()
			if len(recs) != len(want) {
				return Errf("op %d (%s): %d exports so far, want %d", i, o.Op, len(recs), len(want))
			}
			for k, r := range recs {
				if !r.at.Equal(want[k].at) || r.vals != want[k].vals {
					return Errf("op %d (%s): export %d was %q at %v, want %q at %v", i, o.Op, k, r.vals, r.at, want[k].vals, want[k].at)
				}
			}
			if n := len(internal.Trace.(spanReports).ReportActiveSpans(span)); n != 0 {
				return Errf("op %d: %d export spans were never ended", i, n)
			}
		}
		if exp.spanErr != nil {
			return exp.spanErr
		}
		if err := exp.unchanged(); err != nil {
			return err
		}
		cx.ClassIf(starts > 1, "restarted")
		cx.ClassIf(flushes > 0, "flushed-while-stopped")
		cx.NonTrivial(ticks+flushes > 0)
		return nil
	})
}

func execM06Conc(cx *Ctx, c M06Case) error {
	internal.LocalSpanStoreEnabled = false
	pm := metricproducer.GlobalManager()
	return Bubble(cx, func() error {
		p := &prod{id: 1}
		pm.AddProducer(p)
		defer pm.DeleteProducer(p)
		exp := &recExporter{slow: int(c.Slow), fails: c.Fails}
		ir, err := metricexport.NewIntervalReader(metricexport.NewReader(), exp)
		if err != nil {
			return err
		}
		ir.ReportingInterval = time.Duration(c.Interval)
		began := time.Now()
		flushCalls := 0
		var wg sync.WaitGroup
		for _, ops := range c.Workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range ops {
					switch o.Op {
					case "start":
						ir.Start()
					case "stop":
						ir.Stop()
					case "flush":
						ir.Flush()
					case "sleep":
						time.Sleep(time.Duration(o.D))
					case "add":
						pm.AddProducer(p)
					case "del":
						pm.DeleteProducer(p)
					}
				}
			}()
			for _, o := range ops {
				if o.Op == "flush" {
					flushCalls++
				}
			}
		}
		wg.Wait()
		ir.Stop()
		if exp.inside.Load() != 0 || exp.started.Load() != exp.ended.Load() {
			return Errf("an export is still running after Stop returned")
		}
		n := exp.started.Load()
		max := int64(time.Since(began)/time.Duration(c.Interval)) + int64(flushCalls)
		if n > max {
			return Errf("%d exports in %v with interval %v and %d flushes", n, time.Since(began), time.Duration(c.Interval), flushCalls)
		}
		time.Sleep(10 * time.Second)
		synctest.Wait()
		if exp.started.Load() != n {
			return Errf("an export started after Stop returned")
		}
		if exp.overlaps.Load() != 0 {
			return Errf("two exports of one interval reader overlapped")
		}
		// it still works
		if err := ir.Start(); err != nil {
			return Errf("cannot restart: %v", err)
		}
		time.Sleep(time.Duration(c.Interval) + 1)
		synctest.Wait()
		ir.Stop()
		if exp.started.Load() != n+1 {
			return Errf("%d exports one interval after a restart, want 1", exp.started.Load()-n)
		}
		if err := exp.unchanged(); err != nil {
			return err
		}
		cx.ClassIf(c.Slow > 0, "slow-exporter")
		cx.ClassIf(len(c.Workers) > 1, "concurrent-lifecycle")
		cx.NonTrivial(n > 0)
		return nil
	})
}

func TestM06(t *testing.T) {
	Check(t, "M06", "interval", Opts{Quick: 2500, Thorough: 40000,
		Rule: "histories of up to 25 starts, stops, flushes, manual reads, interval changes (too low ones included), producer changes and pauses under a fake clock, the exporter failing in half of them; non-trivial when a periodic or flushed export happens"},
		genM06(false), execM06)
	Check(t, "M06", "lifecycle", Opts{Quick: 1500, Thorough: 20000,
		Rule: "1-3 goroutines starting, stopping and flushing one interval reader with an exporter that may be slow, calls coinciding with ticks, under the race detector and a fake clock; non-trivial when something is exported"},
		genM06(true), execM06Conc)
}

// ---- M07 the in-memory test exporter ----

// M07Case looks series up through the test exporter.
type M07Case struct {
	Keys   []S
	Series [][]LV
	Vals   []int
	Probes []map[string]S
}

func genM07(t *rapid.T) M07Case {
	keys := rapid.SliceOfNDistinct(rapid.SampledFrom([]S{"a", "b", "ab", "A", "B", "aB", "k", "key", "a\"", "x=", ""}), 1, 3, func(s S) S { return s }).Draw(t, "keys")
	val := func(t *rapid.T) LV {
		if OneIn(t, "no", 3) {
			return LV{No: true}
		}
		if Bool(t, "near") {
			return LV{V: Pick[S](t, "tricky", "", "b", "bx", "xb", "xby", "y", "x", "a", "kx", "\"", "x=")}
		}
		return LV{V: S(Printable(t, "v", 0, 4))}
	}
	c := M07Case{Keys: keys}
	n := Int(t, "n", 1, 6)
	for i := 0; i < n; i++ {
		var l []LV
		for range keys {
			l = append(l, val(t))
		}
		c.Series = append(c.Series, l)
		c.Vals = append(c.Vals, Int(t, "val", 1, 1000))
	}
	for i := 0; i < 3; i++ {
		p := map[string]S{}
		for _, k := range keys {
			if v := val(t); !v.No {
				p[string(k)] = v.V
			}
		}
		c.Probes = append(c.Probes, p)
	}
	return c
}

func labelSet(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func runTogether(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := ""
	for _, k := range ks {
		out += k + m[k]
	}
	return out
}

func execM07(cx *Ctx, c M07Case) error {
	r := metric.NewRegistry()
	pm := metricproducer.GlobalManager()
	pm.AddProducer(r)
	defer pm.DeleteProducer(r)
	var keys []string
	for _, k := range c.Keys {
		keys = append(keys, string(k))
	}
	g, err := r.AddInt64Gauge("verif/m07", metric.WithLabelKeys(keys...))
	if err != nil {
		return err
	}
	exp := mtest.NewExporter(metricexport.NewReader())
	want := map[string]int64{}
	probes := map[string]map[string]string{}
	for _, p := range c.Probes {
		m := map[string]string{}
		for k, v := range p {
			m[k] = string(v)
		}
		probes[labelSet(m)] = m
	}
	check := func(step int) error {
		exp.ReadAndExport()
		for id, m := range probes {
			p, ok := exp.GetPoint("verif/m07", m)
			w, exists := want[id]
			if ok != exists || ok && p.Value != w {
				// recorded finding: the exporter identifies a series by its keys and
				// values run together
				known := false
				for other := range want {
					known = known || ok && other != id && runTogether(probes[other]) == runTogether(m) && cx.Known("labels-run-together")
				}
				if known {
					continue
				}
			}
			if ok != exists {
				return Errf("step %d: labels %s found=%v, want %v", step, id, ok, exists)
			}
			if ok && p.Value != w {
				return Errf("step %d: labels %s = %v, want %d", step, id, p.Value, w)
			}
		}
		return nil
	}
	for i, s := range c.Series {
		e, err := g.GetEntry(mds(s)...)
		if err != nil {
			return err
		}
		e.Set(int64(c.Vals[i]))
		m := map[string]string{}
		for j, l := range s {
			if !l.No {
				m[keys[j]] = string(l.V)
			}
		}
		id := labelSet(m)
		want[id], probes[id] = int64(c.Vals[i]), m
		if i == 0 || i == len(c.Series)-1 {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	if _, ok := exp.GetPoint("verif/other", nil); ok {
		return Errf("a metric that does not exist is found")
	}
	cx.ClassIf(len(keys) > 1, "several-keys")
	for id := range want {
		ks := map[string]int{}
		for k := range probes[id] {
			ks[strings.ToLower(k)]++
		}
		for _, n := range ks {
			cx.ClassIf(n > 1, "keys-alike")
		}
	}
	cx.NonTrivial(len(want) > 1)
	return nil
}

func TestM07(t *testing.T) {
	Check(t, "M07", "lookup", Opts{Quick: 3000, Thorough: 40000,
		Rule: "gauges with up to three label keys and six series whose keys and values run into each other when concatenated, looked up by every label set; non-trivial when at least two series exist"},
		genM07, execM07)
}
