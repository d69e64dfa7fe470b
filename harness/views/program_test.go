package views

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- V08 "program": the package's own meter, which a program has one of ----

// V08Program is the life of a program: what it does with the package's meter
// and with one of its own before and after the package's is stopped.
type V08Program struct {
	Before  []V08POp
	Workers [][]V08POp // at work while it is stopped
	Stops   int
	After   []V08POp
}

// V08POp is a step on the package's meter or on the other one.
type V08POp struct {
	Op    string
	Other bool
	View  int
	Tag   int
}

func genV08Program(t *rapid.T) V08Program {
	op := func(t *rapid.T) V08POp {
		return V08POp{Op: Pick(t, "op", "rec", "rec", "rec", "reg", "reg", "unreg", "find", "get", "addexp", "delexp", "period", "sleep"), Other: Bool(t, "other"), View: Int(t, "view", 0, 2), Tag: Int(t, "tag", 0, 2)}
	}
	c := V08Program{Before: Slice(t, "before", 0, 16, op), Stops: Int(t, "stops", 1, 3), After: Slice(t, "after", 1, 16, op)}
	if Bool(t, "at-work") {
		c.Workers = Slice(t, "workers", 1, 3, func(t *rapid.T) []V08POp { return Slice(t, "ops", 1, 8, op) })
	}
	return c
}

const programEnv = "VERIF_VIEW_PROGRAM"

func TestMain(m *testing.M) {
	if s := os.Getenv(programEnv); s != "" {
		var c V08Program
		err := json.Unmarshal([]byte(s), &c)
		if err == nil {
			err = c.run()
		}
		if err != nil {
			fmt.Println("FAIL", err)
			os.Exit(3)
		}
		fmt.Println("DONE")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// meterOf is a meter as the package or a value.
type meterOf struct {
	register           func(...*view.View) error
	unregister         func(...*view.View)
	find               func(string) *view.View
	get                func(string) ([]*view.Row, error)
	addExp, delExp     func(view.Exporter)
	period             func(time.Duration)
	record             func(context.Context, ...stats.Measurement) error
	views              []*view.View
	has                [3]bool
	n                  [3]int64
	measure            *stats.Int64Measure
	exp                *programExp
	stopped, exporting bool
}

type programExp struct {
	calls atomic.Int64
	gone  atomic.Bool
	bad   atomic.Value
	own   map[*view.View]bool
}

func (x *programExp) ExportView(d *view.Data) {
	x.calls.Add(1)
	if x.gone.Load() {
		x.bad.CompareAndSwap(nil, "an export after the meter was stopped")
	}
	if !x.own[d.View] {
		x.bad.CompareAndSwap(nil, "an export of a view of another meter: "+d.View.Name)
	}
}

var programKey = tag.MustNewKey("k")

// do runs a step; exact tells that nobody else uses the meter.
func (m *meterOf) do(o V08POp, exact bool) error {
	v := m.views[o.View]
	switch o.Op {
	case "rec":
		ctx := context.Background()
		if o.Tag > 0 {
			ctx, _ = tag.New(ctx, tag.Upsert(programKey, fmt.Sprint(o.Tag)))
		}
		if err := m.record(ctx, m.measure.M(1)); err != nil {
			return Errf("recording fails: %v", err)
		}
		if exact && !m.stopped {
			for i := range m.has {
				if m.has[i] {
					m.n[i]++
				}
			}
		}
	case "reg":
		err := m.register(v)
		if exact && m.stopped != (err != nil) {
			return Errf("Register: %v, stopped: %v", err, m.stopped)
		}
		m.has[o.View] = !m.stopped
	case "unreg":
		m.unregister(v)
		m.has[o.View], m.n[o.View] = false, 0
	case "find":
		if got := m.find(v.Name); exact && (got != nil) != (m.has[o.View] && !m.stopped) {
			return Errf("Find(%s) is %v, stopped: %v", v.Name, got, m.stopped)
		} else if got != nil && got != v {
			return Errf("Find(%s) is a view of another meter", v.Name)
		}
	case "get":
		rows, err := m.get(v.Name)
		if !exact {
			return nil
		}
		if (err == nil) != (m.has[o.View] && !m.stopped) {
			return Errf("RetrieveData(%s): %v, stopped: %v", v.Name, err, m.stopped)
		}
		n := int64(0)
		for _, r := range rows {
			n += count(r.Data)
		}
		if err == nil && n != m.n[o.View] {
			return Errf("RetrieveData(%s) has %d samples, want %d", v.Name, n, m.n[o.View])
		}
	case "addexp":
		m.addExp(m.exp)
		m.exporting = true
	case "delexp":
		m.delExp(m.exp)
		m.exporting = false
	case "period":
		m.period(2 * time.Millisecond)
	case "sleep":
		time.Sleep(5 * time.Millisecond)
	}
	return nil
}

// run is the program.
func (c V08Program) run() error {
	log.SetOutput(io.Discard)
	other := view.NewMeter()
	other.Start()
	other.Find("") // it has started
	own := &meterOf{register: view.Register, unregister: view.Unregister, find: view.Find, get: view.RetrieveData, addExp: view.RegisterExporter, delExp: view.UnregisterExporter, period: view.SetReportingPeriod, record: func(ctx context.Context, ms ...stats.Measurement) error {
		stats.Record(ctx, ms...)
		return nil
	}}
	far := &meterOf{register: other.Register, unregister: other.Unregister, find: other.Find, get: other.RetrieveData, addExp: other.RegisterExporter, delExp: other.UnregisterExporter, period: other.SetReportingPeriod, record: func(ctx context.Context, ms ...stats.Measurement) error {
		return stats.RecordWithOptions(ctx, stats.WithRecorder(other), stats.WithMeasurements(ms...))
	}}
	measure := stats.Int64("program", "", "1")
	for _, m := range []*meterOf{own, far} {
		m.measure, m.exp = measure, &programExp{own: map[*view.View]bool{}}
		for i, a := range []*view.Aggregation{view.Count(), view.Sum(), view.Distribution(1, 2)} {
			v := &view.View{Name: fmt.Sprint("program", i), Measure: measure, Aggregation: a, TagKeys: []tag.Key{programKey}}
			m.views = append(m.views, v)
			m.exp.own[v] = true
		}
	}
	at := func(o V08POp) *meterOf {
		if o.Other {
			return far
		}
		return own
	}
	step := func(what string, ops []V08POp) error {
		for i, o := range ops {
			if err := at(o).do(o, true); err != nil {
				return Errf("%s, step %d (%+v): %v", what, i, o, err)
			}
		}
		return nil
	}
	if err := step("before", c.Before); err != nil {
		return err
	}
	var wg sync.WaitGroup
	for _, ops := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := *own // does not count
			for _, o := range ops {
				mine.do(o, false)
			}
		}()
	}
	for range c.Stops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			view.Stop()
			own.exp.gone.Store(true)
		}()
	}
	wg.Wait()
	own.stopped = true
	if n := len(metricproducer.GlobalManager().GetAll()); n != 1 {
		return Errf("%d producers after the package's meter was stopped, want that of the other one", n)
	}
	if err := step("after", c.After); err != nil {
		return err
	}
	for range 3000 { // more than any queue holds
		stats.Record(context.Background(), measure.M(1))
	}
	for i := range 3 {
		for _, o := range []string{"find", "get"} {
			for _, other := range []bool{false, true} {
				if err := step("at last", []V08POp{{Op: o, View: i, Other: other}}); err != nil {
					return err
				}
			}
		}
	}
	// the other meter still exports
	far.do(V08POp{Op: "addexp"}, true)
	far.do(V08POp{Op: "reg"}, true)
	far.do(V08POp{Op: "period"}, true)
	for was, end := far.exp.calls.Load(), time.Now().Add(20*time.Second); far.exp.calls.Load() < was+2; time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			return Errf("the other meter does not export any more")
		}
	}
	other.Stop()
	if n := len(metricproducer.GlobalManager().GetAll()); n != 0 {
		return Errf("%d producers after both meters were stopped", n)
	}
	for _, m := range []*meterOf{own, far} {
		if b := m.exp.bad.Load(); b != nil {
			return Errf("%v", b)
		}
	}
	return nil
}

func execV08Program(cx *Ctx, c V08Program) error {
	b, err := json.Marshal(c)
	if err != nil {
		return err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0])
	cmd.Env = append(os.Environ(), programEnv+"="+string(b), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	if ctx.Err() != nil {
		return Errf("the program hangs")
	}
	if err != nil || !bytes.Contains(out.Bytes(), []byte("DONE")) {
		s := out.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return Errf("the program ends with %v: %s", err, s)
	}
	cx.ClassIf(len(c.Workers) > 0, "at-work")
	cx.NonTrivial(len(c.Before)+len(c.Workers) > 0)
	return nil
}
