// Package obs holds what the HTTP and gRPC checks share: a model of views over
// expected measurements, and a collector of exported spans.
package obs

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
)

// Meas is one expected measurement.
type Meas struct {
	Name string
	V    float64
	Any  bool    // the value is only known to lie in [V, Max]
	Max  float64 // with Any
	Tags map[string]string
}

// Probe is a view over a measure with the given keys and no buckets.
func Probe(prefix string, m stats.Measure, keys ...tag.Key) *view.View {
	return &view.View{Name: prefix + m.Name(), Measure: m, Aggregation: view.Distribution(), TagKeys: append([]tag.Key(nil), keys...)}
}

// Reset empties the views.
func Reset(vs []*view.View) error {
	view.Unregister(vs...)
	return view.Register(vs...)
}

type agg struct {
	n        int64
	lo, hi   float64 // range of the sum
	min, max float64 // range of the values
	buckets  []int64
	exact    bool
}

// Check compares the rows of a view with the expected measurements.
func Check(v *view.View, exp []Meas) error {
	rows, err := view.RetrieveData(v.Name)
	if err != nil {
		return err
	}
	want := map[string]*agg{}
	for _, m := range exp {
		if m.Name != v.Measure.Name() {
			continue
		}
		k := key(v, m.Tags)
		a := want[k]
		if a == nil {
			a = &agg{exact: true, min: math.Inf(1), max: math.Inf(-1), buckets: make([]int64, len(v.Aggregation.Buckets)+1)}
			want[k] = a
		}
		a.n++
		hi := m.V
		if m.Any {
			a.exact, hi = false, m.Max
		}
		a.lo, a.hi = a.lo+m.V, a.hi+hi
		a.min, a.max = math.Min(a.min, m.V), math.Max(a.max, hi)
		a.buckets[sort.Search(len(v.Aggregation.Buckets), func(i int) bool { return m.V < v.Aggregation.Buckets[i] })]++
	}
	var have []string
	for _, r := range rows {
		have = append(have, rowKey(r))
	}
	for _, r := range rows {
		k := rowKey(r)
		w := want[k]
		if w == nil {
			return fmt.Errorf("view %s has an unexpected or repeated row {%s}; rows %v, want %v", v.Name, k, have, keys(want))
		}
		delete(want, k)
		switch d := r.Data.(type) {
		case *view.CountData:
			if d.Value != w.n {
				return fmt.Errorf("view %s{%s} counts %d, want %d", v.Name, k, d.Value, w.n)
			}
		case *view.DistributionData:
			if d.Count != w.n {
				return fmt.Errorf("view %s{%s} counts %d, want %d", v.Name, k, d.Count, w.n)
			}
			if s := d.Sum(); s < w.lo-1e-6*(1+math.Abs(w.lo)) || s > w.hi+1e-6*(1+math.Abs(w.hi)) || d.Min < w.min || d.Max > w.max {
				return fmt.Errorf("view %s{%s} sums to %v with values in %v..%v, want a sum of %v..%v and values in %v..%v", v.Name, k, d.Sum(), d.Min, d.Max, w.lo, w.hi, w.min, w.max)
			}
			if w.exact && (d.Min != w.min || d.Max != w.max || fmt.Sprint(d.CountPerBucket) != fmt.Sprint(w.buckets)) {
				return fmt.Errorf("view %s{%s} has values in %v..%v, buckets %v, want %v..%v %v", v.Name, k, d.Min, d.Max, d.CountPerBucket, w.min, w.max, w.buckets)
			}
		default:
			return fmt.Errorf("view %s: unexpected data %T", v.Name, r.Data)
		}
	}
	for k := range want {
		return fmt.Errorf("view %s misses the row {%s}; rows %v", v.Name, k, have)
	}
	return nil
}

func keys(m map[string]*agg) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// CheckAll checks all the views.
func CheckAll(vs []*view.View, exp []Meas) error {
	for _, v := range vs {
		if err := Check(v, exp); err != nil {
			return err
		}
	}
	return nil
}

func key(v *view.View, tags map[string]string) string {
	var l []string
	for _, k := range v.TagKeys {
		if x := tags[k.Name()]; x != "" {
			l = append(l, fmt.Sprintf("%s=%q", k.Name(), x))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func rowKey(r *view.Row) string {
	var l []string
	for _, t := range r.Tags {
		l = append(l, fmt.Sprintf("%s=%q", t.Key.Name(), t.Value))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// Valid reports whether s can be a tag value.
func Valid(s string) bool {
	if len(s) > 255 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

// Spans collects exported spans.
type Spans struct {
	mu sync.Mutex
	l  []*trace.SpanData
}

// ExportSpan implements trace.Exporter.
func (s *Spans) ExportSpan(d *trace.SpanData) {
	s.mu.Lock()
	s.l = append(s.l, d)
	s.mu.Unlock()
}

// Take returns the spans and forgets them.
func (s *Spans) Take() []*trace.SpanData {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.l
	s.l = nil
	return l
}

// Len is the number of spans collected.
func (s *Spans) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.l)
}
