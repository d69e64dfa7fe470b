package obs

import (
	"fmt"
	"reflect"

	"go.opencensus.io/stats/view"
)

// Doc is what a predefined view is documented to hold: under which name, of
// which measure, how aggregated and by which tags.
type Doc struct {
	View    *view.View
	Name    string
	Measure string
	Agg     string // "count", "bytes", "messages", "ms" or "fine ms"
	Tags    []string
}

// Sizes, and the bounds of the distributions.
var (
	Sizes = []float64{1 << 10, 2 << 10, 4 << 10, 16 << 10, 64 << 10, 256 << 10, 1 << 20, 4 << 20, 16 << 20, 64 << 20, 256 << 20, 1 << 30, 4 << 30}
	// latencies of HTTP requests; those of RPCs have finer ones before
	Latencies = []float64{1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 40, 50, 65, 80, 100, 130, 160, 200, 250, 300, 400, 500, 650, 800, 1000, 2000, 5000, 10000, 20000, 50000, 100000}
	Fine      = append([]float64{0.01, 0.05, 0.1, 0.3, 0.6, 0.8}, Latencies...)
	Messages  = []float64{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
)

// CheckDocs compares views with their documentation.
func CheckDocs(l []Doc) error {
	seen := map[string]bool{}
	for _, d := range l {
		v := d.View
		if v.Name != d.Name || v.Measure.Name() != d.Measure {
			return fmt.Errorf("view %q is of %q, want %q of %q", v.Name, v.Measure.Name(), d.Name, d.Measure)
		}
		if seen[v.Name] {
			return fmt.Errorf("two views %q", v.Name)
		}
		seen[v.Name] = true
		var tags []string
		for _, k := range v.TagKeys {
			tags = append(tags, k.Name())
		}
		have, want := map[string]bool{}, map[string]bool{}
		for _, t := range tags {
			have[t] = true
		}
		for _, t := range d.Tags {
			want[t] = true
		}
		if len(tags) != len(d.Tags) || !reflect.DeepEqual(have, want) {
			return fmt.Errorf("view %q is by %v, want %v", v.Name, tags, d.Tags)
		}
		a := v.Aggregation
		typ, unit, bounds := view.AggTypeDistribution, "1", []float64(nil)
		switch d.Agg {
		case "count":
			typ, unit = view.AggTypeCount, v.Measure.Unit()
		case "bytes":
			unit, bounds = "By", Sizes
		case "messages":
			bounds = Messages
		case "ms":
			unit, bounds = "ms", Latencies
		case "fine ms":
			unit, bounds = "ms", Fine
		}
		if a.Type != typ || v.Measure.Unit() != unit || typ == view.AggTypeDistribution && (len(a.Buckets) < 2 || !reflect.DeepEqual(a.Buckets, bounds)) {
			return fmt.Errorf("view %q aggregates %v %v in %q, want %v", v.Name, a.Type, a.Buckets, v.Measure.Unit(), d.Agg)
		}
		for i := 1; i < len(a.Buckets); i++ {
			if a.Buckets[i] <= a.Buckets[i-1] {
				return fmt.Errorf("view %q has bounds %v", v.Name, a.Buckets)
			}
		}
	}
	return nil
}
