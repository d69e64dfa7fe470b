package views

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// V10Samp is one recording: a value in quarters, under two tags.
type V10Samp struct {
	K1, K2 int
	K3     int `json:",omitempty"` // under a view of four tags
	V      int
}

// V10Case is two meters with much the same recordings.
type V10Case struct {
	Agg    [2]string
	Bounds []F
	Ss     [2][]V10Samp
	Fewer  bool // the second has no last bound
	More   bool `json:",omitempty"` // four tag keys instead of two
}

var v10M1, v10M2 = tag.MustNewKey("m1"), tag.MustNewKey("m2")

func genV10Samp(t *rapid.T) V10Samp {
	return V10Samp{K1: Int(t, "k1", 0, 2), K2: Int(t, "k2", 0, 1), K3: Pick(t, "k3", 0, 1, 1, 2), V: Int(t, "v", -4, 24)}
}

func genV10(t *rapid.T) V10Case {
	c := V10Case{Bounds: Slice(t, "bounds", 0, 4, func(t *rapid.T) F { return F(Pick(t, "bound", 0.5, 1.0, 2, 3, 4.25, 6)) })}
	sort.Slice(c.Bounds, func(i, j int) bool { return c.Bounds[i] < c.Bounds[j] })
	a := Pick(t, "agg", "count", "sum", "last", "dist", "dist", "dist")
	c.Agg = [2]string{a, a}
	if OneIn(t, "other", 8) {
		c.Agg[1] = Pick(t, "agg2", "count", "sum", "last", "dist")
	}
	c.Ss[0] = Slice(t, "samples", 1, 12, genV10Samp)
	b := append([]V10Samp(nil), c.Ss[0]...)
	for n := Int(t, "edits", 0, 3); n > 0; n-- {
		i, j := Int(t, "at", 0, 11)%len(b), Int(t, "at2", 0, 11)%len(b)
		switch Int(t, "edit", 0, 5) {
		case 0:
			b[i].V += Pick(t, "by", 1, -1, 4)
		case 1:
			b[i], b[j] = b[j], b[i]
		case 2:
			b[i].V, b[j].V = b[j].V, b[i].V
		case 3: // the same sum
			b[i].V++
			b[j].V--
		case 4:
			b = append(b, genV10Samp(t))
		case 5:
			b[i].K1, b[i].K2, b[i].K3 = Int(t, "k1", 0, 2), Int(t, "k2", 0, 1), Int(t, "k3", 0, 2)
		}
	}
	if OneIn(t, "moments", 3) {
		// other samples with the same count, sum, squares and extremes
		k := genV10Samp(t)
		for i, v := range []int{-4, 24, 0, 3, 3} {
			w := []int{-4, 24, 1, 1, 4}[i]
			c.Ss[0] = append(c.Ss[0], V10Samp{k.K1, k.K2, k.K3, v})
			b = append(b, V10Samp{k.K1, k.K2, k.K3, w})
		}
	}
	if OneIn(t, "mirror", 6) {
		// mirrored samples: the same count, sum, squares and range, other extremes
		k := genV10Samp(t)
		for i, v := range []int{-4, -4, 38} {
			c.Ss[0] = append(c.Ss[0], V10Samp{k.K1, k.K2, k.K3, v})
			b = append(b, V10Samp{k.K1, k.K2, k.K3, []int{24, 24, -18}[i]})
		}
		if Bool(t, "boundless") {
			c.Bounds = nil
		}
	}
	c.More = OneIn(t, "more", 3)
	c.Fewer = len(c.Bounds) > 0 && OneIn(t, "fewer", 6)
	c.Ss[1] = b
	return c
}

// v10Row is what a row is known to hold: sums are of quarters and exact.
type v10Row struct {
	agg                     string
	tags                    string
	start                   time.Time
	n, sum, sq, lo, hi, end int
	buckets                 string
}

func (r v10Row) same(o v10Row) bool {
	if r.agg != o.agg || r.tags != o.tags {
		return false
	}
	switch r.agg {
	case "count":
		return r.n == o.n
	case "sum":
		return r.sum == o.sum
	case "last":
		return r.end == o.end
	}
	return r.n == o.n && r.sum == o.sum && r.sq == o.sq && r.lo == o.lo && r.hi == o.hi && r.buckets == o.buckets
}

func execV10(cx *Ctx, c V10Case) error {
	return Bubble(cx, func() error {
		m := stats.Float64("v10/m", "", stats.UnitDimensionless)
		bounds := func(i int) []F {
			if i == 1 && c.Fewer {
				return c.Bounds[:len(c.Bounds)-1]
			}
			return c.Bounds
		}
		type side struct {
			v    *view.View
			w    view.Meter
			want map[string]*v10Row
			raw  map[string][]int
			rows []*view.Row
			keys []string
		}
		var sides [2]*side
		for i := range sides {
			s := &side{w: view.NewMeter(), want: map[string]*v10Row{}, raw: map[string][]int{}}
			s.w.Start()
			defer s.w.Stop()
			var b []float64
			for _, x := range bounds(i) {
				b = append(b, float64(x))
			}
			var a *view.Aggregation
			switch c.Agg[i] {
			case "count":
				a = view.Count()
			case "sum":
				a = view.Sum()
			case "last":
				a = view.LastValue()
			default:
				a = view.Distribution(b...)
			}
			s.v = &view.View{Name: "v10", Measure: m, Aggregation: a, TagKeys: []tag.Key{tagKeys[0], tagKeys[1]}}
			if c.More {
				s.v.TagKeys = append(s.v.TagKeys, v10M1, v10M2)
			}
			if err := s.w.Register(s.v); err != nil {
				return err
			}
			sides[i] = s
		}
		for n := 0; n < len(c.Ss[0]) || n < len(c.Ss[1]); n++ {
			time.Sleep(time.Millisecond)
			for i, s := range sides {
				if n >= len(c.Ss[i]) {
					continue
				}
				x := c.Ss[i][n]
				muts := []tag.Mutator{tag.Upsert(tagKeys[0], fmt.Sprint("v", x.K1))}
				id := fmt.Sprint("k1=v", x.K1, ";")
				if x.K2 > 0 {
					muts = append(muts, tag.Upsert(tagKeys[1], "w"))
					id += "k2=w;"
				}
				if c.More {
					if x.K3 > 0 {
						muts = append(muts, tag.Upsert(v10M1, fmt.Sprint(x.K3)))
						id += fmt.Sprint("m1=", x.K3, ";")
					}
					muts = append(muts, tag.Upsert(v10M2, "last"))
					id += "m2=last;"
				}
				if err := stats.RecordWithOptions(context.Background(), stats.WithTags(muts...), stats.WithRecorder(s.w), stats.WithMeasurements(m.M(float64(x.V)/4))); err != nil {
					return err
				}
				r := s.want[id]
				if r == nil {
					r = &v10Row{agg: c.Agg[i], tags: id, start: time.Now(), lo: x.V, hi: x.V}
					if c.Agg[i] == "last" {
						r.start = time.Time{}
					}
					s.want[id] = r
				}
				r.n++
				r.sum += x.V
				r.sq += x.V * x.V
				r.end = x.V
				if x.V < r.lo {
					r.lo = x.V
				}
				if x.V > r.hi {
					r.hi = x.V
				}
				s.raw[id] = append(s.raw[id], x.V)
			}
		}
		read := func(s *side) error {
			rows, err := s.w.RetrieveData("v10")
			if err != nil {
				return err
			}
			if len(rows) != len(s.want) {
				return Errf("%d rows, want %d", len(rows), len(s.want))
			}
			sort.Slice(rows, func(i, j int) bool { return fmt.Sprint(rows[i].Tags) < fmt.Sprint(rows[j].Tags) })
			s.rows, s.keys = rows, nil
			for _, r := range rows {
				id := ""
				for _, t := range r.Tags {
					id += t.Key.Name() + "=" + t.Value + ";"
				}
				if s.want[id] == nil {
					return Errf("a row %q that was not recorded", id)
				}
				s.keys = append(s.keys, id)
			}
			return nil
		}
		for i, s := range sides {
			if err := read(s); err != nil {
				return err
			}
			for id, vs := range s.raw {
				bs := bounds(i)
				n := make([]int, len(bs)+1)
				for _, v := range vs {
					n[sort.Search(len(bs), func(i int) bool { return float64(v)/4 < float64(bs[i]) })]++
				}
				s.want[id].buckets = fmt.Sprint(n)
			}
			for j, r := range s.rows {
				w := s.want[s.keys[j]]
				if !r.Data.StartTime().Equal(w.start) {
					return Errf("row %s of side %d starts at %v, want %v", s.keys[j], i, r.Data.StartTime(), w.start)
				}
				if str := r.String(); !strings.Contains(str, "v"+w.tags[4:5]) {
					return Errf("row %s reads %q", s.keys[j], str)
				}
			}
		}
		compare := func(what string, starts bool) error {
			for _, sa := range sides {
				for _, sb := range sides {
					for i, a := range sa.rows {
						for j, b := range sb.rows {
							x, y := sa.want[sa.keys[i]], sb.want[sb.keys[j]]
							want := x.same(*y) && (!starts || x.start.Equal(y.start))
							// a hand-made row of the same contents is as good
							h := &view.Row{Tags: append([]tag.Tag(nil), b.Tags...), Data: b.Data}
							if got := a.Equal(b); got != want || a.Equal(h) != want || h.Equal(a) != want {
								return Errf("%s rows %v and %v: Equal gives %v, want %v (%+v, %+v)", what, a, b, got, want, *x, *y)
							}
							if sa != sb {
								cx.ClassIf(want, "equal")
								cx.ClassIf(!want && x.tags == y.tags && x.agg == y.agg, "unequal")
							}
						}
					}
				}
			}
			return nil
		}
		if err := compare("retrieved", true); err != nil {
			return err
		}
		kept := sides[0].rows
		for _, s := range sides {
			for _, r := range s.rows {
				view.ClearStart(r.Data)
				if !r.Data.StartTime().IsZero() {
					return Errf("after ClearStart, %v starts at %v", r, r.Data.StartTime())
				}
			}
		}
		if err := compare("cleared", false); err != nil {
			return err
		}
		// what was cleared is the caller's copy
		if err := read(sides[0]); err != nil {
			return err
		}
		for j, r := range sides[0].rows {
			if !r.Data.StartTime().Equal(sides[0].want[sides[0].keys[j]].start) {
				return Errf("clearing the start of retrieved data cleared it in the view")
			}
			view.ClearStart(r.Data)
			if !reflect.DeepEqual(r.Data, kept[j].Data) {
				return Errf("the same data read twice: %+v and %+v", r.Data, kept[j].Data)
			}
		}
		cx.NonTrivial(len(c.Ss[0]) > 2)
		return nil
	})
}

func TestV10(t *testing.T) {
	Check(t, "V10", "rows", Opts{Quick: 3000, Thorough: 80000,
		Rule: "two meters that record the same 1-12 samples but for up to three edits (a value, the order, the tags, a sum kept), every row compared with every other before and after its start is cleared; non-trivial with more than two samples"},
		genV10, execV10)
}
