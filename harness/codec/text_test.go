package codec

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/tagencoding"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- N01 ----

// NTag is a tag of a map.
type NTag struct {
	K, V S
	Keep bool
}

type N01Case struct {
	ID      []int // bytes
	Tags    []NTag
	Order   []int // another order of putting them in
	Way     []int // how they are put in there
	Gone    []NTag
	AggType int
	Type    int
}

func genN01(t *rapid.T) N01Case {
	gt := func(t *rapid.T) NTag {
		return NTag{Pick[S](t, "k", "a", "b", "a b", "aa", "A", "k{", "}", " ", "z", "k1", "k10", "k2"), Pick[S](t, "v", "", "v", "w", "} {", "v v", "{", "%v", "nil"), OneIn(t, "keep", 3)}
	}
	return N01Case{
		ID:      Slice(t, "id", 16, 16, func(t *rapid.T) int { return Pick(t, "b", 0, 1, 9, 10, 15, 16, 99, 127, 128, 160, 255) }),
		Tags:    Slice(t, "tags", 0, 12, gt),
		Order:   Slice(t, "order", 12, 12, func(t *rapid.T) int { return Int(t, "o", 0, 3) }),
		Way:     Slice(t, "way", 12, 12, func(t *rapid.T) int { return Int(t, "w", 0, 2) }),
		Gone:    Slice(t, "gone", 0, 3, gt),
		AggType: Int(t, "agg", 0, 4),
		Type:    Int(t, "type", -2, 9),
	}
}

func mut(x NTag, f func(tag.Key, string, ...tag.Metadata) tag.Mutator, v string) tag.Mutator {
	if x.Keep {
		return f(tag.MustNewKey(string(x.K)), v, tag.WithTTL(tag.TTLNoPropagation))
	}
	return f(tag.MustNewKey(string(x.K)), v, tag.WithTTL(tag.TTLUnlimitedPropagation))
}

func execN01(cx *Ctx, c N01Case) error {
	var tid trace.TraceID
	var sid trace.SpanID
	for i := range tid {
		tid[i] = byte(c.ID[i])
	}
	for i := range sid {
		sid[i] = byte(c.ID[15-i])
	}
	for _, x := range [][2]string{{tid.String(), hex.EncodeToString(tid[:])}, {sid.String(), hex.EncodeToString(sid[:])}, {fmt.Sprint(tid), hex.EncodeToString(tid[:])}} {
		if x[0] != x[1] {
			return Errf("an identifier's text is %q, want %q", x[0], x[1])
		}
	}
	// the same tags put in in two ways
	have := map[S]NTag{}
	for _, x := range c.Tags {
		have[x.K] = x
	}
	var list []NTag
	for _, x := range have {
		list = append(list, x)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].K < list[j].K })
	one, err := tag.New(context.Background())
	if err != nil {
		return err
	}
	for _, x := range list {
		if one, err = tag.New(one, mut(x, tag.Insert, string(x.V))); err != nil {
			return err
		}
	}
	other := append([]NTag(nil), list...)
	for i := range other {
		j := (i + c.Order[i]) % len(other)
		other[i], other[j] = other[j], other[i]
	}
	var ms []tag.Mutator
	for _, x := range c.Gone {
		ms = append(ms, mut(x, tag.Upsert, string(x.V)))
		if _, ok := have[x.K]; !ok {
			ms = append(ms, tag.Delete(tag.MustNewKey(string(x.K))))
		}
	}
	for i, x := range other {
		switch c.Way[i] {
		case 0:
			ms = append(ms, mut(x, tag.Upsert, string(x.V)))
		case 1:
			ms = append(ms, mut(x, tag.Insert, "x"), mut(x, tag.Update, string(x.V)))
		case 2:
			ms = append(ms, tag.Delete(tag.MustNewKey(string(x.K))), mut(x, tag.Insert, string(x.V)))
		}
	}
	two, err := tag.New(context.Background(), ms...)
	if err != nil {
		return err
	}
	a, b := tag.FromContext(one).String(), tag.FromContext(two).String()
	if a != b || a != tag.FromContext(one).String() {
		return Errf("maps of the tags %v are shown as %q and %q", list, a, b)
	}
	cx.NonTrivial(len(list) > 1)
	cx.Class("tags-%d", len(list))
	rest := a
	for _, x := range list { // each tag is shown, sorted by key
		for _, part := range []string{string(x.K), string(x.V)} {
			i := strings.Index(rest, part)
			if i < 0 {
				return Errf("the map of the tags %v is shown as %q", list, a)
			}
			rest = rest[i+len(part):]
		}
	}
	// kinds
	if got, want := view.AggType(c.AggType).String(), []string{"None", "Count", "Sum", "Distribution", "LastValue"}[c.AggType]; got != want {
		return Errf("aggregation type %d is shown as %q", c.AggType, got)
	}
	want := fmt.Sprintf("Type(%d)", c.Type)
	if names := []string{"TypeGaugeInt64", "TypeGaugeFloat64", "TypeGaugeDistribution", "TypeCumulativeInt64", "TypeCumulativeFloat64", "TypeCumulativeDistribution", "TypeSummary"}; c.Type >= 0 && c.Type < len(names) {
		want = names[c.Type]
	}
	if got := metricdata.Type(c.Type).String(); got != want {
		return Errf("metric type %d is shown as %q, want %q", c.Type, got, want)
	}
	return nil
}

func TestN01(t *testing.T) {
	Check(t, "N01", "text", Opts{Quick: 8000, Thorough: 300000,
		Rule: "random identifiers, kinds, and tag maps of 0-12 tags built in two different ways and orders; non-trivial when there are at least two tags"},
		genN01, execN01)
}

// ---- N02 ----

type N02Case struct{ In S }

func genN02(t *rapid.T) N02Case {
	ch := func(t *rapid.T) string {
		return Pick(t, "c", "a", "Z", "0", "9", "_", "-", "/", " ", ".", "\u00e9", "\u00df", "\u4e16", "\U0001f600", "\u0663", "\u00b2", "\u2160", "\xff", "\xc3", "\xe4\xb8", "\x00", "\n", "key_", "\ufffd", "\u0301", "\U00010400")
	}
	s := strings.Join(Slice(t, "head", 0, 6, ch), "")
	if OneIn(t, "long", 3) {
		s += strings.Repeat(ch(t), Int(t, "n", 1, 110))
		s += strings.Join(Slice(t, "tail", 0, 6, ch), "")
	}
	return N02Case{S(s)}
}

func execN02(cx *Ctx, c N02Case) error {
	got := internal.Sanitize(string(c.In))
	in := string(c.In)
	cx.ClassIf(len(in) > 100, "long")
	cx.ClassIf(!utf8.ValidString(in), "invalid-utf8")
	if len(in) > 100 {
		in = in[:100]
	}
	changed := false
	var want []rune
	for _, r := range in { // invalid bytes come as U+FFFD
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			changed = changed || r != '_'
			r = '_'
		}
		want = append(want, r)
	}
	if len(want) > 0 {
		switch {
		case want[0] == '_':
			want = append([]rune("key"), want...)
			cx.Class("underscore-first")
		case want[0] >= '0' && want[0] <= '9':
			want = append([]rune("key_"), want...)
			cx.Class("digit-first")
		}
	}
	cx.NonTrivial(got != string(c.In))
	cx.ClassIf(changed, "replaced")
	if got != string(want) {
		return Errf("Sanitize(%q) = %q, want %q", string(c.In), got, string(want))
	}
	return nil
}

func TestN02(t *testing.T) {
	Check(t, "N02", "sanitize", Opts{Quick: 20000, Thorough: 1000000,
		Rule: "strings of letters, digits, underscores, other characters and broken UTF-8, from empty to over the limit of 100 bytes; non-trivial when the result differs from the input"},
		genN02, execN02)
}

// ---- N03 ----

type N03Case struct {
	Vals []S
	Buf  int  // initial size of the buffer
	Mid  int  // values written before the first reading
	Junk bool // the buffer is not clean
}

func genN03(t *rapid.T) N03Case {
	return N03Case{Vals: Slice(t, "vals", 0, 12, func(t *rapid.T) S {
		switch Int(t, "kind", 0, 3) {
		case 0:
			return Pick[S](t, "v", "", "", "a", "\x00", "\x01", "\x01a", "ab")
		case 1:
			return S(strings.Repeat(Pick(t, "c", "x", "\x00", "\xff"), Pick(t, "n", 2, 127, 128, 254, 255)))
		}
		return S(Bytes(t, "b", 0, 20))
	}), Buf: Pick(t, "buf", 0, 0, 1, 2, 3, 10, 256, 1000), Mid: Int(t, "mid", 0, 12), Junk: Bool(t, "junk")}
}

func execN03(cx *Ctx, c N03Case) error {
	vb := &tagencoding.Values{Buffer: make([]byte, c.Buf)}
	if c.Junk {
		for i := range vb.Buffer {
			vb.Buffer[i] = 0xa5
		}
	}
	var want []byte
	read := 0
	var got [][]byte
	for i, v := range c.Vals {
		in := []byte(v)
		vb.WriteValue(in)
		for j := range in { // the caller's to reuse
			in[j] ^= 0x5a
		}
		want = append(append(want, byte(len(v))), v...)
		if i+1 == c.Mid { // reading what there is
			for ; read <= i; read++ {
				got = append(got, vb.ReadValue())
			}
		}
	}
	cx.NonTrivial(len(c.Vals) > 1)
	cx.ClassIf(len(want) > c.Buf, "grows")
	if !bytes.Equal(vb.Bytes(), want) {
		return Errf("the values %q are encoded as %x, want %x", c.Vals, vb.Bytes(), want)
	}
	for ; read < len(c.Vals); read++ {
		got = append(got, vb.ReadValue())
	}
	again := &tagencoding.Values{Buffer: append([]byte(nil), vb.Bytes()...)}
	for i, v := range c.Vals {
		g := again.ReadValue()
		if (g == nil) != (v == "") || string(g) != string(v) {
			return Errf("value %d of %q is decoded as %q (%v)", i, c.Vals, g, g == nil)
		}
		for j := range g { // the reader's to change
			g[j] ^= 0x5a
		}
		if !bytes.Equal(again.Buffer, want) {
			return Errf("changing a value that was read changes the buffer")
		}
		if (got[i] == nil) != (v == "") || string(got[i]) != string(v) {
			return Errf("value %d of %q is read as %q (%v)", i, c.Vals, got[i], got[i] == nil)
		}
	}
	return nil
}

func TestN03(t *testing.T) {
	Check(t, "N03", "values", Opts{Quick: 10000, Thorough: 400000,
		Rule: "lists of 0-12 values of 0-255 bytes written to a buffer of any size, read in between and at the end; non-trivial when there are at least two values"},
		genN03, execN03)
}
