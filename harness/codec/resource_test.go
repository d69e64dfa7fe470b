package codec

import (
	"context"
	"errors"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"go.opencensus.io/resource"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- R01 ----

type R01Case struct {
	Type   S
	Labels map[string]S
	Order  []int // order and layout of an equivalent hand-written document
	WS     []int
	Raw    S    // any text
	Junk   S    // letters and digits after a document
	Spoil  bool // the caller changes what it was given, and asks again
}

func genLabelKey(t *rapid.T) string {
	switch Int(t, "lkKind", 0, 6) {
	case 0:
		return Pick(t, "lkf", "a", "type", "Type", "OC_RESOURCE_TYPE", "name", "k8s.pod.name", "example.org/test-1", "a b", "a,b", "x=y", "k\"q", "a,")
	case 1:
		return "k" + strings.Repeat("z", Pick(t, "lkl", 254, 255))
	default:
		s := strings.TrimSpace(Printable(t, "lk", 1, 8))
		if s == "" || strings.Contains(s, "=\"") {
			return "k"
		}
		return s
	}
}

func genLabelVal(t *rapid.T) string {
	switch Int(t, "lvKind", 0, 7) {
	case 0:
		return Pick(t, "lvf", "", `a",b`, `",`, `"`, `\`, `\"`, `\",`, `","`, "a\tb\nc", "x=\"y\",z=\"w\"", `a\\",b`, `" ,`, ",", `a","b="c`, "\x00\x7f")
	case 1:
		return strings.Repeat(Pick(t, "lvc", "v", ",", "="), Pick(t, "lvl", 200, 255, 256))
	case 2:
		b := Bytes(t, "lvb", 0, 8)
		for i := range b {
			b[i] &= 0x7f
		}
		return string(b)
	case 3:
		n := Int(t, "lvq", 1, 6)
		b := make([]byte, n)
		for i := range b {
			b[i] = Pick[byte](t, "lvqc", '"', '\\', ',', ' ', 'a', '=')
		}
		return string(b)
	default:
		return Printable(t, "lv", 0, 10)
	}
}

func genR01(t *rapid.T) R01Case {
	c := R01Case{Spoil: Bool(t, "spoil"), Labels: map[string]S{}, Type: S(Pick(t, "type", "", "t", "k8s.io/container", "two words"))}
	n := Int(t, "n", 0, 6)
	for i := 0; i < n; i++ {
		c.Labels[genLabelKey(t)] = S(genLabelVal(t))
	}
	c.Order = rapid.Permutation([]int{0, 1, 2, 3, 4, 5}).Draw(t, "order")
	c.WS = Slice(t, "ws", 0, 12, func(t *rapid.T) int { return Int(t, "w", 0, 3) })
	c.Junk = S(Pick(t, "junk0", "Z", "a", "0", ".", "é") + Printable(t, "junk", 0, 2))
	if strings.Contains(string(c.Junk), "\"") {
		c.Junk = "x"
	}
	if Bool(t, "rawASCII") {
		c.Raw = S(rapid.StringOfN(rapid.SampledFrom([]rune(`ab=",\ `+"\n")), 0, 24, -1).Draw(t, "raw"))
	} else {
		c.Raw = S(Bytes(t, "rawb", 0, 20))
	}
	return c
}

func plain(m map[string]S) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = string(v)
	}
	return o
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func execR01(cx *Ctx, c R01Case) error {
	labels := plain(c.Labels)
	for k, v := range labels {
		if len(strconv.Quote(v)) > 258 {
			// longer than a value may be in text form
			delete(labels, k)
		}
	}
	enc := resource.EncodeLabels(labels)
	if again := resource.EncodeLabels(labels); again != enc {
		return Errf("encoding is not deterministic: %q vs %q", enc, again)
	}
	if len(labels) > 0 {
		dec, err := resource.DecodeLabels(enc)
		if err != nil {
			return Errf("labels %q encode to %q which does not decode: %v", labels, enc, err)
		}
		if !sameMap(dec, labels) {
			return Errf("labels %q encode to %q and decode to %q", labels, enc, dec)
		}
		// order and white space between labels do not matter
		var keys []string
		for _, k := range sortedKeys(labels) {
			keys = append(keys, k)
		}
		ws := func(i int) string {
			if i < len(c.WS) {
				return []string{"", " ", "  ", "\t"}[c.WS[i]]
			}
			return ""
		}
		doc, w, first := "", 0, true
		for _, o := range c.Order {
			if o >= len(keys) {
				continue
			}
			if !first {
				doc += ","
			}
			first = false
			doc += ws(w) + keys[o] + "=" + strconv.Quote(labels[keys[o]]) + ws(w+1)
			w += 2
		}
		dec, err = resource.DecodeLabels(doc)
		if err != nil || !sameMap(dec, labels) {
			return Errf("document %q decodes to %q, %v; want %q", doc, dec, err, labels)
		}
		// nothing but white space and commas may follow a label
		if dec, err := resource.DecodeLabels(doc + string(c.Junk)); err == nil || dec != nil {
			return Errf("text %q decodes to %q, %v", doc+string(c.Junk), dec, err)
		}
	}
	// environment detector
	os.Setenv("OC_RESOURCE_TYPE", " "+string(c.Type)+" ")
	os.Setenv("OC_RESOURCE_LABELS", enc)
	res, err := resource.FromEnv(context.Background())
	os.Unsetenv("OC_RESOURCE_TYPE")
	os.Unsetenv("OC_RESOURCE_LABELS")
	if err != nil || res == nil || res.Type != string(c.Type) || !sameMap(res.Labels, labels) {
		return Errf("from the environment type=%q labels=%q: got %+v, %v", c.Type, enc, res, err)
	}
	if c.Spoil { // what was detected is the caller's
		for k := range res.Labels {
			res.Labels[k] += "x"
		}
		if res.Labels != nil {
			res.Labels["more"] = "m"
		}
		os.Setenv("OC_RESOURCE_TYPE", string(c.Type))
		os.Setenv("OC_RESOURCE_LABELS", enc)
		res, err = resource.FromEnv(context.Background())
		os.Unsetenv("OC_RESOURCE_TYPE")
		os.Unsetenv("OC_RESOURCE_LABELS")
		if err != nil || res == nil || res.Type != string(c.Type) || !sameMap(res.Labels, labels) {
			return Errf("detected again from the environment type=%q labels=%q: got %+v, %v", c.Type, enc, res, err)
		}
		dec, err := resource.DecodeLabels(enc)
		for k := range dec {
			dec[k] += "x"
		}
		if dec, err = resource.DecodeLabels(enc); len(labels) > 0 && (err != nil || !sameMap(dec, labels)) {
			return Errf("decoded again %q gives %q, %v", enc, dec, err)
		}
	}
	// arbitrary text: a result or an error, and a result re-encodes to itself
	dec, err := resource.DecodeLabels(string(c.Raw))
	if err == nil {
		if dec == nil {
			return Errf("text %q decodes to nil without error", c.Raw)
		}
		ok := true
		for k, v := range dec {
			if strings.TrimSpace(k) != k || k == "" || len(strconv.Quote(v)) > 258 || strings.Contains(k, "=\"") || !isASCII(v) {
				ok = false
			}
		}
		if ok && len(dec) > 0 {
			d2, err := resource.DecodeLabels(resource.EncodeLabels(dec))
			if err != nil || !sameMap(d2, dec) {
				return Errf("text %q decodes to %q which does not round-trip: %q, %v", c.Raw, dec, d2, err)
			}
			cx.Class("raw-accepted")
		}
	} else if dec != nil {
		return Errf("text %q: labels %q with error %v", c.Raw, dec, err)
	}
	cx.NonTrivial(len(labels) > 0)
	special := false
	for _, v := range labels {
		if strings.ContainsAny(v, "\",\\") {
			special = true
		}
	}
	cx.ClassIf(special, "value-with-quote-comma-or-backslash")
	return nil
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 0x7f {
			return false
		}
	}
	return true
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func TestR01(t *testing.T) {
	Check(t, "R01", "labels", Opts{Quick: 8000, Thorough: 300000,
		Rule: "0-6 labels with ASCII keys and ASCII values full of quotes, commas, backslashes, control characters and boundary lengths, in any order and spacing, plus arbitrary text; non-trivial when there is at least one label"},
		genR01, execR01)
}

// ---- R02 ----

type Det struct {
	Nil    bool
	Err    bool
	Type   string
	Labels map[string]string
	NoMap  bool
	Nested []Det
}

type R02Case struct{ Dets []Det }

func genDet(depth int) func(t *rapid.T) Det {
	return func(t *rapid.T) Det {
		d := Det{Labels: map[string]string{}}
		switch Int(t, "dk", 0, 9) {
		case 0:
			d.Nil = true
			return d
		case 1:
			if Bool(t, "err") {
				d.Err = true
				return d
			}
		case 2:
			if depth > 0 {
				d.Nested = Slice(t, "nested", 1, 3, genDet(depth-1))
				return d
			}
		}
		d.Type = Pick(t, "type", "", "t1", "t2", "t3")
		d.NoMap = OneIn(t, "nomap", 6)
		if !d.NoMap {
			for i, n := 0, Int(t, "nl", 0, 4); i < n; i++ {
				d.Labels[Pick(t, "lk", "a", "b", "c", "d", "e")] = Pick(t, "lv", "1", "2", "3", "")
			}
		}
		return d
	}
}

func execR02(cx *Ctx, c R02Case) error {
	sentinel := errors.New("detector failed")
	var calls []int
	type made struct {
		res  *resource.Resource
		want resource.Resource
	}
	var mades []made
	id := 0
	var build func(d Det) resource.Detector
	build = func(d Det) resource.Detector {
		if d.Nested != nil {
			var ds []resource.Detector
			for _, x := range d.Nested {
				ds = append(ds, build(x))
			}
			return resource.MultiDetector(ds...)
		}
		my := id
		id++
		var res *resource.Resource
		if !d.Nil && !d.Err {
			res = &resource.Resource{Type: d.Type}
			cp := resource.Resource{Type: d.Type}
			if !d.NoMap {
				res.Labels, cp.Labels = map[string]string{}, map[string]string{}
				for k, v := range d.Labels {
					res.Labels[k] = v
					cp.Labels[k] = v
				}
			}
			mades = append(mades, made{res, cp})
		}
		return func(context.Context) (*resource.Resource, error) {
			calls = append(calls, my)
			if d.Err {
				return nil, sentinel
			}
			return res, nil
		}
	}
	var ds []resource.Detector
	for _, d := range c.Dets {
		ds = append(ds, build(d))
	}
	// model: flatten, stop at the first error
	var flat []Det
	var walk func([]Det)
	walk = func(x []Det) {
		for _, d := range x {
			if d.Nested != nil {
				walk(d.Nested)
			} else {
				flat = append(flat, d)
			}
		}
	}
	walk(c.Dets)
	var want *resource.Resource
	var wantErr error
	ncalls := 0
	for _, d := range flat {
		ncalls++
		if d.Err {
			want, wantErr = nil, sentinel
			break
		}
		if d.Nil {
			continue
		}
		if want == nil {
			want = &resource.Resource{Labels: map[string]string{}}
		}
		if want.Type == "" {
			want.Type = d.Type
		}
		for k, v := range d.Labels {
			if _, ok := want.Labels[k]; !ok {
				want.Labels[k] = v
			}
		}
	}
	for round := 0; round < 2; round++ {
		calls = nil
		got, err := resource.MultiDetector(ds...)(context.Background())
		if err != wantErr {
			return Errf("error %v, want %v", err, wantErr)
		}
		if len(calls) != ncalls {
			return Errf("detectors called %v, want the first %d", calls, ncalls)
		}
		for i, x := range calls {
			if x != i {
				return Errf("detectors called in order %v", calls)
			}
		}
		if (got == nil) != (want == nil) {
			return Errf("got %+v want %+v", got, want)
		}
		if got != nil && (got.Type != want.Type || !sameMap(got.Labels, want.Labels)) {
			return Errf("got %+v want %+v", got, want)
		}
		for i, m := range mades {
			if m.res.Type != m.want.Type || !reflect.DeepEqual(m.res.Labels, m.want.Labels) {
				return Errf("merging changed the resource of detector %d to %+v", i, m.res)
			}
		}
	}
	n := 0
	for _, d := range flat {
		if !d.Nil && !d.Err {
			n++
		}
	}
	cx.ClassIf(wantErr != nil, "error")
	cx.NonTrivial(n >= 2 || wantErr != nil)
	return nil
}

func TestR02(t *testing.T) {
	Check(t, "R02", "merge", Opts{Quick: 8000, Thorough: 250000,
		Rule: "lists of 0-5 (possibly nested) detectors returning overlapping resources, nil or an error; non-trivial when two resources are merged or a detector fails"},
		func(t *rapid.T) R02Case { return R02Case{Slice(t, "dets", 0, 5, genDet(2))} }, execR02)
}
