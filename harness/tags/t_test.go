package tags

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- T01 ----

type TOp struct {
	Op  string // insert update upsert delete fail
	Key int
	Val S
	TTL []int // metadata list: -1 unlimited, 0 none, 1 nil metadata
}

type TStep struct {
	Parent int
	Ops    []TOp
}

type T01Case struct {
	Steps []TStep
}

func genTOp(t *rapid.T) TOp {
	o := TOp{
		Op:  Pick(t, "op", "insert", "update", "upsert", "upsert", "delete", "insert", "update"),
		Key: Int(t, "key", 0, len(keyUniverse)-1),
	}
	if Bool(t, "hot") {
		o.Key %= 4
	}
	if OneIn(t, "failing", 40) {
		o.Op = "fail"
		return o
	}
	if o.Op != "delete" {
		if OneIn(t, "bad", 25) {
			o.Val = genBadValue(t)
		} else {
			o.Val = S(genValue(t))
		}
		o.TTL = Pick(t, "ttl", nil, nil, []int{-1}, []int{0}, []int{0, -1}, []int{-1, 0}, []int{1}, []int{0, 1}, []int{-1, 1}, []int{1, -1}, []int{0, 0, -1, 1})
	}
	return o
}

func genT01(t *rapid.T) T01Case {
	n := Int(t, "steps", 1, 8)
	var c T01Case
	for i := 0; i < n; i++ {
		c.Steps = append(c.Steps, TStep{
			Parent: Int(t, "parent", 0, i),
			Ops:    Slice(t, "ops", 0, 6, genTOp),
		})
	}
	return c
}

type failMutator struct{ err error }

func (f failMutator) Mutate(*tag.Map) (*tag.Map, error) { return nil, f.err }

type ctxMark struct{}

func compareMap(m *tag.Map, want Model, exists bool) error {
	if (m != nil) != exists {
		return Errf("tag map present=%v, want %v", m != nil, exists)
	}
	for _, k := range keyUniverse {
		v, ok := m.Value(tag.MustNewKey(k))
		e, wok := want[k]
		if ok != wok || v != e.Val {
			return Errf("key %s: got (%s,%v) want (%s,%v)", show(k), show(v), ok, show(e.Val), wok)
		}
	}
	if !exists {
		return nil
	}
	// The propagable subset is visible through the wire encoding.
	ents, ok := refDecode(tag.Encode(m))
	if !ok {
		return Errf("encoding of the map is not well formed: %x", tag.Encode(m))
	}
	seen := map[string]string{}
	for _, e := range ents {
		if _, dup := seen[e[0]]; dup {
			return Errf("key %s encoded twice", show(e[0]))
		}
		seen[e[0]] = e[1]
	}
	for k, e := range want {
		v, ok := seen[k]
		if ok != e.Prop {
			return Errf("key %s propagates=%v, want %v", show(k), ok, e.Prop)
		}
		if ok && v != e.Val {
			return Errf("key %s encoded value %s want %s", show(k), show(v), show(e.Val))
		}
		delete(seen, k)
	}
	if len(seen) != 0 {
		return Errf("encoding holds extra keys %v", seen)
	}
	return nil
}

func applyModel(m Model, ops []TOp) (Model, bool) {
	m = m.clone()
	for _, o := range ops {
		k := keyUniverse[o.Key]
		if o.Op == "fail" {
			return nil, false
		}
		if o.Op == "delete" {
			delete(m, k)
			continue
		}
		if !validStr(string(o.Val)) {
			return nil, false
		}
		prop := true
		if len(o.TTL) > 0 {
			prop = false
			for _, x := range o.TTL {
				if x != 1 {
					prop = x == -1
				}
			}
		}
		_, has := m[k]
		if o.Op == "upsert" || (o.Op == "insert" && !has) || (o.Op == "update" && has) {
			m[k] = Entry{string(o.Val), prop}
		}
	}
	return m, true
}

func mutators(ops []TOp, ferr error) []tag.Mutator {
	var ms []tag.Mutator
	for _, o := range ops {
		k := tag.MustNewKey(keyUniverse[o.Key])
		var mds []tag.Metadata
		for _, x := range o.TTL {
			switch x {
			case -1:
				mds = append(mds, tag.WithTTL(tag.TTLUnlimitedPropagation))
			case 0:
				mds = append(mds, tag.WithTTL(tag.TTLNoPropagation))
			default:
				mds = append(mds, nil)
			}
		}
		switch o.Op {
		case "insert":
			ms = append(ms, tag.Insert(k, string(o.Val), mds...))
		case "update":
			ms = append(ms, tag.Update(k, string(o.Val), mds...))
		case "upsert":
			ms = append(ms, tag.Upsert(k, string(o.Val), mds...))
		case "delete":
			ms = append(ms, tag.Delete(k))
		default:
			ms = append(ms, failMutator{ferr})
		}
	}
	return ms
}

func execT01(cx *Ctx, c T01Case) error {
	type node struct {
		ctx    context.Context
		m      Model
		exists bool
	}
	nodes := []node{{context.WithValue(context.Background(), ctxMark{}, 42), Model{}, false}}
	ferr := errors.New("mutator failed")
	overlap, failed := false, false
	for i, s := range c.Steps {
		p := nodes[s.Parent]
		want, ok := applyModel(p.m, s.Ops)
		ms := mutators(s.Ops, ferr)
		got, err := tag.New(p.ctx, ms...)
		if ok != (err == nil) {
			return Errf("step %d: error=%v, want success=%v", i, err, ok)
		}
		if !ok {
			failed = true
			if got != p.ctx {
				return Errf("step %d: a failing mutation must return the given context", i)
			}
			nodes = append(nodes, p)
		} else {
			if len(s.Ops) > 0 && len(p.m) > 0 {
				overlap = true
			}
			if got.Value(ctxMark{}) != 42 {
				return Errf("step %d: values of the parent context are lost", i)
			}
			// Mutators are reusable: the same list on the same parent gives the same map.
			again, err := tag.New(p.ctx, ms...)
			if err != nil {
				return Errf("step %d: second application fails: %v", i, err)
			}
			if err := compareMap(tag.FromContext(again), want, true); err != nil {
				return Errf("step %d (second application): %v", i, err)
			}
			nodes = append(nodes, node{got, want, true})
		}
		// every context built so far still reads as it did
		for j, n := range nodes {
			if err := compareMap(tag.FromContext(n.ctx), n.m, n.exists); err != nil {
				return Errf("after step %d, context %d: %v", i, j, err)
			}
		}
	}
	cx.ClassIf(failed, "failing-mutation")
	cx.ClassIf(overlap, "mutates-nonempty-parent")
	cx.NonTrivial(overlap || failed)
	return nil
}

func TestT01(t *testing.T) {
	Check(t, "T01", "history", Opts{Quick: 6000, Thorough: 200000,
		Rule: "a tree of up to 8 derived contexts, each with 0-6 insert/update/upsert/delete mutations over 10 keys with TTL metadata and a few invalid values; non-trivial when a mutation list is applied to a non-empty parent map or fails part way"},
		genT01, execT01)
}

// ---- T02 ----

type T02Case struct {
	Tags []T02Tag
}
type T02Tag struct {
	Key, Val string
	Prop     bool
	Default  bool
}

func genT02(t *rapid.T) T02Case {
	keygen := func(t *rapid.T) string {
		switch Int(t, "kk", 0, 5) {
		case 0:
			return rep(byte(Int(t, "kc", 0x20, 0x7e)), Pick(t, "kl", 1, 126, 127, 128, 129, 254, 255))
		default:
			return Printable(t, "k", 1, 10)
		}
	}
	n := Int(t, "n", 0, 12)
	if OneIn(t, "many", 12) {
		n = Int(t, "nmany", 40, 160)
	}
	c := T02Case{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := keygen(t)
		if seen[k] {
			continue
		}
		seen[k] = true
		tg := T02Tag{Key: k, Val: genValue(t), Prop: !OneIn(t, "local", 3)}
		if tg.Prop {
			tg.Default = Bool(t, "def")
		}
		c.Tags = append(c.Tags, tg)
	}
	return c
}

func execT02(cx *Ctx, c T02Case) error {
	ctx := context.Background()
	want := map[string]string{}
	all := map[string]string{}
	local := 0
	for _, tg := range c.Tags {
		k, err := tag.NewKey(tg.Key)
		if err != nil {
			return Errf("valid key %s rejected: %v", show(tg.Key), err)
		}
		var m tag.Mutator
		switch {
		case tg.Default:
			m = tag.Insert(k, tg.Val)
		case tg.Prop:
			m = tag.Insert(k, tg.Val, tag.WithTTL(tag.TTLUnlimitedPropagation))
		default:
			m = tag.Insert(k, tg.Val, tag.WithTTL(tag.TTLNoPropagation))
			local++
		}
		ctx, err = tag.New(ctx, m)
		if err != nil {
			return Errf("valid tag %s rejected: %v", show(tg.Key), err)
		}
		all[tg.Key] = tg.Val
		if tg.Prop {
			want[tg.Key] = tg.Val
		}
	}
	ctx, err := tag.New(ctx)
	if err != nil {
		return Errf("tag.New with no mutation: %v", err)
	}
	m := tag.FromContext(ctx)
	if tag.Encode(nil) != nil {
		return Errf("Encode(nil) = %x", tag.Encode(nil))
	}
	check := func(what string, b []byte, want map[string]string) error {
		ents, ok := refDecode(b)
		if !ok || len(b) == 0 {
			return Errf("%s: encoding %x is not in the wire format", what, b)
		}
		if len(ents) != len(want) {
			return Errf("%s: %d entries encoded, want %d", what, len(ents), len(want))
		}
		for _, e := range ents {
			if v, ok := want[e[0]]; !ok || v != e[1] {
				return Errf("%s: encoded %s=%s, want %s present=%v", what, show(e[0]), show(e[1]), show(v), ok)
			}
		}
		return nil
	}
	b := tag.Encode(m)
	if err := check("encode", b, want); err != nil {
		return err
	}
	dm, err := tag.Decode(append([]byte(nil), b...))
	if err != nil {
		return Errf("decoding the own encoding: %v", err)
	}
	for k := range all {
		v, ok := dm.Value(tag.MustNewKey(k))
		w, wok := want[k]
		if ok != wok || v != w {
			return Errf("after the round trip %s is (%s,%v), want (%s,%v)", show(k), show(v), ok, show(w), wok)
		}
	}
	// what was decoded propagates again
	if err := check("second hop", tag.Encode(dm), want); err != nil {
		return err
	}
	// the source map is untouched
	for k, w := range all {
		if v, ok := m.Value(tag.MustNewKey(k)); !ok || v != w {
			return Errf("encoding changed the source map at %s", show(k))
		}
	}
	cx.ClassIf(local > 0, "has-local-only-tag")
	cx.ClassIf(len(want) > 20, "many-tags")
	cx.NonTrivial(len(want) > 0)
	return nil
}

func TestT02(t *testing.T) {
	Check(t, "T02", "roundtrip", Opts{Quick: 4000, Thorough: 150000,
		Rule: "a tag map of 0-160 tags with key and value lengths 0..255 (boundary lengths around 127/128/255 forced) and mixed propagation metadata; non-trivial when at least one tag propagates"},
		genT02, execT02)
}

// ---- T03 ----

type T03Case struct {
	B     []byte
	Extra []byte // bytes behind the slice's length but inside its capacity
}

func uvarint(n uint64) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func genT03(t *rapid.T) T03Case {
	var b []byte
	if OneIn(t, "raw", 6) {
		b = Bytes(t, "raw", 0, 30)
		if Bool(t, "v0") && len(b) > 0 {
			b[0] = 0
		}
		return T03Case{B: b, Extra: Bytes(t, "extra", 0, 4)}
	}
	b = append(b, 0)
	corrupt := Bool(t, "corrupt")
	if corrupt && OneIn(t, "ver", 10) {
		b[0] = byte(Int(t, "version", 1, 255))
	}
	hugeLens := []uint64{256, 1 << 14, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 1, 1<<64 - 2, 1<<64 - 7, 1<<64 - 20}
	field := func(name string) {
		var s string
		kind, lenKind := Int(t, name+"Kind", 0, 11), Int(t, name+"LenKind", 0, 24)
		if !corrupt {
			kind, lenKind = kind|1, 3+lenKind/22
		}
		switch kind {
		case 0:
			s = string(genBadValue(t))
		case 1:
			s = rep('z', Pick(t, name+"Len", 127, 128, 254, 255))
		case 2:
			s = ""
		case 3, 4, 5, 6, 7:
			s = Pick(t, name+"S", "a", "b", "k1")
		default:
			s = Printable(t, name, 0, 3)
			if s == "" && name == "key" {
				s = "k1"
			}
		}
		if !corrupt && lenKind == 4 {
			lenKind = 5
		}
		switch lenKind {
		case 0:
			b = append(b, uvarint(hugeLens[Int(t, "huge", 0, len(hugeLens)-1)])...)
		case 1:
			b = append(b, uvarint(uint64(len(s)+Int(t, "over", 1, 3)))...)
		case 2:
			// length that does not fit: overlong varints
			n := Int(t, "ffs", 1, 11)
			for i := 0; i < n; i++ {
				b = append(b, 0xff)
			}
			b = append(b, byte(Int(t, "last", 0, 127)))
		case 3:
			// non-minimal encoding of the right length
			l := len(s)
			b = append(b, byte(l&0x7f)|0x80, byte(l>>7&0x7f)|0x80, byte(l>>14))
		case 4:
			// a remaining-relative negative length after int conversion
			b = append(b, uvarint(^uint64(0)-uint64(len(b))-uint64(Int(t, "neg", 0, 12)))...)
		default:
			b = append(b, uvarint(uint64(len(s)))...)
		}
		b = append(b, s...)
	}
	n := Int(t, "n", 0, 5)
	for i := 0; i < n; i++ {
		if corrupt && OneIn(t, "ty", 15) {
			b = append(b, byte(Int(t, "type", 1, 255)))
		} else {
			b = append(b, 0)
		}
		field("key")
		field("val")
	}
	if corrupt && OneIn(t, "trunc", 4) && len(b) > 0 {
		b = b[:Int(t, "cut", 0, len(b))]
	}
	return T03Case{B: b, Extra: Bytes(t, "extra", 0, 4)}
}

func execT03(cx *Ctx, c T03Case) error {
	buf := append(append(make([]byte, 0, len(c.B)+len(c.Extra)), c.B...), c.Extra...)[:len(c.B)]
	ents, ok := refDecode(c.B)
	m, err := tag.Decode(buf)
	if ok != (err == nil) {
		return Errf("input %x: error=%v, reference accepts=%v", c.B, err, ok)
	}
	if string(buf) != string(c.B) {
		return Errf("decoding changed its input")
	}
	if !ok {
		if m != nil {
			return Errf("input %x: a failing decode returned a map: %v", c.B, m)
		}
		cx.Class("rejected")
		cx.NonTrivial(len(c.B) > 1)
		return nil
	}
	if m == nil {
		return Errf("input %x: no map and no error", c.B)
	}
	want := Model{}
	for _, e := range ents {
		want[e[0]] = Entry{e[1], true}
	}
	got, ok := refDecode(tag.Encode(m))
	if !ok || len(got) != len(want) {
		return Errf("input %x: decoded map has entries %v, want %v", c.B, got, want)
	}
	for _, e := range got {
		if w, ok := want[e[0]]; !ok || w.Val != e[1] {
			return Errf("input %x: decoded %s=%s, want %s", c.B, show(e[0]), show(e[1]), show(w.Val))
		}
	}
	for k, w := range want {
		if v, ok := m.Value(tag.MustNewKey(k)); !ok || v != w.Val {
			return Errf("input %x: Value(%s)=(%s,%v), want %s", c.B, show(k), show(v), ok, show(w.Val))
		}
	}
	// the decoded map does not alias the input buffer
	for i := range buf {
		buf[i] = '!'
	}
	for k, w := range want {
		if v, ok := m.Value(tag.MustNewKey(k)); !ok || v != w.Val {
			return Errf("input %x: after reusing the buffer Value(%s)=(%s,%v), want %s", c.B, show(k), show(v), ok, show(w.Val))
		}
	}
	cx.Class("accepted")
	cx.ClassIf(len(ents) > len(want), "accepted-with-duplicate-key")
	cx.NonTrivial(len(ents) > 0)
	return nil
}

func TestT03(t *testing.T) {
	Check(t, "T03", "decode", Opts{Quick: 30000, Thorough: 1000000,
		Rule: "byte strings built from the tag wire grammar with corrupted versions, field types, lengths (overlong, huge, negative-as-int, non-minimal varints), contents and truncations, plus raw bytes; non-trivial when longer than the version byte and either rejected or holding an entry"},
		genT03, execT03)
	Check(t, "T03", "newkey", Opts{Quick: 4000, Thorough: 100000,
		Rule: "strings of length 0..300 with occasional control or non-ASCII characters offered as key names; non-trivial when non-empty"},
		func(t *rapid.T) S {
			switch Int(t, "k", 0, 3) {
			case 0:
				return S(Bytes(t, "raw", 0, 4))
			case 1:
				return S(rep('k', Pick(t, "n", 0, 1, 254, 255, 256, 300)))
			case 2:
				return genBadValue(t)
			default:
				return S(Printable(t, "p", 0, 12))
			}
		},
		func(cx *Ctx, s S) error {
			k, err := tag.NewKey(string(s))
			if (err == nil) != validKey(string(s)) {
				return Errf("NewKey(%q): error=%v, valid=%v", string(s), err, validKey(string(s)))
			}
			if err == nil && k.Name() != string(s) {
				return Errf("NewKey(%q).Name()=%q", string(s), k.Name())
			}
			if err != nil && k != (tag.Key{}) {
				return Errf("NewKey(%q) returned a key with an error", string(s))
			}
			var must tag.Key
			panicked := func() (p any) {
				defer func() { p = recover() }()
				must = tag.MustNewKey(string(s))
				return nil
			}()
			if (panicked != nil) != (err != nil) || must != k {
				return Errf("MustNewKey(%q) made %v and panicked with %v, NewKey made %v, %v", string(s), must, panicked, k, err)
			}
			cx.ClassIf(err != nil, "rejected")
			cx.NonTrivial(len(s) > 0)
			return nil
		})
}

// ---- T04 ----

type T04Case struct {
	NoMap    bool
	Outer    map[string]string // labels already on the goroutine
	Tags     map[string]string
	Local    map[string]bool // tags that do not propagate
	Panics   bool
	Parallel int
}

func genT04(t *rapid.T) T04Case {
	c := T04Case{NoMap: OneIn(t, "nomap", 5), Panics: OneIn(t, "panics", 6), Parallel: Int(t, "par", 1, 3)}
	c.Outer, c.Tags, c.Local = map[string]string{}, map[string]string{}, map[string]bool{}
	for i, n := 0, Int(t, "no", 0, 3); i < n; i++ {
		c.Outer[Pick(t, "ok", "a", "b", "o1", "o2")] = Printable(t, "ov", 0, 4)
	}
	if !c.NoMap {
		for i, n := 0, Int(t, "nt", 0, 5); i < n; i++ {
			k := Pick(t, "tk", "a", "b", "c", "d", "e", rep('q', 255))
			c.Tags[k] = genValue(t)
			if OneIn(t, "local", 3) {
				c.Local[k] = true
			}
		}
	}
	return c
}

func labelsOf(ctx context.Context) map[string]string {
	m := map[string]string{}
	pprof.ForLabels(ctx, func(k, v string) bool { m[k] = v; return true })
	return m
}

var selfMu sync.Mutex

// profileSelf returns the labels the profiler sees on the calling goroutine,
// in the profile's text form ("" if none).
//
//go:noinline
func profileSelf() string {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	for _, entry := range strings.Split(b.String(), "\n\n") {
		if !strings.Contains(entry, "tags.profileSelf+") {
			continue
		}
		for _, l := range strings.Split(entry, "\n") {
			if strings.HasPrefix(l, "# labels: ") {
				if l = strings.TrimPrefix(l, "# labels: "); l != "{}" {
					return l
				}
			}
		}
		return ""
	}
	return "(goroutine not found)"
}

func labelText(m map[string]string) string {
	if len(m) == 0 {
		return ""
	}
	var kv []string
	for k, v := range m {
		kv = append(kv, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(kv)
	return "{" + strings.Join(kv, ", ") + "}"
}

// goroutineHas compares the goroutine's own labels with m.
func goroutineHas(m map[string]string, when string) error {
	selfMu.Lock()
	defer selfMu.Unlock()
	if got, want := profileSelf(), labelText(m); got != want {
		return Errf("the profiler labels of the goroutine %s are %s, want %s", when, got, want)
	}
	return nil
}

func sameStrMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func execT04(cx *Ctx, c T04Case) error {
	var kv []string
	want := map[string]string{}
	for k, v := range c.Outer {
		kv = append(kv, k, v)
		want[k] = v
	}
	ctx := pprof.WithLabels(context.Background(), pprof.Labels(kv...))
	if !c.NoMap {
		var ms []tag.Mutator
		for k, v := range c.Tags {
			ttl := tag.TTLUnlimitedPropagation
			if c.Local[k] {
				ttl = tag.TTLNoPropagation
			}
			ms = append(ms, tag.Upsert(tag.MustNewKey(k), v, tag.WithTTL(ttl)))
			want[k] = v
		}
		var err error
		ctx, err = tag.New(ctx, ms...)
		if err != nil {
			return err
		}
	}
	one := func() (err error) {
		calls := 0
		pprof.SetGoroutineLabels(ctx)
		defer pprof.SetGoroutineLabels(context.Background())
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(string); !ok || s != "callback" {
						err = Errf("Do panicked: %v", r)
					}
				}
			}()
			tag.Do(ctx, func(in context.Context) {
				calls++
				if got := labelsOf(in); !sameStrMap(got, want) {
					err = Errf("labels inside Do are %v, want %v", got, want)
				}
				if err == nil {
					err = goroutineHas(want, "inside Do")
				}
				if tag.FromContext(in) != tag.FromContext(ctx) {
					err = Errf("the tag map is not the caller's inside Do")
				}
				if c.Panics {
					panic("callback")
				}
			})
		}()
		if err == nil && calls != 1 {
			err = Errf("Do called the function %d times", calls)
		}
		if err == nil {
			if got := labelsOf(ctx); !sameStrMap(got, c.Outer) {
				err = Errf("Do changed the caller's labels to %v", got)
			}
		}
		if err == nil {
			err = goroutineHas(c.Outer, "after Do")
		}
		return err
	}
	errs := make([]error, c.Parallel)
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = one() }()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	cx.ClassIf(c.NoMap, "no-tag-map")
	cx.ClassIf(c.Panics, "callback-panics")
	cx.NonTrivial(len(c.Tags) > 0 || c.NoMap)
	return nil
}

func TestT04(t *testing.T) {
	Check(t, "T04", "do", Opts{Quick: 3000, Thorough: 60000,
		Rule: "0-5 tags over outer profiler labels, with and without a tag map in the context, callbacks that return or panic, 1-3 goroutines sharing the context; non-trivial when there are tags or no map at all"},
		genT04, execT04)
}
