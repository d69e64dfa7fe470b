// Package codec checks span-context propagation formats, tracestate and
// resources: P01..P05, R01, R02.
package codec

import (
	"context"
	"encoding/hex"
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	sdprop "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// SC is a JSON-able span context.
type SC struct {
	TID, SID []byte
	Opts     byte
	TS       []KV
}

// KV is a tracestate entry.
type KV struct{ K, V S }

func entries(kvs []KV) []tracestate.Entry {
	var es []tracestate.Entry
	for _, e := range kvs {
		es = append(es, tracestate.Entry{Key: string(e.K), Value: string(e.V)})
	}
	return es
}

func (s SC) span() (trace.SpanContext, error) {
	var sc trace.SpanContext
	copy(sc.TraceID[:], s.TID)
	copy(sc.SpanID[:], s.SID)
	sc.TraceOptions = trace.TraceOptions(s.Opts)
	if len(s.TS) > 0 {
		ts, err := tracestate.New(nil, entries(s.TS)...)
		if err != nil {
			return sc, Errf("valid tracestate %v rejected: %v", s.TS, err)
		}
		sc.Tracestate = ts
	}
	return sc, nil
}

func genID(t *rapid.T, label string, n int) []byte {
	switch Int(t, label+"Kind", 0, 5) {
	case 0:
		b := make([]byte, n)
		b[Int(t, label+"At", 0, n-1)] = byte(Int(t, label+"B", 0, 255))
		return b
	case 1:
		b := make([]byte, n)
		for i := n / 2; i < n; i++ {
			b[i] = byte(Int(t, label, 0, 255))
		}
		return b
	default:
		return Bytes(t, label, n, n)
	}
}

func genSC(t *rapid.T) SC {
	s := SC{TID: genID(t, "tid", 16), SID: genID(t, "sid", 8)}
	if Bool(t, "anyopts") {
		s.Opts = byte(Int(t, "opts", 0, 255))
	} else {
		s.Opts = byte(Int(t, "opts", 0, 1))
	}
	return s
}

func allZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// ---- P01 binary ----

type P01Case struct {
	SC SC
	TS bool
	B  []byte
}

func refFromBinary(b []byte) (tid, sid []byte, opts byte, ok bool) {
	tid, sid = make([]byte, 16), make([]byte, 8)
	if len(b) < 18 || b[0] != 0 || b[1] != 0 {
		return nil, nil, 0, false
	}
	copy(tid, b[2:18])
	i := 18
	if len(b)-i >= 9 && b[i] == 1 {
		copy(sid, b[i+1:i+9])
		i += 9
	}
	if len(b)-i >= 2 && b[i] == 2 {
		opts = b[i+1]
	}
	return tid, sid, opts, true
}

func genP01(t *rapid.T) P01Case {
	c := P01Case{SC: genSC(t), TS: Bool(t, "ts")}
	if OneIn(t, "zero", 15) {
		c.SC = SC{TID: make([]byte, 16), SID: make([]byte, 8)}
	}
	// a corrupted encoding
	b := []byte{0, 0}
	b = append(b, genID(t, "btid", 16)...)
	if !OneIn(t, "nosid", 4) {
		b = append(b, 1)
		b = append(b, genID(t, "bsid", 8)...)
	}
	if !OneIn(t, "noopts", 4) {
		b = append(b, 2, byte(Int(t, "bopts", 0, 255)))
	}
	b = append(b, Bytes(t, "trail", 0, 4)...)
	switch Int(t, "mut", 0, 5) {
	case 0:
		b = b[:Int(t, "cut", 0, len(b))]
	case 1:
		i := Pick(t, "mutAt", 0, 1, 18, 27)
		if i < len(b) {
			b[i] = byte(Int(t, "mutB", 0, 255))
		}
	case 2:
		b = Bytes(t, "raw", 0, 40)
	case 3: // swapped fields
		b = append(append(append([]byte{0, 0}, genID(t, "stid", 16)...), 2, byte(Int(t, "so", 0, 255)), 1), genID(t, "ssid", 8)...)
	}
	c.B = b
	return c
}

func execP01(cx *Ctx, c P01Case) error {
	sc, err := c.SC.span()
	if err != nil {
		return err
	}
	if c.TS {
		sc.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: "v"})
	}
	enc := propagation.Binary(sc)
	if sc == (trace.SpanContext{}) {
		if enc != nil {
			return Errf("zero span context encodes to %x", enc)
		}
		if _, ok := propagation.FromBinary(enc); ok {
			return Errf("empty input accepted")
		}
		cx.Class("zero")
	} else {
		want := append([]byte{0, 0}, c.SC.TID...)
		want = append(append(append(want, 1), c.SC.SID...), 2, c.SC.Opts)
		if !reflect.DeepEqual(enc, want) {
			return Errf("Binary(%v) = %x want %x", sc, enc, want)
		}
		got, ok := propagation.FromBinary(enc)
		sc.Tracestate = nil
		if !ok || got != sc {
			return Errf("round trip of %v gives %v, %v", sc, got, ok)
		}
	}
	in := append([]byte(nil), c.B...)
	tid, sid, opts, ok := refFromBinary(c.B)
	got, gok := propagation.FromBinary(in)
	if gok != ok {
		return Errf("FromBinary(%x) ok=%v want %v", c.B, gok, ok)
	}
	if !ok && got != (trace.SpanContext{}) {
		return Errf("FromBinary(%x) fails but returns %v", c.B, got)
	}
	if ok && (!reflect.DeepEqual(got.TraceID[:], tid) || !reflect.DeepEqual(got.SpanID[:], sid) || byte(got.TraceOptions) != opts || got.Tracestate != nil) {
		return Errf("FromBinary(%x) = %v want %x %x %x", c.B, got, tid, sid, opts)
	}
	cx.ClassIf(ok, "accepted")
	cx.ClassIf(!ok, "rejected")
	cx.NonTrivial(len(c.B) > 1 || sc != (trace.SpanContext{}))
	return nil
}

func TestP01(t *testing.T) {
	Check(t, "P01", "binary", Opts{Quick: 20000, Thorough: 600000,
		Rule: "a random span context (IDs with zero halves, all option bytes, zero value) for the round trip plus a grammar-made, truncated, reordered or raw byte string for the decoder; non-trivial when either is non-empty"},
		genP01, execP01)
}

// ---- P02 b3 ----

type HCase struct {
	SC      SC
	Headers [][2]S // headers of the request to parse
}

func hexish(t *rapid.T, label string, maxDigits int) string {
	clean := !OneIn(t, label+"dirty", 4)
	n := Int(t, label+"N", 0, maxDigits)
	if clean {
		n = 2 * Int(t, label+"Half", 1, (maxDigits-4)/2)
		if Bool(t, label+"full") {
			n = Pick(t, label+"fullN", maxDigits-4, 16)
		}
	} else if Bool(t, label+"std") {
		n = Pick(t, label+"Std", 2, 8, 15, 17, 33, 34, maxDigits, maxDigits-1)
	}
	b := make([]byte, n)
	up := OneIn(t, label+"Up", 4)
	for i := range b {
		b[i] = "0123456789abcdef"[Int(t, label, 0, 15)]
		if up && b[i] >= 'a' {
			b[i] -= 32
		}
	}
	if !clean && Bool(t, label+"bad") && n > 0 {
		b[Int(t, label+"badAt", 0, n-1)] = Pick[byte](t, label+"badB", 'g', ' ', '-', 'x', 0, 0xff, '+')
	}
	return string(b)
}

func fromHexLeftPad(s string, n int) ([]byte, bool) {
	if s == "" || len(s)%2 != 0 || len(s) > 2*n {
		return nil, false
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, false
	}
	return append(make([]byte, n-len(b)), b...), true
}

func newReq(h [][2]S) *http.Request {
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	for _, kv := range h {
		r.Header.Add(string(kv[0]), string(kv[1]))
	}
	return r
}

func cloneHeader(h http.Header) http.Header { return h.Clone() }

func roundTripHTTP(f propagation.HTTPFormat, sc trace.SpanContext, pre [][2]S) (trace.SpanContext, bool, http.Header) {
	r := newReq(pre)
	f.SpanContextToRequest(sc, r)
	r2 := newReq(nil)
	r2.Header = r.Header.Clone()
	got, ok := f.SpanContextFromRequest(r2)
	return got, ok, r.Header
}

func genP02(t *rapid.T) HCase {
	c := HCase{SC: genSC(t)}
	if !OneIn(t, "notid", 8) {
		c.Headers = append(c.Headers, [2]S{"X-B3-TraceId", S(hexish(t, "tid", 36))})
	}
	if !OneIn(t, "nosid", 8) {
		c.Headers = append(c.Headers, [2]S{"X-B3-SpanId", S(hexish(t, "sid", 20))})
	}
	if !OneIn(t, "nosampled", 4) {
		c.Headers = append(c.Headers, [2]S{"X-B3-Sampled", Pick[S](t, "sampled", "1", "0", "true", "false", "", "d", "TRUE", "True", "2", " 1", "1 ", "01")})
	}
	return c
}

func get(h [][2]S, k string) string {
	for _, kv := range h {
		if strings.EqualFold(string(kv[0]), k) {
			return string(kv[1])
		}
	}
	return ""
}

func execP02(cx *Ctx, c HCase) error {
	sc, err := c.SC.span()
	if err != nil {
		return err
	}
	f := &b3.HTTPFormat{}
	got, ok, h := roundTripHTTP(f, sc, c.Headers)
	want := sc
	want.TraceOptions &= 1
	if !ok || got != want {
		return Errf("B3 round trip of %v gives %v, %v", sc, got, ok)
	}
	if h.Get("X-B3-TraceId") != hex.EncodeToString(c.SC.TID) || h.Get("X-B3-SpanId") != hex.EncodeToString(c.SC.SID) ||
		h.Get("X-B3-Sampled") != strconv.Itoa(int(c.SC.Opts&1)) {
		return Errf("B3 headers of %v are %v", sc, h)
	}
	r := newReq(c.Headers)
	before := cloneHeader(r.Header)
	got, ok = f.SpanContextFromRequest(r)
	if !reflect.DeepEqual(before, r.Header) {
		return Errf("parsing changed the request headers")
	}
	tid, tok := fromHexLeftPad(get(c.Headers, "X-B3-TraceId"), 16)
	sid, sok := fromHexLeftPad(get(c.Headers, "X-B3-SpanId"), 8)
	if x, ok := b3.ParseTraceID(get(c.Headers, "X-B3-TraceId")); ok != tok || ok && !reflect.DeepEqual(x[:], tid) || !ok && x != (trace.TraceID{}) {
		return Errf("ParseTraceID(%q) = %v, %v, want %x, %v", get(c.Headers, "X-B3-TraceId"), x, ok, tid, tok)
	}
	if x, ok := b3.ParseSpanID(get(c.Headers, "X-B3-SpanId")); ok != sok || ok && !reflect.DeepEqual(x[:], sid) || !ok && x != (trace.SpanID{}) {
		return Errf("ParseSpanID(%q) = %v, %v, want %x, %v", get(c.Headers, "X-B3-SpanId"), x, ok, sid, sok)
	}
	if s := get(c.Headers, "X-B3-Sampled"); s == "1" || s == "true" || s == "0" || s == "false" {
		if x, _ := b3.ParseSampled(s); (x == 1) != (s == "1" || s == "true") || x > 1 {
			return Errf("ParseSampled(%q) = %v", s, x)
		}
	}
	wok := tok && sok
	if ok != wok {
		return Errf("B3 headers %v: ok=%v want %v", c.Headers, ok, wok)
	}
	if !ok {
		if got != (trace.SpanContext{}) {
			return Errf("B3 headers %v rejected but span context is %v", c.Headers, got)
		}
	} else {
		s := get(c.Headers, "X-B3-Sampled")
		wantOpts := trace.TraceOptions(0)
		if s == "1" || s == "true" {
			wantOpts = 1
		}
		if !reflect.DeepEqual(got.TraceID[:], tid) || !reflect.DeepEqual(got.SpanID[:], sid) || got.TraceOptions != wantOpts || got.Tracestate != nil {
			return Errf("B3 headers %v parse to %v, want %x %x %d", c.Headers, got, tid, sid, wantOpts)
		}
	}
	cx.ClassIf(ok, "accepted")
	cx.ClassIf(!ok, "rejected")
	cx.ClassIf(ok && len(get(c.Headers, "X-B3-TraceId")) <= 16, "short-trace-id")
	cx.NonTrivial(len(c.Headers) > 0)
	return nil
}

func TestP02(t *testing.T) {
	Check(t, "P02", "b3", Opts{Quick: 20000, Thorough: 500000,
		Rule: "a random span context for the round trip plus B3 headers with IDs of 0-36 hex digits (odd lengths, upper case, bad characters) and sampling values; non-trivial when at least one header is present"},
		genP02, execP02)
}

// ---- tracestate model ----

func validTSKey(k string) bool {
	plain := func(s string, max int) bool {
		if len(s) == 0 || len(s) > max || s[0] < 'a' || s[0] > 'z' {
			return false
		}
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '*' || c == '/') {
				return false
			}
		}
		return true
	}
	if plain(k, 256) {
		return true
	}
	if n := strings.Count(k, "@"); n != 1 {
		return false
	}
	i := strings.IndexByte(k, '@')
	return plain(k[:i], 241) && plain(k[i+1:], 14)
}

func validTSVal(v string) bool {
	if len(v) == 0 || len(v) > 256 || v[len(v)-1] == ' ' {
		return false
	}
	for i := 0; i < len(v); i++ {
		if v[i] < 0x20 || v[i] > 0x7e || v[i] == ',' || v[i] == '=' {
			return false
		}
	}
	return true
}

func genTSKey(t *rapid.T) string {
	switch Int(t, "tskKind", 0, 9) {
	case 0:
		return "a" + strings.Repeat(Pick(t, "tskc", "b", "0", "_", "*"), Pick(t, "tskl", 239, 240, 254, 255))
	case 1:
		return "t" + strings.Repeat("x", Pick(t, "tenant", 0, 5, 239, 240)) + "@" + "v" + strings.Repeat("y", Pick(t, "vendor", 0, 5, 12, 13))
	case 2, 3:
		return Pick(t, "tskf", "a", "b", "c", "foo", "bar@v", "x-y*/_z")
	default:
		return string(rune('a'+Int(t, "tsk0", 0, 25))) + strconv.Itoa(Int(t, "tsk1", 0, 60))
	}
}

func genTSVal(t *rapid.T) string {
	if OneIn(t, "tsvlong", 12) {
		return strings.Repeat(Pick(t, "tsvc", "v", " ", "!", "~"), Pick(t, "tsvl", 100, 254, 255)) + "e"
	}
	n := Int(t, "tsvn", 1, 6)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Int(t, "tsv", 0x20, 0x7e))
		if b[i] == ',' || b[i] == '=' || (i == n-1 && b[i] == ' ') {
			b[i] = '.'
		}
	}
	return string(b)
}

func genBadKV(t *rapid.T) KV {
	k, v := S(genTSKey(t)), S(genTSVal(t))
	switch Int(t, "bkv", 0, 9) {
	case 0:
		k = ""
	case 1:
		k = S("A" + string(k))
	case 2:
		k = S(strings.Repeat("k", 257))
	case 3:
		k = S(Pick(t, "bk", "a@", "@a", "a@b@c", "a@1", "1a", "a b", "a.b", "a\n", "é", "a@"+strings.Repeat("v", 15), strings.Repeat("t", 242)+"@v"))
	case 4:
		v = ""
	case 5:
		v = S(strings.Repeat("v", 257))
	case 6:
		v = S(string(v) + " ")
	case 7:
		v = S("a" + Pick(t, "bv", ",", "=", "\t", "\x7f", "é", "\n") + "b")
	case 8:
		v = " "
	default:
		v = S(string(v) + "\n")
	}
	return KV{k, v}
}

func genKVs(t *rapid.T, lo, hi int) []KV {
	n := Int(t, "nkv", lo, hi)
	var out []KV
	seen := map[S]bool{}
	for i := 0; i < n; i++ {
		k := S(genTSKey(t))
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, KV{k, S(genTSVal(t))})
	}
	return out
}

// ---- P03 W3C trace context ----

func genP03(t *rapid.T) HCase {
	c := HCase{SC: genSC(t)}
	if Bool(t, "hasTS") {
		c.SC.TS = genKVs(t, 0, Pick(t, "maxkv", 3, 8, 32))
	}
	if allZero(c.SC.TID) {
		c.SC.TID[3] = 1
	}
	if allZero(c.SC.SID) {
		c.SC.SID[7] = 1
	}
	// traceparent
	lower := func(label string, n int) string {
		if OneIn(t, label+"Z", 12) {
			return strings.Repeat("0", n)
		}
		return hex.EncodeToString(Bytes(t, label, n/2, n/2))
	}
	ver := "00"
	if OneIn(t, "verOther", 4) {
		ver = Pick(t, "ver", "01", "cc", "fe", "ff", "0", "000", "zz", "")
	}
	parts := []string{ver, lower("tid", 32), lower("sid", 16), lower("opt", 2)}
	if OneIn(t, "partMut", 4) {
		i := Int(t, "partAt", 1, 3)
		switch Int(t, "partKind", 0, 4) {
		case 0:
			if len(parts[i]) > 0 {
				parts[i] = parts[i][:len(parts[i])-1]
			}
		case 1:
			if i != 3 {
				parts[i] += "00"
			} else {
				parts[i] = ""
			}
		case 2:
			parts[i] = "g" + parts[i][1:]
		case 3:
			parts[i] = ""
		case 4:
			parts[i] = " " + parts[i][1:]
		}
	}
	if OneIn(t, "extra", 6) {
		parts = append(parts, Pick(t, "extraPart", "", "00", "what-the-future", "zz"))
	}
	if OneIn(t, "drop", 10) {
		parts = parts[:Int(t, "dropTo", 0, len(parts)-1)]
	}
	tp := strings.Join(parts, "-")
	if !OneIn(t, "notp", 12) {
		c.Headers = append(c.Headers, [2]S{Pick[S](t, "tph", "traceparent", "Traceparent", "TRACEPARENT"), S(tp)})
		if OneIn(t, "twotp", 15) {
			c.Headers = append(c.Headers, [2]S{"traceparent", S(tp)})
		}
	}
	if Bool(t, "ts") {
		// the tracestate list, possibly over several header lines
		var segs []string
		for _, kv := range genKVs(t, 1, Pick(t, "tsn", 2, 5, 34)) {
			if OneIn(t, "shorten", 2) && len(kv.V) > 20 {
				kv.V = kv.V[len(kv.V)-10:]
			}
			segs = append(segs, string(kv.K)+"="+string(kv.V))
		}
		if OneIn(t, "badseg", 5) {
			kv := genBadKV(t)
			segs = append(segs, Pick(t, "badsegS", string(kv.K)+"="+string(kv.V), "", " ", "novalue", "a=b=c", "=", "a=", "=b"))
		}
		if OneIn(t, "dup", 8) {
			segs = append(segs, segs[0])
		}
		for i := range segs {
			if OneIn(t, "ows", 3) {
				segs[i] = Pick(t, "owsL", "", " ", "\t", "  \t ") + segs[i] + Pick(t, "owsR", "", " ", "\t", " \t  ")
			}
		}
		// one header line, or several
		line := segs[:0:0]
		multi := OneIn(t, "multi", 3)
		for i, g := range segs {
			line = append(line, g)
			if i == len(segs)-1 || multi && Bool(t, "cut") {
				c.Headers = append(c.Headers, [2]S{"tracestate", S(strings.Join(line, ","))})
				line = nil
			}
		}
	}
	return c
}

func isHex(s string) bool { _, err := hex.DecodeString(s); return err == nil }

// refTraceparent: verdict 1 accept, 0 reject, -1 not specified.
func refTraceparent(tp string) (tid, sid []byte, opt byte, verdict int) {
	p := strings.Split(tp, "-")
	if len(p) < 4 || len(p[0]) != 2 || !isHex(p[0]) || len(p[1]) != 32 || !isHex(p[1]) || len(p[2]) != 16 || !isHex(p[2]) || len(p[3]) < 2 || !isHex(p[3]) {
		return nil, nil, 0, 0
	}
	if strings.ToLower(p[0]) == "ff" || (p[0] == "00" && len(p) != 4) {
		return nil, nil, 0, 0
	}
	tid, _ = hex.DecodeString(p[1])
	sid, _ = hex.DecodeString(p[2])
	o, _ := hex.DecodeString(p[3])
	if allZero(tid) || allZero(sid) {
		return nil, nil, 0, 0
	}
	verdict = 1
	if len(p[3]) != 2 || strings.ToLower(tp) != tp {
		verdict = -1
	}
	return tid, sid, o[0], verdict
}

// refTracestate parses a tracestate header; nil when absent or malformed.
func refTracestate(h string) []tracestate.Entry {
	if h == "" {
		return nil
	}
	var out []tracestate.Entry
	seen := map[string]bool{}
	segs := strings.Split(h, ",")
	n := len(segs) - 1
	for _, s := range segs {
		s = strings.Trim(s, " \t")
		n += len(s)
		i := strings.IndexByte(s, '=')
		if i < 0 {
			return nil
		}
		k, v := s[:i], s[i+1:]
		if !validTSKey(k) || !validTSVal(v) || seen[k] {
			return nil
		}
		seen[k] = true
		out = append(out, tracestate.Entry{Key: k, Value: v})
	}
	if n > 512 || len(out) > 32 {
		return nil
	}
	return out
}

func sameEntries(a, b []tracestate.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func execP03(cx *Ctx, c HCase) error {
	sc, err := c.SC.span()
	if err != nil {
		return err
	}
	f := &tracecontext.HTTPFormat{}
	got, ok, h := roundTripHTTP(f, sc, c.Headers)
	var segs []string
	for _, kv := range c.SC.TS {
		segs = append(segs, string(kv.K)+"="+string(kv.V))
	}
	wantTS := strings.Join(segs, ",")
	wantEnt := entries(c.SC.TS)
	if len(wantTS) > 512 {
		wantTS, wantEnt = "", nil
		cx.Class("tracestate-too-long")
	}
	if !ok || got.TraceID != sc.TraceID || got.SpanID != sc.SpanID || got.TraceOptions != sc.TraceOptions || !sameEntries(got.Tracestate.Entries(), wantEnt) {
		return Errf("trace-context round trip of %v (%v) gives %v (%v), %v", sc, wantEnt, got, got.Tracestate.Entries(), ok)
	}
	wantTP := fmt.Sprintf("00-%x-%x-%02x", c.SC.TID, c.SC.SID, c.SC.Opts)
	if len(h["Traceparent"]) != 1 || h.Get("traceparent") != wantTP || h.Get("tracestate") != wantTS {
		return Errf("headers for %v: %v, want %q %q", sc, h, wantTP, wantTS)
	}
	if tp, ts := f.SpanContextToHeaders(sc); tp != wantTP || ts != wantTS {
		return Errf("SpanContextToHeaders = %q %q, want %q %q", tp, ts, wantTP, wantTS)
	}

	r := newReq(c.Headers)
	before := cloneHeader(r.Header)
	got, ok = f.SpanContextFromRequest(r)
	if !reflect.DeepEqual(before, r.Header) {
		return Errf("parsing changed the request headers")
	}
	tps, tss := r.Header["Traceparent"], r.Header["Tracestate"]
	verdict := 0
	var tid, sid []byte
	var opt byte
	if len(tps) == 1 {
		tid, sid, opt, verdict = refTraceparent(tps[0])
	} else if len(tps) > 1 {
		// several traceparent headers: which (if any) wins is not specified
		cx.Class("several-traceparents")
		return nil
	}
	if len(tps) < 2 {
		tp := ""
		if len(tps) > 0 {
			tp = tps[0]
		}
		if got2, ok2 := f.SpanContextFromHeaders(tp, strings.Join(tss, ",")); ok2 != ok || got2.TraceID != got.TraceID || got2.SpanID != got.SpanID || got2.TraceOptions != got.TraceOptions || !sameEntries(got2.Tracestate.Entries(), got.Tracestate.Entries()) {
			return Errf("headers %q: SpanContextFromHeaders gives %v, %v and SpanContextFromRequest %v, %v", c.Headers, got2, ok2, got, ok)
		}
	}
	if verdict >= 0 && ok != (verdict == 1) {
		return Errf("headers %q: ok=%v, want %v", c.Headers, ok, verdict == 1)
	}
	if !ok {
		if verdict == 0 && got != (trace.SpanContext{}) {
			return Errf("headers %q rejected but span context is %v", c.Headers, got)
		}
	} else {
		if !reflect.DeepEqual(got.TraceID[:], tid) || !reflect.DeepEqual(got.SpanID[:], sid) || byte(got.TraceOptions) != opt {
			return Errf("headers %q parse to %v", c.Headers, got)
		}
		want := refTracestate(strings.Join(tss, ","))
		if !sameEntries(got.Tracestate.Entries(), want) {
			return Errf("headers %q: tracestate %v, want %v", c.Headers, got.Tracestate.Entries(), want)
		}
		cx.ClassIf(len(want) > 0, "tracestate-accepted")
		cx.ClassIf(len(want) == 0 && len(tss) > 0, "tracestate-dropped")
	}
	cx.ClassIf(ok, "accepted")
	cx.ClassIf(!ok, "rejected")
	cx.ClassIf(verdict < 0, "unspecified")
	cx.NonTrivial(len(c.Headers) > 0 || len(c.SC.TS) > 0)
	return nil
}

func TestP03(t *testing.T) {
	Check(t, "P03", "tracecontext", Opts{Quick: 15000, Thorough: 400000,
		Rule: "a random span context with 0-32 tracestate entries for the round trip plus traceparent/tracestate headers built from the grammar and mutated (versions, section lengths, zero IDs, extra sections, duplicate headers, optional white space, bad entries, over-long lists); non-trivial when a header or tracestate is present"},
		genP03, execP03)
}

// ---- P04 stackdriver ----

func genP04(t *rapid.T) HCase {
	c := HCase{SC: genSC(t)}
	if OneIn(t, "none", 15) {
		return c
	}
	tid := hex.EncodeToString(genID(t, "htid", 16))
	if OneIn(t, "badtid", 8) {
		tid = Pick(t, "badTidS", "g"+tid[1:], tid[1:], "0x"+tid[2:], " "+tid[1:])
	}
	sid := strconv.FormatUint(rapid.Uint64().Draw(t, "hsid"), 10)
	if OneIn(t, "badsid", 6) {
		sid = Pick(t, "badSidS", "", "-1", "18446744073709551616", "18446744073709551615", "12a", "0x1", " 1", "1 ", "+1", "99999999999999999999")
	}
	h := tid + "/" + sid
	if !OneIn(t, "noopt", 4) {
		for n := Pick(t, "opts", 1, 1, 1, 2, 3); n > 0; n-- {
			h += Pick(t, "optS", ";o=0", ";o=1", ";o=255", ";o=3", ";o=", ";o=x", ";o=-1", ";o=1 ", ";", ";x=1", ";o1")
		}
	}
	if OneIn(t, "noslash", 10) {
		h = strings.Replace(h, "/", Pick(t, "slashRep", "", ";", "-"), 1)
	}
	if OneIn(t, "long", 12) {
		h = tid + "/" + strings.Repeat("0", Pick(t, "pad", 166, 167, 168, 169, 300)) + "1"
	}
	if OneIn(t, "raw", 15) {
		h = string(Bytes(t, "rawh", 0, 30))
	}
	c.Headers = append(c.Headers, [2]S{"X-Cloud-Trace-Context", S(h)})
	return c
}

func refStackdriver(h string) (tid []byte, sid uint64, opt byte, verdict int) {
	if h == "" || len(h) > 200 {
		return nil, 0, 0, 0
	}
	i := strings.IndexByte(h, '/')
	if i < 0 {
		return nil, 0, 0, 0
	}
	tid, err := hex.DecodeString(h[:i])
	if err != nil {
		return nil, 0, 0, 0
	}
	rest := h[i+1:]
	span, opts, hasOpts := rest, "", false
	if j := strings.IndexByte(rest, ';'); j >= 0 {
		span, opts, hasOpts = rest[:j], rest[j+1:], true
	}
	sid, err = strconv.ParseUint(span, 10, 64)
	if err != nil {
		return nil, 0, 0, 0
	}
	verdict = 1
	if len(tid) != 16 {
		verdict = -1 // accepted today; what it means is not specified
	}
	if hasOpts && strings.HasPrefix(opts, "o=") {
		o, err := strconv.ParseUint(opts[2:], 10, 64)
		if err != nil {
			return nil, 0, 0, 0
		}
		opt = byte(o)
	}
	return tid, sid, opt, verdict
}

func execP04(cx *Ctx, c HCase) error {
	sc, err := c.SC.span()
	if err != nil {
		return err
	}
	f := &sdprop.HTTPFormat{}
	got, ok, h := roundTripHTTP(f, sc, c.Headers)
	if !ok || got != sc {
		return Errf("round trip of %v gives %v, %v (header %q)", sc, got, ok, h.Get("X-Cloud-Trace-Context"))
	}
	var n uint64
	for _, b := range c.SC.SID {
		n = n<<8 | uint64(b)
	}
	if want := fmt.Sprintf("%x/%d;o=%d", c.SC.TID, n, c.SC.Opts); h.Get("X-Cloud-Trace-Context") != want {
		return Errf("header %q want %q", h.Get("X-Cloud-Trace-Context"), want)
	}
	r := newReq(c.Headers)
	got, ok = f.SpanContextFromRequest(r)
	hd := get(c.Headers, "X-Cloud-Trace-Context")
	tid, sid, opt, verdict := refStackdriver(hd)
	if verdict >= 0 && ok != (verdict == 1) {
		return Errf("header %q: ok=%v want %v", hd, ok, verdict == 1)
	}
	if !ok && verdict == 0 && got != (trace.SpanContext{}) {
		return Errf("header %q rejected but span context is %v", hd, got)
	}
	if ok && verdict == 1 {
		var gs uint64
		for _, b := range got.SpanID {
			gs = gs<<8 | uint64(b)
		}
		if !reflect.DeepEqual(got.TraceID[:], tid) || gs != sid || byte(got.TraceOptions) != opt || got.Tracestate != nil {
			return Errf("header %q parses to %v, want %x/%d;o=%d", hd, got, tid, sid, opt)
		}
	}
	cx.ClassIf(ok, "accepted")
	cx.ClassIf(!ok, "rejected")
	cx.NonTrivial(hd != "")
	return nil
}

func TestP04(t *testing.T) {
	Check(t, "P04", "stackdriver", Opts{Quick: 20000, Thorough: 500000,
		Rule: "a random span context for the round trip plus a cloud-trace header built from its grammar and mutated (bad hex, span numbers at and beyond 64 bits, option forms, missing separators, 200-byte limit); non-trivial when the header is present"},
		genP04, execP04)
}

// ---- P05 tracestate ----

type TSStep struct {
	Parent  int // index of an earlier tracestate, -1 nil
	Entries []KV
	Spare   int  // spare capacity of the caller's slice
	Share   int  // when >0: reuse the caller's slice of an earlier step, cut to Share-1 entries
	Clobber bool // overwrite the caller's slice afterwards
	Edit    int  // overwrite the entries read from that earlier tracestate, -1: none
}

type P05Case struct{ Steps []TSStep }

func genP05(t *rapid.T) P05Case {
	n := Int(t, "steps", 1, 6)
	var c P05Case
	for i := 0; i < n; i++ {
		s := TSStep{Parent: Int(t, "parent", -1, i-1), Spare: Pick(t, "spare", 0, 0, 4, 40), Clobber: Bool(t, "clobber")}
		s.Edit = Int(t, "edit", -1, i)
		s.Entries = genKVs(t, 0, Pick(t, "max", 2, 4, 12, 33))
		if OneIn(t, "bad", 6) {
			s.Entries = append(s.Entries, genBadKV(t))
		}
		if OneIn(t, "dup", 8) && len(s.Entries) > 0 {
			s.Entries = append(s.Entries, KV{s.Entries[0].K, "other"})
		}
		if i > 0 && OneIn(t, "share", 3) {
			s.Share = Int(t, "shareN", 1, 5)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func execP05(cx *Ctx, c P05Case) error {
	type st struct {
		ts   *tracestate.Tracestate
		want []tracestate.Entry
		args []tracestate.Entry
	}
	var hist []st
	derived, rejected := false, false
	var lastArgs []tracestate.Entry
	for i, s := range c.Steps {
		es := entries(s.Entries)
		args := append(make([]tracestate.Entry, 0, len(es)+s.Spare), es...)
		if s.Share > 0 && lastArgs != nil && s.Share-1 <= len(lastArgs) {
			args = lastArgs[:s.Share-1]
			es = append([]tracestate.Entry(nil), args...)
		}
		lastArgs = args
		var parent *tracestate.Tracestate
		var pw []tracestate.Entry
		if s.Parent >= 0 {
			parent, pw = hist[s.Parent].ts, hist[s.Parent].want
		}
		// model
		ok := true
		seen := map[string]bool{}
		for _, e := range es {
			if !validTSKey(e.Key) || !validTSVal(e.Value) || seen[e.Key] {
				ok = false
			}
			seen[e.Key] = true
		}
		want := append([]tracestate.Entry(nil), es...)
		for _, e := range pw {
			if !seen[e.Key] {
				want = append(want, e)
			}
		}
		if len(want) > 32 {
			ok = false
		}
		got, err := tracestate.New(parent, args...)
		if (err == nil) != ok {
			return Errf("step %d: New(%v, %v): error=%v, want success=%v", i, pw, es, err, ok)
		}
		if !sameEntries(args, es) {
			return Errf("step %d: New changed its arguments", i)
		}
		if err != nil {
			if got != nil {
				return Errf("step %d: New returned a tracestate with an error", i)
			}
			rejected = true
			hist = append(hist, st{parent, pw, nil})
		} else {
			if parent == nil && len(es) == 0 && got != nil {
				return Errf("step %d: New(nil) is not nil", i)
			}
			if len(pw) > 0 && len(es) > 0 {
				derived = true
			}
			hist = append(hist, st{got, want, args})
		}
		if s.Clobber {
			full := args[:cap(args)]
			for j := range full {
				full[j] = tracestate.Entry{Key: "clobbered", Value: "x"}
			}
			lastArgs = nil
		}
		if s.Edit >= 0 && s.Edit < len(hist) {
			es := hist[s.Edit].ts.Entries()
			es = append(es, tracestate.Entry{Key: "appended", Value: "x"})
			for j := range es {
				es[j] = tracestate.Entry{Key: "edited", Value: "x"}
			}
		}
		for j, h := range hist {
			if !sameEntries(h.ts.Entries(), h.want) {
				return Errf("after step %d, tracestate %d reads %v, want %v", i, j, h.ts.Entries(), h.want)
			}
		}
	}
	cx.ClassIf(derived, "derived")
	cx.ClassIf(rejected, "rejected")
	cx.NonTrivial(derived || rejected)
	return nil
}

func TestP05(t *testing.T) {
	Check(t, "P05", "history", Opts{Quick: 5000, Thorough: 150000,
		Rule: "histories of up to 6 derivations with 0-33 new entries each (boundary key/value sizes, invalid and duplicate entries), caller slices with spare capacity that are shared or overwritten afterwards; non-trivial when entries are added to a non-empty parent or a derivation is rejected"},
		genP05, execP05)
}

var _ = context.Background
