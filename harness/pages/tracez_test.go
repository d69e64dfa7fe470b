// Package pages checks the z-pages.
package pages

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"go.opencensus.io/zpages"
	"pgregory.net/rapid"
)

// Attr is an attribute.
type Attr struct {
	Key  S
	Kind int
	V    S
	N    int
}

// TOp is one step.
type TOp struct {
	Op    string
	Span  int
	Name  int
	Sleep int64
	Text  S
	N     int64
	Attrs []Attr
}

// TCase is a history of spans and of looks at the pages.
type TCase struct {
	Names []S
	Size  int // of the samples that are kept
	Ops   []TOp
}

var text = rapid.OneOf(rapid.SampledFrom([]string{"plain", "", "a b", `<b>"x"&'y'</b>`, "100%+1#?;=/\\", "caf\u00e9 \u65e5\u672c", "line\nbreak\ttab", "{{.}} `code`", "&lt;already&amp;", "a&copy=1", "</pre>\n</script>"}),
	rapid.StringMatching(`[ -~]{0,30}`), rapid.Custom(func(t *rapid.T) string { // lengths around the limit of a line
		return strings.Repeat("x", Int(t, "long", 980, 1030)) + strings.Repeat("\u00e9", Int(t, "wide", 0, 9))
	}))

func genAttrs(t *rapid.T) []Attr {
	return Slice(t, "attrs", 0, 4, func(t *rapid.T) Attr {
		return Attr{Key: Pick[S](t, "key", "a", "b", "key with space", "<k>", "z=1, y", "\u00fc", ""), Kind: Int(t, "kind", 0, 3), V: S(text.Draw(t, "v")), N: Pick(t, "n", 0, 1, -5, 1<<40)}
	})
}

func genTracez(t *rapid.T) TCase {
	c := TCase{Names: Slice(t, "names", 1, 3, func(t *rapid.T) S {
		return Pick[S](t, "name", "", "/a/b", "x y", "a&b=c", "<i>", `"q'`, "100%", "%41", "+", "#frag?x", "caf\u00e9", "a;b", "\n", "`$", "</td>", "&lt;", " ", "{{.}}", "zspanname=1", "\u65e5\u672c", "//h/p", "javascript:alert(1)")
	})}
	c.Size = Pick(t, "size", 10, 10, 10, 1, 2, 3, 5)
	c.Ops = Slice(t, "ops", Int(t, "least", 1, 15), 28, func(t *rapid.T) TOp {
		o := TOp{Op: Pick(t, "op", "start", "start", "child", "attr", "note", "note", "sent", "recv", "status", "end", "end", "end", "look", "quick", "quick", "quick", "quick", "rename", "fill", "fill", "many"), Span: Int(t, "span", 0, 5), Name: Int(t, "name", 0, 2),
			Sleep: Pick[int64](t, "sleep", 0, 0, 1, 999, 5e3, 10e3, 10e3-1, 100e3, 1e6, 1e6+1, 10e6, 99e6, 100e6, 1e9-1, 1e9, 3e9, 10e9, 10e9-1, 45e9, 60e9, 60e9-1, 99e9, 100e9, 101e9, 86400e9, 200000e9)}
		switch o.Op {
		case "attr":
			o.Attrs = genAttrs(t)
		case "note":
			o.Attrs, o.Text = genAttrs(t), S(text.Draw(t, "text"))
		case "sent", "recv":
			o.N = Pick[int64](t, "n", 0, 1, 100, 1<<33)
		case "many":
			o.N, o.Text = Pick[int64](t, "count", 2, 30, 31, 32, 33, 40, 127, 128, 129), S(text.Draw(t, "text"))
		case "fill":
			o.N = int64(Int(t, "count", 1, 13))
		case "status", "quick":
			o.N, o.Text = Pick[int64](t, "code", 0, 0, 1, 2, 5, 13, 16, 17, -1, 99), S(text.Draw(t, "text"))
		}
		return o
	})
	return c
}

// event is a message or an annotation of a span, as it is to be shown.
type event struct {
	at   time.Time
	text string
	note bool
}

// A span keeps its last 32 notes and its last 128 messages.
const maxNotes, maxMessages = 32, 128

type span struct {
	s          *trace.Span
	name       string // that it was started with
	sc         trace.SpanContext
	parent     trace.SpanID
	start, end time.Time
	status     trace.Status
	attrs      map[string]string
	events     []event
}

var (
	mux    = http.NewServeMux()
	caseNo atomic.Int64
	past   time.Duration // fake time the cases so far used
	era    int
)

func init() { zpages.Handle(mux, "/debug") }

func attrText(m map[string]string) string {
	if len(m) == 0 {
		return ""
	}
	var l []string
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l = append(l, k+"="+m[k])
	}
	return "Attributes:{" + strings.Join(l, ", ") + "}"
}

func mkAttrs(l []Attr) (out []trace.Attribute, shown map[string]string) {
	shown = map[string]string{}
	for _, a := range l {
		k := string(a.Key)
		switch a.Kind {
		case 0:
			out, shown[k] = append(out, trace.StringAttribute(k, string(a.V))), strconv.Quote(string(a.V))
		case 1:
			out, shown[k] = append(out, trace.Int64Attribute(k, int64(a.N))), fmt.Sprint(a.N)
		case 2:
			out, shown[k] = append(out, trace.BoolAttribute(k, a.N > 0)), fmt.Sprint(a.N > 0)
		case 3:
			out, shown[k] = append(out, trace.Float64Attribute(k, float64(a.N)/8)), fmt.Sprint(float64(a.N)/8)
		}
	}
	return
}

var codeNames = strings.Fields("OK CANCELLED UNKNOWN INVALID_ARGUMENT DEADLINE_EXCEEDED NOT_FOUND ALREADY_EXISTS PERMISSION_DENIED RESOURCE_EXHAUSTED FAILED_PRECONDITION ABORTED OUT_OF_RANGE UNIMPLEMENTED INTERNAL UNAVAILABLE DATA_LOSS UNAUTHENTICATED")

// elapsed is d as the pages show it.
func elapsed(d time.Duration) string {
	u := int64(d / time.Microsecond)
	if u > 99999999999 {
		return fmt.Sprintf("%11ds", u/1e6)
	}
	if u < 1e6 {
		return fmt.Sprintf("     .%6d", u)
	}
	return fmt.Sprintf("%5d.%06d", u/1e6, u%1e6)
}

const whole = "2006/01/02-15:04:05.000000"

// rows are the lines that show s: when, elapsed and what.
func (s *span) rows() (l [][3]string) {
	first := [3]string{s.start.Format(whole), "            ", ""}
	if !s.end.IsZero() {
		first[1] = elapsed(s.end.Sub(s.start))
	}
	l = append(l, first)
	if s.status != (trace.Status{}) {
		n := "error code " + strconv.Itoa(int(s.status.Code))
		if s.status.Code >= 0 && int(s.status.Code) < len(codeNames) {
			n = codeNames[s.status.Code]
		}
		l = append(l, [3]string{"", "", "Status{canonicalCode=" + n + ", description=" + strconv.Quote(s.status.Message) + "}"})
	}
	if len(s.attrs) > 0 {
		l = append(l, [3]string{"", "", attrText(s.attrs)})
	}
	last, day := s.start, s.start.Format("2006/01/02")
	for _, e := range s.events {
		when := e.at.Format(whole)
		if d := e.at.Format("2006/01/02"); d == day {
			when = "           " + when[11:]
		} else {
			day = d
		}
		l = append(l, [3]string{when, elapsed(e.at.Sub(last)), e.text})
		last = e.at
	}
	for i := range l {
		if len(l[i][2]) > 1024 {
			l[i][2] = l[i][2][:1024]
		}
	}
	return l
}

func (s *span) ids() string {
	x := fmt.Sprintf("trace_id: %s span_id: %s", s.sc.TraceID, s.sc.SpanID)
	if s.parent != (trace.SpanID{}) {
		x += fmt.Sprintf(" parent_span_id: %s", s.parent)
	}
	return x
}

// world is what the case did so far.
type world struct {
	names []string
	spans []*span
	links int
}

func get(path string) (string, error) {
	w := httptest.NewRecorder()
	mux.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
	if w.Code != 200 || !strings.HasPrefix(w.Header().Get("Content-Type"), "text/html") {
		return "", Errf("GET %s: status %d, type %q", path, w.Code, w.Header().Get("Content-Type"))
	}
	return w.Body.String(), nil
}

var (
	trRE   = regexp.MustCompile(`(?s)<tr[^>]*>\s*<td>([^<]*)</td>(.*?)</tr>`)
	linkRE = regexp.MustCompile(`<a href="([^"]*)">(\d+)`)
	headRE = regexp.MustCompile(`<b>\[([^\]]*)\]</b>`)
	numRE  = regexp.MustCompile(`<p><b>Span Name: ([^<]*) </b></p>\s*<p>(\d+) Requests</p>`)
	idRE   = regexp.MustCompile(`trace_id: <b style="color:(black|blue)">([0-9a-f]{32})</b> span_id: ([0-9a-f]{16})( parent_span_id: [0-9a-f]{16})?\n`)
)

type link struct {
	href string
	n    int
}

// summary parses the table of the page: bucket names, and links per span name.
func summary(page string) (buckets []string, rows map[string][]link) {
	for _, m := range headRE.FindAllStringSubmatch(page, -1) {
		buckets = append(buckets, html.UnescapeString(m[1]))
	}
	rows = map[string][]link{}
	for _, m := range trRE.FindAllStringSubmatch(page, -1) {
		var l []link
		for _, x := range linkRE.FindAllStringSubmatch(m[2], -1) {
			n, _ := strconv.Atoi(x[2])
			l = append(l, link{html.UnescapeString(x[1]), n})
		}
		if len(l) > 0 {
			rows[html.UnescapeString(m[1])] = l
		}
	}
	return
}

// shown compares a page of spans with the model and gives the spans on it.
func (w *world) shown(page, name string) (out []*span, n int, err error) {
	m := numRE.FindStringSubmatch(page)
	if m == nil {
		return nil, 0, Errf("the page of %q lists no spans", name)
	}
	if g := html.UnescapeString(m[1]); g != name {
		return nil, 0, Errf("the page of %q is about %q", name, g)
	}
	n, _ = strconv.Atoi(m[2])
	i := strings.Index(page, "----\n")
	j := strings.Index(page, "</pre>")
	if i < 0 || j < i {
		return nil, 0, Errf("no list on the page of %q", name)
	}
	body := page[i+5 : j]
	at := idRE.FindAllStringSubmatchIndex(body, -1)
	seen := map[*span]bool{}
	for k, x := range at {
		id := body[x[6]:x[7]]
		var s *span
		for _, y := range w.spans {
			if y.sc.SpanID.String() == id {
				s = y
			}
		}
		if s == nil {
			return nil, 0, Errf("the page of %q shows an unknown span %s", name, id)
		}
		if seen[s] {
			return nil, 0, Errf("the page of %q shows span %s twice", name, id)
		}
		seen[s] = true
		from, to := x[0]-40, len(body)
		if k+1 < len(at) {
			to = at[k+1][0] - 40
		}
		if from < 0 || to < x[1] {
			return nil, 0, Errf("the page of %q is malformed around span %s", name, id)
		}
		if k == 0 && from != 0 {
			return nil, 0, Errf("the page of %q starts with %q", name, body[:from])
		}
		color := "black"
		if s.sc.IsSampled() {
			color = "blue"
		}
		if body[x[2]:x[3]] != color {
			return nil, 0, Errf("span %s sampled=%v is shown in %s", id, s.sc.IsSampled(), body[x[2]:x[3]])
		}
		var want strings.Builder
		for r, f := range s.rows() {
			fmt.Fprintf(&want, "%26s %12s %s", f[0], f[1], f[2])
			if r == 0 {
				want.WriteString(s.ids())
			}
			want.WriteString("\n")
		}
		got := html.UnescapeString(regexp.MustCompile(`</?b[^>]*>`).ReplaceAllString(body[from:to], ""))
		if got != want.String() {
			return nil, 0, Errf("the page of %q shows span %s as\n%q\nwant\n%q", name, id, got, want.String())
		}
		out = append(out, s)
	}
	if len(at) == 0 && strings.TrimSpace(body) != "" {
		return nil, 0, Errf("the page of %q counts no span but lists %q", name, body)
	}
	return out, n, nil
}

// squeeze removes white space, which columns are padded with.
func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

// plainText holds for what a table of text shows unchanged.
func plainText(s *span) bool {
	for _, r := range s.rows() {
		if strings.ContainsAny(r[2], "\n\t\v\f\r") || strings.Contains(r[2], "trace_id") {
			return false
		}
	}
	return true
}

// textual compares the text form of a list with the spans that belong there.
func (w *world) textual(what, got string, want []*span) error {
	var l []string
	for _, s := range want {
		if !plainText(s) {
			return nil
		}
		x := ""
		for r, f := range s.rows() {
			x += f[0] + f[1] + f[2]
			if r == 0 {
				x += s.ids()
			}
		}
		l = append(l, squeeze(x))
	}
	g := squeeze(got)
	head := squeeze("When Elapsed(s) Type")
	if !strings.HasPrefix(g, head) {
		return Errf("%s as text starts with %q", what, got)
	}
	n := len(head)
	for _, x := range l {
		if !strings.Contains(g, x) {
			return Errf("%s as text is\n%s\nwithout %q", what, got, x)
		}
		n += len(x)
	}
	if n != len(g) {
		return Errf("%s as text is\n%s\nwhich is more than %q", what, got, l)
	}
	return nil
}

func ids(l []*span) string {
	var s []string
	for _, x := range l {
		s = append(s, x.sc.SpanID.String())
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func lower(bucket string) (time.Duration, error) {
	if !strings.HasPrefix(bucket, ">") {
		return 0, Errf("bucket %q", bucket)
	}
	return time.ParseDuration(strings.TrimPrefix(bucket, ">"))
}

// follow gets the page that a link names: at times over HTTP, else only its
// list of spans, as the summary of all cases so far takes long to make.
func (w *world) follow(u *url.URL) (string, error) {
	if w.links++; caseNo.Load() < 25 || w.links%11 == 1 {
		base, _ := url.Parse("/debug/tracez")
		return get(base.ResolveReference(u).String())
	}
	q := u.Query()
	typ, err := strconv.Atoi(q.Get("ztype"))
	if err != nil {
		return "", Errf("link %q: %v", u, err)
	}
	sub, err := strconv.Atoi(q.Get("zsubtype"))
	if err != nil && typ != 0 {
		return "", Errf("link %q: %v", u, err)
	}
	var b bytes.Buffer
	zpages.WriteHTMLTracezSpans(&b, q.Get("zspanname"), typ, sub)
	return b.String(), nil
}

// look follows every link of the summary page.
func (w *world) look(cx *Ctx) error {
	page, err := get("/debug/tracez")
	if err != nil {
		return err
	}
	buckets, rows := summary(page)
	var txt bytes.Buffer
	zpages.WriteTextTracezSummary(&txt)
	for _, name := range w.names {
		links, ok := rows[name]
		started := false
		for _, s := range w.spans {
			started = started || s.name == name
		}
		if !ok {
			return Errf("%q is not listed", name)
		}
		if !started {
			for _, l := range links {
				if l.n != 0 {
					return Errf("%q was not used, but the summary counts %v", name, links)
				}
			}
			continue
		}
		if len(links) != len(buckets)+2 {
			return Errf("%q has %d links, there are %d buckets", name, len(links), len(buckets))
		}
		if !strings.ContainsAny(name, "\n\t\v\f\r") {
			line := name
			for _, l := range links {
				if l.n == 0 {
					line += "."
				} else {
					line += strconv.Itoa(l.n)
				}
			}
			found := false
			for _, l := range strings.Split(txt.String(), "\n") {
				found = found || squeeze(l) == squeeze(line)
			}
			if !found {
				return Errf("the text summary lacks %q\n%s", line, txt.String())
			}
		}
		for i, l := range links {
			u, err := url.Parse(l.href)
			if err != nil {
				return Errf("link %q of %q: %v", l.href, name, err)
			}
			page, err := w.follow(u)
			if err != nil {
				return err
			}
			on, n, err := w.shown(page, name)
			if err != nil {
				return err
			}
			what := "the list of running spans"
			typ, sub := 0, 0
			if i == len(links)-1 {
				what, typ = "the list of errors", 2
			} else if i > 0 {
				what, typ, sub = "the list of latencies "+buckets[i-1], 1, i-1
			}
			if n != l.n || len(on) != l.n {
				return Errf("%s of %q has %d spans, says it has %d, and the summary says %d", what, name, len(on), n, l.n)
			}
			for _, s := range on {
				if s.name != name {
					return Errf("%s of %q shows a span of %q", what, name, s.name)
				}
				ok := true
				switch typ {
				case 0:
					ok = s.end.IsZero()
				case 1:
					lo, err := lower(buckets[sub])
					if err != nil {
						return err
					}
					hi := time.Duration(1<<63 - 1)
					if sub+1 < len(buckets) {
						if hi, err = lower(buckets[sub+1]); err != nil {
							return err
						}
					}
					d := s.end.Sub(s.start)
					ok = !s.end.IsZero() && s.status.Code == 0 && d >= lo && d < hi
				case 2:
					ok = !s.end.IsZero() && s.status.Code != 0
				}
				if !ok {
					return Errf("%s of %q shows a span that lasted %v with status %v (running: %v)", what, name, s.end.Sub(s.start), s.status, s.end.IsZero())
				}
				cx.Class("type-%d", typ)
			}
			if typ == 0 {
				var run []*span
				for _, s := range w.spans {
					if s.name == name && s.end.IsZero() {
						run = append(run, s)
					}
				}
				if ids(run) != ids(on) {
					return Errf("%s of %q shows %s, want %s", what, name, ids(on), ids(run))
				}
			}
			var b bytes.Buffer
			zpages.WriteTextTracezSpans(&b, name, typ, sub)
			if err := w.textual(what, b.String(), on); err != nil {
				return err
			}
			if typ == 2 {
				if err := w.byCode(cx, name, on); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// byCode asks for the errors of one code.
func (w *world) byCode(cx *Ctx, name string, all []*span) error {
	codes := map[int32][]*span{3: nil}
	for _, s := range all {
		codes[s.status.Code] = append(codes[s.status.Code], s)
	}
	for c, want := range codes {
		u, err := url.Parse("?" + url.Values{"zspanname": {name}, "ztype": {"2"}, "zsubtype": {fmt.Sprint(c)}}.Encode())
		if err != nil {
			return err
		}
		page, err := w.follow(u)
		if err != nil {
			return err
		}
		on, n, err := w.shown(page, name)
		if err != nil {
			return err
		}
		if n != len(want) || ids(on) != ids(want) {
			return Errf("the list of errors %d of %q shows %s, want %s", c, name, ids(on), ids(want))
		}
		var b bytes.Buffer
		zpages.WriteTextTracezSpans(&b, name, 2, int(c))
		if err := w.textual(fmt.Sprintf("the list of errors %d", c), b.String(), want); err != nil {
			return err
		}
	}
	cx.ClassIf(len(codes) > 2, "several-codes")
	return nil
}

func (w *world) start(name string, parent *span, sampled bool) *span {
	ctx := context.Background()
	s := &span{name: name, attrs: map[string]string{}}
	if parent != nil {
		ctx = trace.NewContext(ctx, parent.s)
		s.parent = parent.sc.SpanID
	}
	sampler := trace.NeverSample()
	if sampled {
		sampler = trace.AlwaysSample()
	}
	s.start = time.Now()
	_, s.s = trace.StartSpan(ctx, name, trace.WithSampler(sampler))
	s.sc = s.s.SpanContext()
	return s
}

// happened adds an event to the model.
func (s *span) happened(text string, note bool) {
	s.events = append(s.events, event{time.Now(), text, note})
	n, limit := 0, maxMessages
	if note {
		limit = maxNotes
	}
	for _, e := range s.events {
		if e.note == note {
			n++
		}
	}
	for i, e := range s.events {
		if n > limit && e.note == note {
			s.events = append(s.events[:i:i], s.events[i+1:]...)
			return
		}
	}
}

func (s *span) apply(o TOp) {
	switch o.Op {
	case "rename":
		s.s.SetName(string(o.Text))
	case "many": // of notes and messages in turns, or of one kind
		for i := int64(0); i < o.N; i++ {
			time.Sleep(time.Duration(o.Sleep%1e6) + 1)
			if k := (int(i) + o.Span) % 3; o.Name == 0 && k == 0 || o.Name == 1 {
				s.apply(TOp{Op: "note", Text: o.Text})
			} else {
				s.apply(TOp{Op: [...]string{"recv", "recv", "sent"}[k], N: i})
			}
		}
	case "attr":
		as, shown := mkAttrs(o.Attrs)
		s.s.AddAttributes(as...)
		for k, v := range shown {
			s.attrs[k] = v
		}
	case "note":
		as, shown := mkAttrs(o.Attrs)
		txt := string(o.Text)
		s.s.Annotate(as, txt)
		if len(shown) > 0 {
			txt += "  " + attrText(shown)
		}
		s.happened(txt, true)
	case "sent":
		s.s.AddMessageSendEvent(1, o.N, o.N/2)
		s.happened(fmt.Sprintf("sent message [%d bytes, %d compressed bytes]", o.N, o.N/2), false)
	case "recv":
		s.s.AddMessageReceiveEvent(1, o.N, o.N/3)
		s.happened(fmt.Sprintf("received message [%d bytes, %d compressed bytes]", o.N, o.N/3), false)
	case "status":
		s.status = trace.Status{Code: int32(o.N), Message: string(o.Text)}
		s.s.SetStatus(s.status)
	case "end":
		s.end = time.Now()
		s.s.End()
	}
}

// prefixed makes the names of the case distinct.
func (c TCase) prefixed(prefix string) []string {
	var l []string
	seen := map[string]bool{}
	for i, n := range c.Names {
		x := prefix + string(n)
		if seen[x] {
			x = fmt.Sprintf("%s.%d%s", prefix, i, string(n))
		}
		seen[x] = true
		l = append(l, x)
	}
	return l
}

// fresh empties the store of the names, in a time after all that it has seen.
func fresh(names []string, size int) {
	st := internal.Trace.(interface {
		ConfigureBucketSizes([]internal.BucketConfiguration)
	})
	for _, n := range []int{0, size} {
		for _, name := range names {
			st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: n, MaxRequestsErrors: n}})
		}
	}
	time.Sleep(past)
}

func execTracez(cx *Ctx, c TCase) error {
	return Bubble(cx, func() error {
		caseNo.Add(1)
		if past > 100*365*24*time.Hour {
			past, era = 0, era+1
		}
		w := &world{names: c.prefixed(fmt.Sprint("z", era))}
		began := time.Now()
		fresh(w.names, c.Size)
		defer func() { past = time.Since(began) + 2*time.Second }()
		defer func() {
			for _, s := range w.spans {
				if s.end.IsZero() {
					s.s.End()
				}
			}
		}()
		looks := 0
		for _, o := range c.Ops {
			name := w.names[o.Name%len(w.names)]
			var s *span
			if len(w.spans) > 0 {
				s = w.spans[len(w.spans)-1-o.Span%len(w.spans)]
			}
			switch o.Op {
			case "start":
				w.spans = append(w.spans, w.start(name, nil, o.Span%2 == 0))
			case "child":
				w.spans = append(w.spans, w.start(name, s, o.Span%2 == 0))
			case "quick":
				s := w.start(name, nil, o.Span%2 == 0)
				w.spans = append(w.spans, s)
				s.apply(TOp{Op: "status", N: o.N, Text: o.Text})
				time.Sleep(time.Duration(o.Sleep))
				s.apply(TOp{Op: "end"})
			case "fill": // spans of one latency, as far apart as the samples must be
				for i := int64(0); i < o.N; i++ {
					s := w.start(name, nil, o.Span%2 == 0)
					w.spans = append(w.spans, s)
					if o.Span == 0 {
						s.apply(TOp{Op: "status", N: 1 + i%2})
					}
					time.Sleep(time.Duration(o.Sleep))
					s.apply(TOp{Op: "end"})
					time.Sleep(time.Second)
				}
				cx.ClassIf(o.N >= int64(c.Size), "bucket-wrapped")
			case "rename":
				if s != nil && s.end.IsZero() {
					s.apply(TOp{Op: "rename", Text: S(w.names[o.Name%len(w.names)])})
					cx.Class("renamed")
				}
			case "look":
				looks++
				if err := w.look(cx); err != nil {
					return err
				}
			default:
				time.Sleep(time.Duration(o.Sleep) + 1)
				if s != nil && s.end.IsZero() {
					s.apply(o)
				}
			}
		}
		for _, s := range w.spans {
			for _, e := range s.events {
				cx.ClassIf(e.at.Format("0102") != s.start.Format("0102"), "event-on-another-day")
			}
		}
		cx.NonTrivial(len(w.spans) > 1)
		return w.look(cx)
	})
}

// PageRace is a set of spans made while the pages are read.
type PageRace struct {
	Names   []S
	Workers []TCase
	Readers int
}

func genPageRace(t *rapid.T) PageRace {
	return PageRace{Workers: Slice(t, "workers", 2, 4, genTracez), Readers: Int(t, "readers", 1, 3), Names: genTracez(t).Names}
}

func execPageRace(cx *Ctx, c PageRace) error {
	no := caseNo.Add(1)
	names := TCase{Names: c.Names}.prefixed(fmt.Sprintf("c%d.", no))
	worlds := make([]*world, len(c.Workers))
	errs := make([]error, c.Readers)
	var wg, rg sync.WaitGroup
	var stop atomic.Bool
	for i := range worlds {
		w := &world{names: names}
		worlds[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range c.Workers[i].Ops {
				name := names[o.Name%len(names)]
				var s *span
				if len(w.spans) > 0 {
					s = w.spans[len(w.spans)-1-o.Span%len(w.spans)]
				}
				switch o.Op {
				case "start":
					w.spans = append(w.spans, w.start(name, nil, o.Span%2 == 0))
				case "child":
					w.spans = append(w.spans, w.start(name, s, o.Span%2 == 0))
				case "quick":
					s := w.start(name, nil, true)
					w.spans = append(w.spans, s)
					s.apply(TOp{Op: "status", N: o.N, Text: o.Text})
					s.apply(TOp{Op: "end"})
				case "look", "fill":
				case "rename":
					if s != nil && s.end.IsZero() {
						for i := int64(0); i < 1+o.N%20; i++ {
							s.apply(TOp{Op: "rename", Text: S(names[(o.Name+int(i))%len(names)])})
						}
					}
				default:
					if s != nil && s.end.IsZero() {
						s.apply(o)
					}
				}
			}
			for _, s := range w.spans {
				if s.end.IsZero() {
					s.apply(TOp{Op: "end"})
				}
			}
		}()
	}
	for i := 0; i < c.Readers; i++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			for n := 0; n < 50 && !stop.Load() || n < 2; n++ {
				for _, name := range names {
					typ := (i + n) % 3
					var b bytes.Buffer
					zpages.WriteHTMLTracezSpans(&b, name, typ, n%9*(typ%2))
					page := b.String()
					if m := numRE.FindStringSubmatch(page); m == nil || html.UnescapeString(m[1]) != name || m[2] != fmt.Sprint(len(idRE.FindAllString(page, -1))) {
						errs[i] = Errf("the page of %q says %q and shows %d spans", name, m, len(idRE.FindAllString(page, -1)))
						return
					}
				}
				if n == 0 && i == 0 && no%10 == 0 {
					if _, errs[i] = get("/debug/tracez"); errs[i] != nil {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	stop.Store(true)
	rg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	all := &world{names: names}
	for _, w := range worlds {
		for _, s := range w.spans {
			// the clock runs on between a call and its note in the model
			all.spans = append(all.spans, s)
		}
	}
	cx.NonTrivial(len(all.spans) > 3)
	if no%10 != 0 {
		return nil
	}
	// Running spans are none; every other link shows what it counts.
	page, err := get("/debug/tracez")
	if err != nil {
		return err
	}
	_, rows := summary(page)
	for _, name := range names {
		for i, l := range rows[name] {
			u, err := url.Parse(l.href)
			if err != nil {
				return err
			}
			page, err := all.follow(u)
			if err != nil {
				return err
			}
			n := len(idRE.FindAllString(page, -1))
			if n != l.n || i == 0 && n != 0 {
				return Errf("link %d of %q counts %d spans and shows %d", i, name, l.n, n)
			}
		}
	}
	return nil
}

func TestZ01(t *testing.T) {
	Check(t, "Z01", "tracez", Opts{Quick: 400, Thorough: 6000,
		Rule: "histories of up to 28 steps (some of them of many events or of up to 13 spans) on spans under up to three names (quotes, markup, spaces, URL syntax) and with samples of 1-10 spans, with latencies on and around every bucket boundary, statuses, attributes, annotations of up to 1030 bytes and messages under a fake clock; every link of the summary is followed in HTML and its list compared in HTML and text; non-trivial with two spans or more"},
		genTracez, execTracez)
}

func TestZ03(t *testing.T) {
	checkStalls(t)
	Check(t, "Z03", "tracez", Opts{Quick: 150, Thorough: 2000,
		Rule: "2-4 goroutines making spans while 1-3 read the pages, under the race detector; non-trivial with more than three spans"},
		genPageRace, execPageRace)
	Check(t, "Z03", "rpcz", Opts{Quick: 150, Thorough: 2500,
		Rule: "1-4 goroutines that record up to 12 finished calls each while the views are exported every 50-1000 µs and 1-3 goroutines read the HTML or the text page: every page is whole, counts of new methods never go down or beyond the calls, and the last page is exact; non-trivial with more than two goroutines; race detector"},
		genRpczConc, execRpczConc)
}
