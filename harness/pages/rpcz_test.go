package pages

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	. "go.opencensus.io/verif/prop"
	"go.opencensus.io/zpages"
	"pgregory.net/rapid"
)

// RPC is one finished call.
type RPC struct {
	Server   bool
	Method   int
	Status   string
	Latency  F
	Sent     int64
	Recv     int64
	SentMsgs int64
	RecvMsgs int64
	Times    int // how many such calls there were, 0 for one
}

// many is the numbers of calls at which the page counts in another unit.
var many = []int{999999, 1000000, 1000001, 1234567}

// RpczCase is a history of calls, exports and looks.
type RpczCase struct {
	Methods []S
	Rounds  [][]RPC
}

func genRPC(t *rapid.T) RPC {
	return RPC{Server: Bool(t, "server"), Method: Int(t, "method", 0, 3), Status: Pick(t, "status", "OK", "OK", "CANCELLED", "UNKNOWN", "CODE_99", "ok", "17"),
		Latency: Pick[F](t, "latency", 0, 0.001, 0.5, 9.999, 10, 10.001, 150, 60000, 12345678), Sent: Pick[int64](t, "sent", 0, 1, 1000, 1<<20, 1<<32, 1<<40), Recv: Pick[int64](t, "recv", 0, 1, 1000, 1<<20, 1<<33, 1<<41),
		SentMsgs: Pick[int64](t, "sentmsgs", 0, 1, 5), RecvMsgs: Pick[int64](t, "recvmsgs", 0, 1, 7)}
}

func genRpcz(t *rapid.T) RpczCase {
	return RpczCase{
		Methods: Slice(t, "methods", 1, 4, func(t *rapid.T) S {
			return Pick[S](t, "method", "", "svc/M", "svc/N", "a<b>/c", "a&amp;/c", `"q'`, "x y", "svc/M ", " svc/M", "svc//M", "/svc/M", "SVC/m", "%d", "{{.}}", "zz", S(strings.Repeat("l", 200)))
		}),
		Rounds: Slice(t, "rounds", 1, 4, func(t *rapid.T) []RPC {
			l := Slice(t, "rpcs", 0, 10, genRPC)
			if len(l) > 0 && Int(t, "many", 0, 9999)%200 == 117 {
				l[0].Times = Pick(t, "times", many...)
			}
			return l
		}),
	}
}

var rpcViews = []*view.View{
	ocgrpc.ClientCompletedRPCsView, ocgrpc.ClientSentBytesPerRPCView, ocgrpc.ClientSentMessagesPerRPCView, ocgrpc.ClientReceivedBytesPerRPCView, ocgrpc.ClientReceivedMessagesPerRPCView, ocgrpc.ClientRoundtripLatencyView,
	ocgrpc.ServerCompletedRPCsView, ocgrpc.ServerReceivedBytesPerRPCView, ocgrpc.ServerReceivedMessagesPerRPCView, ocgrpc.ServerSentBytesPerRPCView, ocgrpc.ServerSentMessagesPerRPCView, ocgrpc.ServerLatencyView,
}

// started is not before the z-pages count time from.
var started = time.Now()

func (q RPC) record(method string) error {
	km, ks := ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus
	ms := []stats.Measurement{ocgrpc.ClientSentBytesPerRPC.M(q.Sent), ocgrpc.ClientReceivedBytesPerRPC.M(q.Recv), ocgrpc.ClientSentMessagesPerRPC.M(q.SentMsgs), ocgrpc.ClientReceivedMessagesPerRPC.M(q.RecvMsgs), ocgrpc.ClientRoundtripLatency.M(float64(q.Latency))}
	if q.Server {
		km, ks = ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus
		ms = []stats.Measurement{ocgrpc.ServerSentBytesPerRPC.M(q.Sent), ocgrpc.ServerReceivedBytesPerRPC.M(q.Recv), ocgrpc.ServerSentMessagesPerRPC.M(q.SentMsgs), ocgrpc.ServerReceivedMessagesPerRPC.M(q.RecvMsgs), ocgrpc.ServerLatency.M(float64(q.Latency))}
	}
	mut := []tag.Mutator{tag.Upsert(km, method), tag.Upsert(ks, q.Status)}
	if q.Times > 1 {
		const batch = 20000
		one := ms
		for range batch - 1 {
			ms = append(ms, one...)
		}
		for range q.Times / batch {
			if err := stats.RecordWithTags(context.Background(), mut, ms...); err != nil {
				return err
			}
		}
		ms = ms[:q.Times%batch*len(one)]
	}
	return stats.RecordWithTags(context.Background(), mut, ms...)
}

// line is what is known of a method in one direction.
type line struct {
	count, errors int64
	latency       float64 // sum, ms
	sent, recv    float64
	from, to      time.Time // when it was exported
}

type lineKey struct {
	method string
	server bool
}

// shownLine is a row of a page: the total column of each group by its heading.
type shownLine map[string]string

var (
	groupRE = regexp.MustCompile(`<font size=\+2>(Sent|Received)</font>`)
	thRE    = regexp.MustCompile(`(?s)<th class="l1" colspan=(\d+)>([^<]*)</th>`)
	rowRE   = regexp.MustCompile(`(?s)<tr>\s*<td><b>([^<]*)</b></td>(.*?)</tr>`)
	cellRE  = regexp.MustCompile(`(?s)<td align="right">([^<]*)</td>`)
)

// htmlPage parses the page into rows by direction and method.
func htmlPage(page string) (map[lineKey]shownLine, []lineKey, error) {
	out := map[lineKey]shownLine{}
	var order []lineKey
	at := groupRE.FindAllStringSubmatchIndex(page, -1)
	if len(at) != 2 {
		return nil, nil, Errf("the page has %d groups", len(at))
	}
	for i, x := range at {
		part := page[x[0]:]
		if i+1 < len(at) {
			part = page[x[0]:at[i+1][0]]
		}
		var heads []string
		for _, h := range thRE.FindAllStringSubmatch(part, -1) {
			heads = append(heads, html.UnescapeString(h[2]))
		}
		for _, r := range rowRE.FindAllStringSubmatch(part, -1) {
			cells := cellRE.FindAllStringSubmatch(r[2], -1)
			if len(cells) != 3*len(heads) {
				return nil, nil, Errf("row %q has %d cells under %d headings", r[1], len(cells), len(heads))
			}
			l := shownLine{}
			for j, h := range heads {
				l[h] = html.UnescapeString(cells[3*j+2][1])
			}
			k := lineKey{html.UnescapeString(r[1]), page[x[2]:x[3]] == "Received"}
			if out[k] != nil {
				return nil, nil, Errf("row %v is there twice", k)
			}
			out[k] = l
			order = append(order, k)
		}
	}
	return out, order, nil
}

// textPage parses the text form the same way, for methods without spaces.
func textPage(page string) (map[lineKey]shownLine, error) {
	out := map[lineKey]shownLine{}
	server := false
	var heads []string
	for _, s := range strings.Split(page, "\n") {
		switch {
		case s == "Sent:":
			server = false
		case s == "Received:":
			server = true
		case strings.HasPrefix(s, "Method "):
			heads = nil
			for _, h := range regexp.MustCompile(`\S+( \([^)]*\))?`).FindAllString(s, -1)[1:] {
				heads = append(heads, h)
			}
		case strings.TrimSpace(s) == "":
		default:
			f := strings.Fields(s)
			if f[0] == "Min" {
				if len(f) != 3*len(heads) {
					return nil, Errf("%d headings over %d columns", len(heads), len(f))
				}
				continue
			}
			if len(f) == 3*len(heads) && s[0] == ' ' {
				f = append([]string{""}, f...)
			}
			if len(f) != 3*len(heads)+1 {
				if len(f) > 3*len(heads)+1 {
					continue // a name with spaces
				}
				return nil, Errf("%d values under %d headings: %q", len(f)-1, len(heads), s)
			}
			l := shownLine{}
			for j, h := range heads {
				l[h] = f[1+3*j+2]
			}
			out[lineKey{f[0], server}] = l
		}
	}
	return out, nil
}

var units = map[string]float64{"kb/s": 1000, "kB/s": 1000, "KB/s": 1000, "KiB/s": 1024, "MB/s": 1e6, "mb/s": 1e6, "MiB/s": 1 << 20, "b/s": 1, "B/s": 1}

// rateAge gives the ages of the process at which x in all makes the rate shown.
func rateAge(x, shown, ulp float64) (lo, hi float64) {
	if shown-ulp <= 0 {
		return x / (shown + ulp), math.Inf(1)
	}
	return x / (shown + ulp), x / (shown - ulp)
}

func (l *line) check(what string, s shownLine) error {
	num := func(h string) (float64, error) {
		x := strings.TrimSpace(s[h])
		if x == "" {
			return 0, nil
		}
		v, err := strconv.ParseFloat(x, 64)
		if err != nil {
			return 0, Errf("%s: %s is %q", what, h, s[h])
		}
		return v, nil
	}
	n := 0
	// the age of the process when the line was exported
	lo, hi := l.from.Sub(started).Seconds(), l.to.Sub(started).Seconds()+10
	maxA, minB, hA, hB := 0.0, math.Inf(1), "", ""
	for h := range s {
		name, unit, _ := strings.Cut(h, " (")
		unit = strings.TrimSuffix(unit, ")")
		sum := 0.0
		switch name {
		case "Count", "Errors":
			want := l.count
			if name == "Errors" {
				want = l.errors
			}
			if x, ok := strings.CutSuffix(strings.TrimSpace(s[h]), "M"); ok {
				v, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
				if err != nil || math.Abs(v*1e6-float64(want)) > 501 {
					return Errf("%s: %s is %q, want %d", what, h, s[h], want)
				}
				n++
				continue
			}
			v, err := num(h)
			if err != nil {
				return err
			}
			if v != float64(want) {
				return Errf("%s: %s is %v, want %d", what, h, v, want)
			}
			n++
			continue
		case "Avg latency", "AvgLat":
			want := l.latency / float64(l.count)
			var v, tol float64
			if d, err := time.ParseDuration(strings.TrimSpace(s[h])); err == nil && unit == "" {
				v, tol = float64(d)/1e6, 2e-6+want*1e-9
			} else {
				if v, err = num(h); err != nil {
					return err
				}
				if unit != "ms" {
					return Errf("%s: latency in %q", what, unit)
				}
				if tol = 0.0006; want >= 9.9 {
					tol = 1.001 + want*1e-9 // cut to whole ones
				}
			}
			if math.Abs(v-want) > tol {
				return Errf("%s: %s is %s, want %v ms", what, h, s[h], want)
			}
			n++
			continue
		case "Rate":
			sum = float64(l.count)
			if unit != "" && unit != "rpc/s" {
				return Errf("%s: rate in %q", what, unit)
			}
			unit = "b/s"
		case "Input", "In":
			sum = l.recv
		case "Output", "Out":
			sum = l.sent
		default:
			return Errf("%s: unknown heading %q", what, h)
		}
		v, err := num(h)
		if err != nil {
			return err
		}
		f := units[unit]
		if f == 0 {
			return Errf("%s: %s is in an unknown unit", what, h)
		}
		ulp := 0.00051
		if i := strings.IndexByte(s[h], '.'); i < 0 || len(strings.TrimSpace(s[h][i:])) == 3 {
			ulp = 0.0051
		}
		a, b := rateAge(sum/f, v, ulp)
		if sum == 0 {
			if v != 0 {
				return Errf("%s: %s is %v, want 0", what, h, v)
			}
			n++
			continue
		}
		if a > maxA {
			maxA, hA = a, h
		}
		if b < minB {
			minB, hB = b, h
		}
		if a > hi || b < lo {
			return Errf("%s: %s is %s for %v in all, which takes a time of %v to %v s, not %v to %v s", what, h, s[h], sum, a, b, lo, hi)
		}
		n++
	}
	// all rates of one line are over about the same time
	if maxA > minB+l.to.Sub(l.from).Seconds()+1e-9 {
		return Errf("%s: %s is over at least %v s, %s over at most %v s: %v", what, hA, maxA, hB, minB, s)
	}
	if n != 6 {
		return Errf("%s: the headings are %v", what, s)
	}
	return nil
}

var known = struct {
	sync.Mutex
	m map[lineKey]*line
}{m: map[lineKey]*line{}}

// flush makes the worker export and empty the views.
func flush() (from, to time.Time, err error) {
	from = time.Now()
	view.Unregister(rpcViews...)
	to = time.Now()
	return from, to, view.Register(rpcViews...)
}

func checkRpcz(cx *Ctx, names map[string]bool) error {
	page, err := get("/debug/rpcz")
	if err != nil {
		return err
	}
	rows, order, err := htmlPage(page)
	if err != nil {
		return err
	}
	var b bytes.Buffer
	zpages.WriteTextRpczPage(&b)
	trows, err := textPage(b.String())
	if err != nil {
		return err
	}
	if !sort.SliceIsSorted(order, func(i, j int) bool {
		return !order[i].server && order[j].server || order[i].server == order[j].server && order[i].method < order[j].method
	}) {
		return Errf("the rows are not in order: %v", order)
	}
	spaced := map[lineKey]bool{} // what names with spaces look like in the text
	for k := range known.m {
		if strings.Contains(k.method, " ") {
			spaced[lineKey{strings.TrimSpace(k.method), k.server}] = true
		}
	}
	for k, l := range known.m {
		if rows[k] == nil {
			return Errf("the page lacks %+v", k)
		}
		if !names[k.method] {
			continue
		}
		if err := l.check(fmt.Sprintf("%+v in HTML", k), rows[k]); err != nil {
			return err
		}
		if !strings.Contains(k.method, " ") && !spaced[k] {
			if trows[k] == nil {
				return Errf("the text page lacks %+v\n%s", k, b.String())
			}
			if err := l.check(fmt.Sprintf("%+v in text", k), trows[k]); err != nil {
				return err
			}
		}
		cx.ClassIf(l.errors > 0, "errors")
		cx.ClassIf(l.count > 1, "several")
		cx.ClassIf(l.count >= 1e6, "millions")
	}
	for k := range rows {
		if known.m[k] == nil {
			return Errf("the page shows %+v, which was never called", k)
		}
	}
	return nil
}

func add(m map[lineKey]*line, method string, q RPC) {
	k := lineKey{method, q.Server}
	l := m[k]
	if l == nil {
		l = &line{}
		m[k] = l
	}
	n := int64(max(q.Times, 1))
	l.count += n
	if q.Status != "OK" {
		l.errors += n
	}
	l.latency += float64(n) * float64(q.Latency)
	l.sent += float64(n) * float64(q.Sent)
	l.recv += float64(n) * float64(q.Recv)
}

func execRpcz(cx *Ctx, c RpczCase) error {
	if _, _, err := flush(); err != nil {
		return err
	}
	names := map[string]bool{}
	total := 0
	for _, r := range c.Rounds {
		lines := map[lineKey]*line{}
		for _, q := range r {
			m := string(c.Methods[q.Method%len(c.Methods)])
			names[m] = true
			if err := q.record(m); err != nil {
				return err
			}
			add(lines, m, q)
			total++
		}
		from, to, err := flush()
		if err != nil {
			return err
		}
		for k, l := range lines {
			l.from, l.to = from, to
			known.m[k] = l
		}
		if err := checkRpcz(cx, names); err != nil {
			return err
		}
	}
	cx.ClassIf(len(c.Rounds) > 1, "rounds")
	cx.NonTrivial(total > 1)
	return nil
}

func TestZ02(t *testing.T) {
	Check(t, "Z02", "rpcz", Opts{Quick: 3000, Thorough: 40000,
		Rule: "1-4 rounds of up to 10 finished calls of up to four methods (markup, spaces, empty) in both directions with statuses, latencies from 0 to hours and up to 2^41 bytes, exported after each round and compared with the HTML and the text page, column by column under its heading and in its unit; non-trivial with more than one call"},
		genRpcz, execRpcz)
}

// RpczConc is calls recorded by several goroutines while the pages are read.
type RpczConc struct {
	Methods []S
	Workers [][]RPC
	Readers int
	Period  int // of the exports, in µs
}

func genRpczConc(t *rapid.T) RpczConc {
	return RpczConc{
		Methods: Slice(t, "methods", 1, 4, func(t *rapid.T) S {
			return Pick[S](t, "method", "", "svc/M", "svc/N", "a<b>/c", `"q'`, "%d", "zz")
		}),
		Workers: Slice(t, "workers", 1, 4, func(t *rapid.T) []RPC { return Slice(t, "rpcs", 1, 12, genRPC) }),
		Readers: Int(t, "readers", 1, 3), Period: Pick(t, "period", 50, 300, 1000),
	}
}

var freshMethod int

func execRpczConc(cx *Ctx, c RpczConc) error {
	// the first method is one the page never showed before, for as long as
	// that does not make the page too long
	if freshMethod < 25 {
		freshMethod++
	}
	c.Methods = append([]S{S(fmt.Sprintf("%s/%d", c.Methods[0], freshMethod))}, c.Methods[1:]...)
	if _, _, err := flush(); err != nil {
		return err
	}
	view.SetReportingPeriod(time.Duration(c.Period) * time.Microsecond)
	defer view.SetReportingPeriod(time.Hour)
	lines, names := map[lineKey]*line{}, map[string]bool{}
	for _, w := range c.Workers {
		for _, q := range w {
			m := string(c.Methods[q.Method%len(c.Methods)])
			names[m] = true
			add(lines, m, q)
		}
	}
	var (
		wg, rg sync.WaitGroup
		stop   = make(chan struct{})
		errs   = make(chan error, 16)
	)
	for i := range c.Readers {
		rg.Add(1)
		go func() {
			defer rg.Done()
			// what this reader saw of each line
			saw := map[lineKey]float64{}
			for {
				var rows map[lineKey]shownLine
				var err error
				if i%2 == 0 {
					var page string
					if page, err = get("/debug/rpcz"); err == nil {
						rows, _, err = htmlPage(page)
					}
				} else {
					var b bytes.Buffer
					zpages.WriteTextRpczPage(&b)
					rows, err = textPage(b.String())
				}
				if err != nil {
					errs <- err
					return
				}
				for k, l := range lines {
					n, _ := strconv.ParseFloat(strings.TrimSpace(rows[k]["Count"]), 64)
					e, _ := strconv.ParseFloat(strings.TrimSpace(rows[k]["Errors"]), 64)
					if known.m[k] != nil {
						continue // it may still show what was before
					}
					if n < saw[k] || n > float64(l.count) || e > float64(l.errors) {
						errs <- Errf("%+v shows %v calls with %v errors after %v calls, of %d with %d in all", k, n, e, saw[k], l.count, l.errors)
						return
					}
					saw[k] = n
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
	}
	for _, w := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, q := range w {
				if err := q.record(string(c.Methods[q.Method%len(c.Methods)])); err != nil {
					errs <- err
				}
				if i%4 == 3 {
					time.Sleep(200 * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	from, to, err := flush()
	if err != nil {
		return err
	}
	select {
	case err := <-errs:
		return err
	default:
	}
	for k, l := range lines {
		l.from, l.to = from, to
		known.m[k] = l
	}
	cx.ClassIf(len(c.Workers) > 1, "workers")
	cx.NonTrivial(len(c.Workers)+c.Readers > 2)
	return checkRpcz(cx, names)
}
