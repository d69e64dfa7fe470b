package web

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/trace"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// ---- H07: work that goes on beside the end of a request ----

// LateCase is requests whose handler is cut short by a timeout: the answer is
// sent by others while the handler goes on.
type LateCase struct {
	Reqs []LateReq
}

// LateReq is one of them.
type LateReq struct {
	Pre, Post []int // what the handler does before and after the cut
	Outer     bool  // a route around the timeout
	Std       bool  // by http.TimeoutHandler
	Wait      bool  // the answer waits for the handler all the same
	Spin      int
}

func genLate(t *rapid.T) LateCase {
	return LateCase{Slice(t, "reqs", 1, 4, func(t *rapid.T) LateReq {
		op := func(t *rapid.T) int { return Int(t, "op", 0, 3) }
		return LateReq{Slice(t, "pre", 0, 3, op), Slice(t, "post", 0, 5, op), OneIn(t, "outer", 3), Bool(t, "std"), OneIn(t, "wait", 4), Int(t, "spin", 0, 20)}
	})}
}

func execLate(cx *Ctx, c LateCase) error {
	if err := obs.Reset(serverViews); err != nil {
		return err
	}
	spans.Take()
	var all, serve sync.WaitGroup
	recs := make([]*httptest.ResponseRecorder, len(c.Reqs))
	sets := make([]map[string]bool, len(c.Reqs)) // routes each may have
	after := 0
	var start = time.Now()
	for i, q := range c.Reqs {
		cut, done := make(chan struct{}), make(chan struct{})
		nth := 0
		last := "" // of those that certainly come before the end
		later := map[string]bool{}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		do := func(w http.ResponseWriter, r *http.Request, op int) {
			nth++
			route := fmt.Sprintf("/r%d-%d", i, nth)
			switch op {
			case 0:
				ochttp.SetRoute(r.Context(), route)
			case 1:
				ochttp.WithRouteTag(http.HandlerFunc(func(http.ResponseWriter, *http.Request) {}), route).ServeHTTP(w, r)
			case 2:
				trace.FromContext(r.Context()).Annotate(nil, "late")
				trace.FromContext(r.Context()).AddAttributes(trace.StringAttribute("k", route))
			case 3:
				runtime.Gosched()
			}
		}
		n := 0
		for k, op := range append(append([]int(nil), q.Pre...), q.Post...) {
			n++
			if op < 2 {
				if k < len(q.Pre) || q.Wait {
					last = fmt.Sprintf("/r%d-%d", i, n)
				} else {
					later[fmt.Sprintf("/r%d-%d", i, n)] = true
					after++
				}
			}
		}
		if q.Outer {
			last = fmt.Sprintf("/outer%d", i)
		}
		later[last] = true
		sets[i] = later
		inner := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer close(done)
			w.WriteHeader(503)
			for _, op := range q.Pre {
				do(w, r, op)
			}
			if !q.Wait {
				if q.Std {
					cancel()
				}
				close(cut)
			}
			for k := 0; k < q.Spin; k++ {
				runtime.Gosched()
			}
			for _, op := range q.Post {
				do(w, r, op)
			}
		})
		var outer http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			all.Add(1)
			go func() {
				defer all.Done()
				rec := httptest.NewRecorder()
				inner(rec, r)
			}()
			if q.Wait {
				<-done
			} else {
				<-cut
			}
			w.WriteHeader(503)
			io.WriteString(w, "late")
		})
		if q.Std {
			outer = http.TimeoutHandler(inner, time.Hour, "late")
		}
		if q.Outer {
			outer = ochttp.WithRouteTag(outer, fmt.Sprintf("/outer%d", i))
		}
		h := &ochttp.Handler{Handler: outer, StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
		req := httptest.NewRequest("GET", fmt.Sprintf("http://server/p%d", i), nil).WithContext(ctx)
		recs[i] = httptest.NewRecorder()
		serve.Add(1)
		go func() {
			defer serve.Done()
			h.ServeHTTP(recs[i], req)
			<-done
		}()
	}
	serve.Wait()
	all.Wait()
	ms := float64(time.Since(start)) / 1e6
	rows, err := view.RetrieveData(serverViews[2].Name)
	if err != nil {
		return err
	}
	routes := map[string]string{}
	for _, r := range rows {
		var path, route string
		for _, t := range r.Tags {
			switch t.Key {
			case ochttp.Path:
				path = t.Value
			case ochttp.KeyServerRoute:
				route = t.Value
			}
		}
		if _, ok := routes[path]; ok {
			return Errf("two rows for %s: %v", path, rows)
		}
		routes[path] = route
	}
	var exp []obs.Meas
	for i, q := range c.Reqs {
		path := fmt.Sprintf("/p%d", i)
		size := recs[i].Body.Len()
		if recs[i].Code != 503 {
			return Errf("request %d answered %d", i, recs[i].Code)
		}
		if recs[i].Body.String() != map[bool]string{false: "late"}[q.Std] {
			return Errf("request %d answered %q", i, recs[i].Body)
		}
		if !sets[i][routes[path]] {
			return Errf("request %d is recorded with route %q, it can be one of %v", i, routes[path], sets[i])
		}
		s := map[string]string{"http.host": "server", "http.path": path, "http.method": "GET"}
		exp = append(exp, obs.Meas{Name: ochttp.ServerRequestCount.Name(), V: 1, Tags: cp(s)})
		s["http.status"], s["http_server_route"] = "503", routes[path]
		exp = append(exp, obs.Meas{Name: ochttp.ServerLatency.Name(), Any: true, Max: ms, Tags: s}, obs.Meas{Name: ochttp.ServerResponseBytes.Name(), V: float64(size), Tags: s})
	}
	if err := obs.CheckAll(serverViews, exp); err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, d := range spans.Take() {
		if p := fmt.Sprint(d.Attributes["http.path"]); seen[p] || d.Attributes["http.status_code"] != int64(503) {
			return Errf("span %s of %s, with status %v", d.Name, p, d.Attributes["http.status_code"])
		} else {
			seen[p] = true
		}
	}
	if len(seen) != len(c.Reqs) {
		return Errf("%d spans for %d requests", len(seen), len(c.Reqs))
	}
	cx.NonTrivial(after > 0)
	cx.ClassIf(after > 0, "route-after-the-answer")
	return nil
}

// CloseCase is a response whose body is read by some goroutines and closed by others.
type CloseCase struct {
	Chunks   []int
	Declared bool
	Readers  int
	Closers  []int // reads after which each closes
	Stall    int   // reads after which nothing comes until it is closed, -1 never
	Pace     int
	Fmt      int
}

func genClose(t *rapid.T) CloseCase {
	return CloseCase{Slice(t, "chunks", 0, 8, func(t *rapid.T) int { return Int(t, "chunk", 1, 600) }), Bool(t, "declared"), Int(t, "readers", 1, 3),
		Slice(t, "closers", 1, 3, func(t *rapid.T) int { return Int(t, "after", 0, 8) }), Int(t, "stall", -1, 8), Int(t, "pace", 0, 5), Int(t, "fmt", 0, 3)}
}

// sharedBody may be used by several goroutines, as that of net/http.
type sharedBody struct {
	mu     sync.Mutex
	chunks []int
	gave   int
	closed int
	stall  int
	wake   chan struct{}
}

func (b *sharedBody) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.stall == 0 && b.closed == 0 {
		b.mu.Unlock()
		<-b.wake
		b.mu.Lock()
	}
	b.stall--
	if b.closed > 0 {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(b.chunks) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), b.chunks[0])
	if b.chunks[0] -= n; b.chunks[0] == 0 {
		b.chunks = b.chunks[1:]
	}
	b.gave += n
	return n, nil
}

func (b *sharedBody) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed++; b.closed == 1 {
		close(b.wake)
	}
	return nil
}

func execClose(cx *Ctx, c CloseCase) error {
	if err := obs.Reset(clientViews); err != nil {
		return err
	}
	spans.Take()
	total := 0
	for _, n := range c.Chunks {
		total += n
	}
	body := &sharedBody{chunks: append([]int(nil), c.Chunks...), stall: c.Stall, wake: make(chan struct{})}
	tr := &ochttp.Transport{Propagation: formatOf(c.Fmt), StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}, Base: baseFunc(func(r *http.Request) (*http.Response, error) {
		resp := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: body, ContentLength: -1, Request: r}
		if c.Declared {
			resp.ContentLength = int64(total)
		}
		return resp, nil
	})}
	start := time.Now()
	req, _ := http.NewRequest("POST", "http://server/close", bytes.NewReader([]byte("body")))
	resp, err := tr.RoundTrip(req)
	if err != nil {
		return err
	}
	var reads, got, sawEOF atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < c.Readers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := make([]byte, 200)
			for {
				for k := 0; k < c.Pace; k++ {
					runtime.Gosched()
				}
				n, err := resp.Body.Read(p)
				got.Add(int64(n))
				reads.Add(1)
				if err != nil {
					if err == io.EOF {
						sawEOF.Add(1)
					}
					reads.Add(1000)
					return
				}
			}
		}()
	}
	low := make([]int64, len(c.Closers))
	errs := make([]error, len(c.Closers))
	for i, k := range c.Closers {
		if c.Stall >= 0 {
			k = min(k, c.Stall)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for reads.Load() < int64(k) {
				runtime.Gosched()
			}
			low[i] = got.Load()
			errs[i] = resp.Body.Close()
		}()
	}
	wg.Wait()
	ms := float64(time.Since(start)) / 1e6
	if got.Load() != int64(body.gave) || body.closed != len(c.Closers) {
		return Errf("%d bytes were read of %d, the body was closed %d times for %d", got.Load(), body.gave, body.closed, len(c.Closers))
	}
	for i, err := range errs {
		if err != nil {
			return Errf("close %d: %v", i, err)
		}
	}
	least := low[0]
	for _, l := range low {
		least = min(least, l)
	}
	if c.Readers > 1 && sawEOF.Load() > 0 {
		least = 0 // the end may be seen beside a read that is not accounted for yet
	}
	rows, err := view.RetrieveData(clientViews[2].Name)
	if err != nil {
		return err
	}
	if len(rows) != 1 {
		return Errf("%d rows of response bytes: %v", len(rows), rows)
	}
	d := rows[0].Data.(*view.DistributionData)
	n := int64(d.Mean)
	if d.Count != 1 || float64(n) != d.Mean || n < least || n > got.Load() {
		return Errf("response bytes recorded %d times, %v; %d were read before the first Close, %d altogether", d.Count, d.Mean, least, got.Load())
	}
	recv := n
	if n == 0 && c.Declared {
		recv = int64(total)
	}
	k := map[string]string{"http.host": "server", "http.path": "/close", "http.method": "POST", "http_client_host": "server", "http_client_path": "/close", "http_client_method": "POST"}
	exp := []obs.Meas{{Name: ochttp.ClientRequestCount.Name(), V: 1, Tags: cp(k)}}
	k["http.status"], k["http_client_status"] = "200", "200"
	exp = append(exp, obs.Meas{Name: ochttp.ClientRequestBytes.Name(), V: 4, Tags: k}, obs.Meas{Name: ochttp.ClientSentBytes.Name(), V: 4, Tags: k},
		obs.Meas{Name: ochttp.ClientReceivedBytes.Name(), V: float64(recv), Tags: k}, obs.Meas{Name: ochttp.ClientResponseBytes.Name(), V: float64(n), Tags: k},
		obs.Meas{Name: ochttp.ClientLatency.Name(), Any: true, Max: ms, Tags: k}, obs.Meas{Name: ochttp.ClientRoundtripLatency.Name(), Any: true, Max: ms, Tags: k})
	if err := obs.CheckAll(clientViews, exp); err != nil {
		return err
	}
	if l := spans.Take(); len(l) != 1 || l[0].Attributes["http.status_code"] != int64(200) {
		return Errf("%d spans for one request", len(l))
	}
	cx.NonTrivial(total > 0 && sawEOF.Load() == 0)
	cx.ClassIf(sawEOF.Load() > 0, "read-to-the-end")
	cx.ClassIf(c.Readers > 1, "several-readers")
	cx.ClassIf(len(c.Closers) > 1, "several-closers")
	cx.ClassIf(least > 0 && got.Load() < int64(total), "part-read")
	return nil
}

func checkLate(t *testing.T) {
	Check(t, "H07", "late", Opts{Quick: 1500, Thorough: 20000,
		Rule: "1-4 requests at once whose handler goes on after another answered for it (http.TimeoutHandler or a like), setting routes and working on the span before and after, under the race detector; non-trivial with a route set after the answer"},
		genLate, execLate)
	Check(t, "H07", "close", Opts{Quick: 1500, Thorough: 20000,
		Rule: "one response, its body read by 1-3 goroutines and closed by 1-3 others, under the race detector; non-trivial when the end was not reached"},
		genClose, execClose)
}
