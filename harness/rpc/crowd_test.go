package rpc

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// CrowdCase is callers that make many calls each, as fast as they can, with
// nothing between a client's handler and the server's but what gRPC carries.
type CrowdCase struct {
	Callers []Caller
	Calls   int
}

// Caller makes calls of one kind.
type Caller struct {
	Method, Val int
	Tag         bool
	Size, Reply int
	Code        uint32
}

var crowdMethods = []string{"/s/a", "/s/b", "/s/aa", "/s/a/b", "s/a", "/svc.v1.S/Get"}

func genCrowd(t *rapid.T) CrowdCase {
	return CrowdCase{Calls: Pick(t, "calls", 10, 40, 120), Callers: Slice(t, "callers", 2, 8, func(t *rapid.T) Caller {
		return Caller{Int(t, "method", 0, len(crowdMethods)-1), Int(t, "val", 0, 3), !OneIn(t, "untagged", 4), Int(t, "size", 0, 3000), Int(t, "reply", 0, 3000), Pick[uint32](t, "code", 0, 0, 2, 5, 14)}
	})}
}

func execCrowd(cx *Ctx, c CrowdCase) error {
	if err := prepare(Case{Default: 1}); err != nil {
		return err
	}
	if err := obs.Reset(views); err != nil {
		return err
	}
	ch, sh := &ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{}
	type pair struct{ client, server trace.SpanContext }
	pairs := make([][]pair, len(c.Callers))
	errs := make([]error, len(c.Callers))
	outcome := make([]error, len(c.Callers))
	begin := make(chan struct{})
	t0 := time.Now()
	var wg sync.WaitGroup
	for i, q := range c.Callers {
		method := crowdMethods[q.Method]
		if q.Code != 0 {
			outcome[i] = status.Error(codes.Code(q.Code), fmt.Sprint("caller", i))
		}
		base := context.Background()
		arrived := fmt.Sprintf("map[%s:%s]", ocgrpc.KeyServerMethod.Name(), strings.TrimLeft(method, "/"))
		if q.Tag {
			var err error
			if base, err = tag.New(base, tag.Upsert(k1, fmt.Sprint("v", q.Val))); err != nil {
				return err
			}
			arrived = fmt.Sprint(map[string]string{ocgrpc.KeyServerMethod.Name(): strings.TrimLeft(method, "/"), k1.Name(): fmt.Sprint("v", q.Val)})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for n := 0; n < c.Calls; n++ {
				cctx := ch.TagRPC(base, &stats.RPCTagInfo{FullMethodName: method})
				ch.HandleRPC(cctx, &stats.Begin{Client: true})
				md, _ := metadata.FromOutgoingContext(cctx)
				sctx := metadata.NewIncomingContext(context.Background(), md)
				if b := stats.OutgoingTags(cctx); b != nil {
					sctx = stats.SetIncomingTags(sctx, append([]byte(nil), b...))
				}
				sctx = sh.TagRPC(sctx, &stats.RPCTagInfo{FullMethodName: method})
				sh.HandleRPC(sctx, &stats.Begin{})
				ch.HandleRPC(cctx, &stats.OutPayload{Client: true, Length: q.Size, WireLength: q.Size + 5})
				sh.HandleRPC(sctx, &stats.InPayload{Length: q.Size, WireLength: q.Size + 5})
				if got := fmt.Sprint(tagsOf(sctx)); got != arrived && errs[i] == nil {
					errs[i] = Errf("caller %d: the handler's context has the tags %v, want %v", i, got, arrived)
				}
				sh.HandleRPC(sctx, &stats.OutPayload{Length: q.Reply, WireLength: q.Reply + 5})
				sh.HandleRPC(sctx, &stats.End{Error: outcome[i]})
				ch.HandleRPC(cctx, &stats.InPayload{Client: true, Length: q.Reply, WireLength: q.Reply + 5})
				ch.HandleRPC(cctx, &stats.End{Client: true, Error: outcome[i]})
				pairs[i] = append(pairs[i], pair{trace.FromContext(cctx).SpanContext(), trace.FromContext(sctx).SpanContext()})
			}
		}()
	}
	close(begin)
	wg.Wait()
	dur := time.Since(t0)
	got := map[trace.SpanID]*trace.SpanData{}
	for _, d := range spans.Take() {
		if got[d.SpanID] != nil {
			return Errf("two spans have the ID %v", d.SpanID)
		}
		got[d.SpanID] = d
	}
	var exp []obs.Meas
	total := 0
	for i, q := range c.Callers {
		if errs[i] != nil {
			return errs[i]
		}
		method := crowdMethods[q.Method]
		name := strings.Replace(strings.TrimPrefix(method, "/"), "/", ".", -1)
		tags := map[string]string{}
		if q.Tag {
			tags[k1.Name()] = fmt.Sprint("v", q.Val)
		}
		want := trace.Status{}
		if q.Code != 0 {
			want = trace.Status{Code: int32(q.Code), Message: fmt.Sprint("caller", i)}
		}
		for n, p := range pairs[i] {
			total += 2
			exp = append(exp, expect(true, tags, method, true, true, outcome[i], []int{q.Size}, []int{q.Reply}, dur)...)
			exp = append(exp, expect(false, tags, method, true, true, outcome[i], []int{q.Reply}, []int{q.Size}, dur)...)
			a, b := got[p.client.SpanID], got[p.server.SpanID]
			if a == nil || b == nil {
				return Errf("caller %d: span of call %d missing", i, n)
			}
			if a.Name != name || b.Name != name || a.Status != want || b.Status != want || a.SpanKind != trace.SpanKindClient || b.SpanKind != trace.SpanKindServer {
				return Errf("caller %d, call %d: spans %q (%v) and %q (%v), want %q (%v)", i, n, a.Name, a.Status, b.Name, b.Status, name, want)
			}
			if a.ParentSpanID != (trace.SpanID{}) || b.ParentSpanID != a.SpanID || b.TraceID != a.TraceID || !b.HasRemoteParent {
				return Errf("caller %d, call %d: the server's span %v has the parent %v, the client's span is %v", i, n, b.SpanContext, b.ParentSpanID, a.SpanContext)
			}
			for k, d := range []*trace.SpanData{a, b} {
				var ev []string
				for _, e := range d.MessageEvents {
					ev = append(ev, fmt.Sprint(e.EventType, " ", e.UncompressedByteSize, " ", e.CompressedByteSize))
				}
				out, in := fmt.Sprint(trace.MessageEventTypeSent, " ", q.Size, " ", q.Size+5), fmt.Sprint(trace.MessageEventTypeRecv, " ", q.Reply, " ", q.Reply+5)
				if k == 1 {
					out, in = fmt.Sprint(trace.MessageEventTypeRecv, " ", q.Size, " ", q.Size+5), fmt.Sprint(trace.MessageEventTypeSent, " ", q.Reply, " ", q.Reply+5)
				}
				if fmt.Sprint(ev) != fmt.Sprint([]string{out, in}) {
					return Errf("caller %d, call %d: message events %v, want %v", i, n, ev, []string{out, in})
				}
			}
		}
	}
	if len(got) != total {
		return Errf("%d spans for %d calls", len(got), total/2)
	}
	if err := obs.CheckAll(views, exp); err != nil {
		return err
	}
	cx.NonTrivial(c.Calls > 10)
	cx.Class("callers-%d", len(c.Callers))
	return nil
}
