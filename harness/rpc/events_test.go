package rpc

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/tag"
	"go.opencensus.io/verif/obs"
	. "go.opencensus.io/verif/prop"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// Ev is one event of one RPC.
type Ev struct {
	RPC  int
	Kind string
	N    int
	Code uint32
}

// EvRPC is one RPC.
type EvRPC struct {
	Client bool
	Method S
	Tags   []TagSet
	Own    bool // a server's context has tags of its own
}

// EvCase is an interleaving of events.
type EvCase struct {
	RPCs   []EvRPC
	Events []Ev
}

func genEvMethod(t *rapid.T) S {
	if OneIn(t, "odd", 4) {
		return Pick[S](t, "method", "", "/", "noslash", "///")
	}
	return genMethod(t)
}

func genEvents(t *rapid.T) EvCase {
	c := EvCase{RPCs: Slice(t, "rpcs", 1, 5, func(t *rapid.T) EvRPC {
		return EvRPC{Client: Bool(t, "client"), Method: genEvMethod(t), Tags: genTags(t), Own: OneIn(t, "own", 3)}
	})}
	c.Events = Slice(t, "events", 1, 30, func(t *rapid.T) Ev {
		return Ev{RPC: Int(t, "rpc", 0, len(c.RPCs)-1), Kind: Pick(t, "kind", "out", "out", "in", "in", "outheader", "inheader", "intrailer", "outtrailer", "end", "stray"),
			N: Pick(t, "n", 0, 1, 100, 1024, 5000), Code: Pick[uint32](t, "code", 0, 0, 1, 2, 4, 7, 13, 16, 17, 100, 1<<31, 1<<32-1)}
	})
	return c
}

func execEvents(cx *Ctx, c EvCase) error {
	if err := obs.Reset(views); err != nil {
		return err
	}
	ch, sh := &ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{}
	type state struct {
		ctx        context.Context
		sent, recv []int
		began      bool
		ended      bool
		t0, t1     time.Time
		err        error
		tags       map[string]string
	}
	var exp []obs.Meas
	rpcs := make([]*state, len(c.RPCs))
	handler := func(i int) stats.Handler {
		if c.RPCs[i].Client {
			return ch
		}
		return sh
	}
	for _, e := range c.Events {
		q := c.RPCs[e.RPC]
		s := rpcs[e.RPC]
		if e.Kind == "stray" { // a context that never went through TagRPC
			for _, x := range []stats.RPCStats{&stats.Begin{Client: q.Client}, &stats.OutPayload{Length: 1}, &stats.InPayload{Length: 1}, &stats.End{Client: q.Client}} {
				handler(e.RPC).HandleRPC(context.Background(), x)
			}
			cx.Class("stray")
			continue
		}
		if s == nil {
			s = &state{t0: time.Now(), began: true, tags: map[string]string{}}
			rpcs[e.RPC] = s
			ctx := context.Background()
			if q.Client {
				var err error
				if ctx, err = tag.New(ctx, muts(q.Tags)...); err != nil {
					return err
				}
				s.tags = tagsOf(ctx)
			} else if q.Own {
				ctx, _ = tag.New(ctx, tag.Upsert(k1, "own"))
				cx.Class("own-tags")
			}
			s.ctx = handler(e.RPC).TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: string(q.Method)})
			handler(e.RPC).HandleRPC(s.ctx, &stats.Begin{Client: q.Client})
		}
		if s.ended { // messages may be reported late and no longer count
			switch e.Kind {
			case "out":
				handler(e.RPC).HandleRPC(s.ctx, &stats.OutPayload{Client: q.Client, Length: e.N, WireLength: e.N + 5})
			case "in":
				handler(e.RPC).HandleRPC(s.ctx, &stats.InPayload{Client: q.Client, Length: e.N, WireLength: e.N + 5})
			default:
				continue
			}
			cx.Class("late")
			continue
		}
		var x stats.RPCStats
		switch e.Kind {
		case "out":
			x = &stats.OutPayload{Client: q.Client, Length: e.N, WireLength: e.N + 5}
			s.sent = append(s.sent, e.N)
		case "in":
			x = &stats.InPayload{Client: q.Client, Length: e.N, WireLength: e.N + 5}
			s.recv = append(s.recv, e.N)
		case "outheader":
			x = &stats.OutHeader{Client: q.Client}
		case "inheader":
			x = &stats.InHeader{Client: q.Client, WireLength: 77}
		case "intrailer":
			x = &stats.InTrailer{Client: q.Client, WireLength: 77}
		case "outtrailer":
			x = &stats.OutTrailer{Client: q.Client}
		case "end":
			s.err = status.Error(codes.Code(e.Code), "text")
			s.ended = true
			x = &stats.End{Client: q.Client, Error: s.err}
		}
		handler(e.RPC).HandleRPC(s.ctx, x)
		s.t1 = time.Now()
	}
	n := 0
	for i, s := range rpcs {
		if s == nil {
			continue
		}
		n++
		exp = append(exp, expect(c.RPCs[i].Client, s.tags, string(c.RPCs[i].Method), s.began, s.ended, s.err, s.sent, s.recv, s.t1.Sub(s.t0))...)
	}
	if err := obs.CheckAll(views, exp); err != nil {
		return err
	}
	cx.Class("rpcs-%d", n)
	cx.ClassIf(strings.Contains(fmt.Sprint(c.Events), "end"), "ended")
	cx.NonTrivial(n > 1)
	return nil
}

// ParRPC is an RPC whose events come from several goroutines.
type ParRPC struct {
	EvRPC
	Workers [][]int // sizes of messages: sent, or received if negative
	Repeat  int
	Late    []int
	Code    uint32
}

// ParCase has rounds of RPCs, those of one round at once.
type ParCase struct{ Rounds [][]ParRPC }

func genPar(t *rapid.T) ParCase {
	sizes := func(t *rapid.T) int { return Pick(t, "n", 1, -1, 100, -100, 1024, -5000, 0) }
	return ParCase{Rounds: Slice(t, "rounds", 1, 4, func(t *rapid.T) []ParRPC {
		return Slice(t, "rpcs", 1, 4, func(t *rapid.T) ParRPC {
			return ParRPC{EvRPC: EvRPC{Client: Bool(t, "client"), Method: genEvMethod(t), Tags: genTags(t), Own: OneIn(t, "own", 3)},
				Workers: Slice(t, "workers", 1, 4, func(t *rapid.T) []int { return Slice(t, "sizes", 0, 5, sizes) }), Repeat: Pick(t, "repeat", 1, 1, 20, 200),
				Late: Slice(t, "late", 0, 3, sizes), Code: Pick[uint32](t, "code", 0, 0, 2, 13)}
		})
	})}
}

func execPar(cx *Ctx, c ParCase) error {
	if err := obs.Reset(views); err != nil {
		return err
	}
	ch, sh := &ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{}
	var (
		mu   sync.Mutex
		exp  []obs.Meas
		errs []error
		late sync.WaitGroup
	)
	one := func(q ParRPC) error {
		var h stats.Handler = sh
		ctx := context.Background()
		tags := map[string]string{}
		t0 := time.Now()
		if q.Client {
			h = ch
			var err error
			if ctx, err = tag.New(ctx, muts(q.Tags)...); err != nil {
				return err
			}
			tags = tagsOf(ctx)
		} else if q.Own {
			ctx, _ = tag.New(ctx, tag.Upsert(k1, "own"))
		}
		ctx = h.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: string(q.Method)})
		h.HandleRPC(ctx, &stats.Begin{Client: q.Client})
		msg := func(n int) {
			if n < 0 {
				h.HandleRPC(ctx, &stats.InPayload{Client: q.Client, Length: -n, WireLength: -n})
			} else {
				h.HandleRPC(ctx, &stats.OutPayload{Client: q.Client, Length: n, WireLength: n})
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		var sent, recv []int
		for _, w := range q.Workers {
			for i := 0; i < q.Repeat; i++ {
				for _, n := range w {
					if n < 0 {
						recv = append(recv, -n)
					} else {
						sent = append(sent, n)
					}
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < q.Repeat; i++ {
					for _, n := range w {
						msg(n)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		e := status.Error(codes.Code(q.Code), "text")
		h.HandleRPC(ctx, &stats.End{Client: q.Client, Error: e})
		x := expect(q.Client, tags, string(q.Method), true, true, e, sent, recv, time.Since(t0))
		late.Add(1)
		go func() {
			defer late.Done()
			for _, n := range q.Late {
				msg(n)
			}
		}()
		mu.Lock()
		exp = append(exp, x...)
		mu.Unlock()
		return nil
	}
	n := 0
	for _, r := range c.Rounds {
		var wg sync.WaitGroup
		for _, q := range r {
			cx.ClassIf(len(q.Late) > 0, "late")
			cx.ClassIf(q.Repeat*len(q.Workers) > 20, "contended")
			n++
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := one(q); err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	late.Wait()
	if len(errs) > 0 {
		return errs[0]
	}
	cx.NonTrivial(n > 1)
	return obs.CheckAll(views, exp)
}
