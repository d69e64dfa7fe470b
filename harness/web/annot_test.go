package web

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptrace"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// TraceEvent is one httptrace callback.
type TraceEvent struct {
	Hook int
	A, B bool
	S    S
	D    int
	Err  bool
}

// AnnotCase is a sequence of them on two interleaved requests.
type AnnotCase struct {
	Old    bool // the deprecated constructor
	Events []TraceEvent
	Which  []bool
}

func genAnnot(t *rapid.T) AnnotCase {
	c := AnnotCase{Old: Bool(t, "old")}
	c.Events = Slice(t, "events", 0, 24, func(t *rapid.T) TraceEvent {
		return TraceEvent{Hook: Int(t, "hook", 0, 13), A: Bool(t, "a"), B: Bool(t, "b"), S: Pick[S](t, "s", "", "host:80", "h\u00fc", "10.0.0.1"), D: Int(t, "d", 0, 3000000), Err: Bool(t, "err")}
	})
	for range c.Events {
		c.Which = append(c.Which, Bool(t, "which"))
	}
	return c
}

func execAnnot(cx *Ctx, c AnnotCase) error {
	var want [2][]string
	var hooks [2]*httptrace.ClientTrace
	var sp [2]*trace.Span
	for i := range sp {
		_, sp[i] = trace.StartSpan(context.Background(), "annotated", trace.WithSampler(trace.AlwaysSample()))
		req, _ := http.NewRequest("GET", "http://h/", nil)
		if c.Old {
			hooks[i] = ochttp.NewSpanAnnotator(req, sp[i])
		} else {
			hooks[i] = ochttp.NewSpanAnnotatingClientTrace(req, sp[i])
		}
	}
	for i, e := range c.Events {
		w := 0
		if c.Which[i] {
			w = 1
		}
		h := hooks[w]
		var err error
		if e.Err {
			err = errors.New("broke")
		}
		attrs := map[string]interface{}{}
		fail := func(k string) {
			if err != nil {
				attrs["httptrace."+k+".error"] = "broke"
			}
		}
		name := ""
		switch e.Hook {
		case 0:
			name = "GetConn"
			h.GetConn(string(e.S))
			attrs["httptrace.get_connection.host_port"] = string(e.S)
		case 1:
			name = "GotConn"
			d := time.Duration(e.D) * time.Microsecond
			h.GotConn(httptrace.GotConnInfo{Reused: e.A, WasIdle: e.B, IdleTime: d})
			attrs["httptrace.got_connection.reused"], attrs["httptrace.got_connection.was_idle"] = e.A, e.B
			if e.B {
				attrs["httptrace.got_connection.idle_time"] = d.String()
			}
		case 2:
			name = "PutIdleConn"
			h.PutIdleConn(err)
			fail("put_idle_connection")
		case 3:
			name = "GotFirstResponseByte"
			h.GotFirstResponseByte()
		case 4:
			name = "Got100Continue"
			h.Got100Continue()
		case 5:
			name = "DNSStart"
			h.DNSStart(httptrace.DNSStartInfo{Host: string(e.S)})
			attrs["httptrace.dns_start.host"] = string(e.S)
		case 6:
			name = "DNSDone"
			var addrs []net.IPAddr
			var l []string
			for k := 0; k < e.D%4; k++ {
				a := net.IPAddr{IP: net.IPv4(10, 0, 0, byte(k))}
				addrs, l = append(addrs, a), append(l, fmt.Sprint("10.0.0.", k))
			}
			h.DNSDone(httptrace.DNSDoneInfo{Addrs: addrs, Err: err, Coalesced: e.A})
			attrs["httptrace.dns_done.addrs"] = strings.Join(l, " , ")
			fail("dns_done")
		case 7:
			name = "ConnectStart"
			h.ConnectStart("tcp", string(e.S))
			attrs["httptrace.connect_start.network"], attrs["httptrace.connect_start.addr"] = "tcp", string(e.S)
		case 8:
			name = "ConnectDone"
			h.ConnectDone("unix", string(e.S), err)
			attrs["httptrace.connect_done.network"], attrs["httptrace.connect_done.addr"] = "unix", string(e.S)
			fail("connect_done")
		case 9:
			name = "TLSHandshakeStart"
			h.TLSHandshakeStart()
		case 10:
			name = "TLSHandshakeDone"
			h.TLSHandshakeDone(tls.ConnectionState{}, err)
			fail("tls_handshake_done")
		case 11:
			name = "WroteHeaders"
			h.WroteHeaders()
		case 12:
			name = "Wait100Continue"
			h.Wait100Continue()
		case 13:
			name = "WroteRequest"
			h.WroteRequest(httptrace.WroteRequestInfo{Err: err})
			fail("wrote_request")
		}
		want[w] = append(want[w], note(name, attrs))
	}
	for i := range sp {
		spans.Take()
		sp[i].End()
		l := spans.Take()
		if len(l) != 1 {
			return Errf("%d spans exported", len(l))
		}
		var got []string
		for _, a := range l[0].Annotations {
			got = append(got, note(a.Message, a.Attributes))
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want[i]) {
			return Errf("the events leave the annotations\n%q, want\n%q", got, want[i])
		}
	}
	cx.NonTrivial(len(c.Events) > 1)
	for _, e := range c.Events {
		cx.Class("hook-%d", e.Hook)
	}
	return nil
}

func note(name string, attrs map[string]interface{}) string {
	var l []string
	for k, v := range attrs {
		l = append(l, fmt.Sprintf("%s=%v(%T)", k, v, v))
	}
	sort.Strings(l)
	return name + "{" + strings.Join(l, ",") + "}"
}
