package pages

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/stats/view"
	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"go.opencensus.io/zpages"
	"pgregory.net/rapid"
)

// Stall is a reader of a page that stops in the middle of it.
type Stall struct {
	Page    string
	After   int    // writes it takes
	How     string // what happens then
	Before  []RPC
	During  []RPC
	Methods int
}

func genStall(t *rapid.T) Stall {
	return Stall{
		Page: Pick(t, "page", "rpcz", "rpcz", "rpcz-summary", "rpcz-text", "rpcz-text", "rpcz-page",
			"tracez", "tracez-summary", "tracez-text", "tracez-spans", "tracez-spans-text"),
		After:   Int(t, "after", 0, Pick(t, "few", 3, 40)),
		How:     Pick(t, "how", "wait", "wait", "fail", "panic"),
		Before:  Slice(t, "before", 1, 8, genRPC),
		During:  Slice(t, "during", 0, 8, genRPC),
		Methods: Int(t, "methods", 1, 8),
	}
}

// halting is a writer that stops.
type halting struct {
	buf     bytes.Buffer
	left    int
	how     string
	once    sync.Once
	halted  chan struct{}
	release chan struct{}
}

func (h *halting) Write(p []byte) (int, error) {
	if h.left--; h.left < 0 {
		h.once.Do(func() { close(h.halted) })
		switch h.how {
		case "wait":
			<-h.release
		case "fail":
			return 0, errors.New("the reader is gone")
		case "panic":
			panic("the reader is gone")
		}
	}
	return h.buf.Write(p)
}

type haltingResponse struct {
	http.ResponseWriter
	h *halting
}

func (r haltingResponse) Write(p []byte) (int, error) { return r.h.Write(p) }

func writePage(page, name string, w *halting) {
	switch page {
	case "rpcz", "tracez":
		mux.ServeHTTP(haltingResponse{httptest.NewRecorder(), w}, httptest.NewRequest("GET", "/debug/"+page+"?zspanname="+name+"&ztype=2", nil))
	case "rpcz-page":
		zpages.WriteHTMLRpczPage(w)
	case "rpcz-summary":
		zpages.WriteHTMLRpczSummary(w)
	case "rpcz-text":
		zpages.WriteTextRpczPage(w)
	case "tracez-summary":
		zpages.WriteHTMLTracezSummary(w)
	case "tracez-text":
		zpages.WriteTextTracezSummary(w)
	case "tracez-spans":
		zpages.WriteHTMLTracezSpans(w, name, 2, 0)
	case "tracez-spans-text":
		zpages.WriteTextTracezSpans(w, name, 2, 0)
	}
}

func execStall(cx *Ctx, c Stall) error {
	log.SetOutput(io.Discard)
	const name = "stalled"
	view.SetReportingPeriod(time.Hour)
	spans := func() {
		ctx, s := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
		s.Annotate(nil, "note")
		_, s2 := trace.StartSpan(ctx, name)
		s2.End()
		s.End()
	}
	calls := func(l []RPC) (map[string]int64, error) {
		n := map[string]int64{}
		if _, _, err := flush(); err != nil {
			return nil, err
		}
		for _, q := range l {
			q.Server, q.Times = false, min(q.Times, 3) // quick to record
			m := fmt.Sprintf("stall/%d", q.Method%c.Methods)
			if err := q.record(m); err != nil {
				return nil, err
			}
			n[m] += int64(max(q.Times, 1))
			known.m[lineKey{m, false}] = &line{} // there from now on
		}
		_, _, err := flush()
		return n, err
	}
	spans()
	before, err := calls(c.Before)
	if err != nil {
		return err
	}
	w := &halting{left: c.After, how: c.How, halted: make(chan struct{}), release: make(chan struct{})}
	read := make(chan struct{})
	go func() {
		defer close(read)
		defer func() { recover() }()
		writePage(c.Page, name, w)
	}()
	select {
	case <-w.halted:
	case <-read:
	}
	if c.How != "wait" {
		<-read
	}
	var during map[string]int64
	worked := make(chan error, 1)
	step := make(chan string, 16)
	go func() {
		step <- "spans"
		spans()
		step <- "recording and exporting"
		var err error
		if during, err = calls(c.During); err != nil {
			worked <- err
			return
		}
		step <- "the page of calls"
		page, err := get("/debug/rpcz")
		if err != nil {
			worked <- err
			return
		}
		rows, _, err := htmlPage(page)
		if err != nil {
			worked <- err
			return
		}
		for m, n := range during {
			if got := rows[lineKey{m, false}]["Count"]; strings.TrimSpace(got) != fmt.Sprint(n) {
				worked <- Errf("while a reader of %s had stopped, %s shows %s calls, want %d", c.Page, m, got, n)
				return
			}
		}
		step <- "the text of calls"
		zpages.WriteTextRpczPage(io.Discard)
		step <- "the page of spans"
		_, err = get("/debug/tracez?ztype=2&zspanname=" + name)
		worked <- err
	}()
	select {
	case err = <-worked:
	case <-time.After(10 * time.Second):
		last := ""
		for len(step) > 0 {
			last = <-step
		}
		err = Errf("a reader of %s stopped (%s) after %d writes, and %s did not get on in 10 s", c.Page, c.How, c.After, last)
	}
	close(w.release)
	if err != nil {
		return err
	}
	<-read
	stopped := false
	select {
	case <-w.halted:
		stopped = true
	default:
	}
	if c.How == "wait" || !stopped {
		page := w.buf.String()
		switch c.Page {
		case "rpcz", "rpcz-page", "rpcz-summary", "rpcz-text":
			var rows map[lineKey]shownLine
			if c.Page == "rpcz-text" {
				rows, err = textPage(page)
			} else {
				rows, _, err = htmlPage(page)
			}
			if err != nil {
				return err
			}
			for m, n := range before {
				got, err := strconv.ParseInt(strings.TrimSpace(rows[lineKey{m, false}]["Count"]), 10, 64)
				if d, ok := during[m]; err != nil || got != n && (!ok || got != d) {
					return Errf("%s read with a stop shows %d calls of %s (%v), want %d or %d", c.Page, got, m, err, n, d)
				}
			}
		case "tracez", "tracez-spans":
			if m := numRE.FindStringSubmatch(page); m == nil || m[2] != fmt.Sprint(len(idRE.FindAllString(page, -1))) {
				return Errf("%s read with a stop says %q and shows %d spans", c.Page, m, len(idRE.FindAllString(page, -1)))
			}
		}
		if c.Page == "rpcz" || c.Page == "tracez" || c.Page == "rpcz-page" {
			if !strings.HasSuffix(strings.TrimSpace(page), "</html>") {
				return Errf("%s read with a stop is not whole: %q", c.Page, page)
			}
		}
	}
	cx.Class("%s-%s", c.How, map[bool]string{true: "stopped", false: "read"}[stopped])
	cx.Class("%s", c.Page)
	cx.NonTrivial(stopped)
	return nil
}

func checkStalls(t *testing.T) {
	Check(t, "Z03", "stalled", Opts{Quick: 400, Thorough: 6000,
		Rule: "a reader of one of the pages, as HTML or as text, that waits, fails or panics after 0-40 writes, while spans are made, calls recorded and exported and the other pages read: all of that gets on, and the page that was waited for is whole and shows one state of each call; non-trivial when the reader stopped within the page"},
		genStall, execStall)
}
