package spans

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	rt "runtime/trace"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// KOp is a step of a program that the execution tracer looks at at times.
type KOp struct {
	Op     string // start, remote, end, on, off
	Ctx    int    // index of a context, modulo their number
	Span   int
	Name   S
	Sample bool
}

// KCase is such a program.
type KCase struct {
	On  bool
	Ops []KOp
}

func genTaskName(t *rapid.T) S {
	if OneIn(t, "odd", 4) {
		return S(rapid.StringMatching(`([ -~]|[a-z]{3}[/?&:.#-]){0,12}`).Draw(t, "oddname"))
	}
	return Pick[S](t, "name", "", "a", "b", "%d", `q"q`, "two words", "Type=x", "é", S(strings.Repeat("long/", 60)))
}

func genTask(t *rapid.T) KCase {
	return KCase{Int(t, "on", 0, 3) > 0, Slice(t, "ops", 4, 24, func(t *rapid.T) KOp {
		return KOp{Op: Pick(t, "op", "start", "start", "start", "remote", "end", "end", "end", "on", "on", "off"), Ctx: Int(t, "ctx", 0, 9), Span: Int(t, "span", 0, 9),
			Name: genTaskName(t), Sample: Bool(t, "sample")}
	})}
}

var (
	taskRE = regexp.MustCompile(`(?m)^.* (TaskBegin|TaskEnd) Time=\d+ ID=(\d+) Parent=(\d+) Type=("(?:[^"\\]|\\.)*")`)

	toolOnce sync.Once
	tool     string
	toolErr  error
)

// task is what the execution trace says of one.
type task struct {
	id, parent uint64
	name       string
	begun      bool
	ends       int
}

// tasks reads the tasks of a trace in the order they appear in.
func tasks(file string) ([]*task, error) {
	toolOnce.Do(func() {
		// this builds it, if need be
		out, err := exec.Command("go", "tool", "-n", "trace").CombinedOutput()
		tool, toolErr = string(bytes.TrimSpace(out)), err
	})
	if toolErr != nil {
		return nil, fmt.Errorf("go tool trace: %v: %s", toolErr, tool)
	}
	out, err := exec.Command(tool, "-d=parsed", file).CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%s: %v: %s", tool, err, out)
	}
	var ts []*task
	byID := map[uint64]*task{}
	for _, m := range taskRE.FindAllSubmatch(out, -1) {
		id, _ := strconv.ParseUint(string(m[2]), 10, 64)
		parent, _ := strconv.ParseUint(string(m[3]), 10, 64)
		name, err := strconv.Unquote(string(m[4]))
		if err != nil {
			return nil, err
		}
		k := byID[id]
		if k == nil {
			k = &task{id: id}
			byID[id] = k
			ts = append(ts, k)
		}
		if string(m[1]) == "TaskEnd" {
			k.ends++
			continue
		}
		if k.begun {
			return nil, Errf("task %d begins twice", id)
		}
		k.begun, k.parent, k.name = true, parent, name
	}
	return ts, nil
}

func execTask(cx *Ctx, c KCase) error {
	type span struct {
		s     *trace.Span
		ended bool
		k     int    // the session it began in, 0 for none
		task  uint64 // when known
	}
	type begin struct {
		s      *span
		name   string
		parent *span // nil for none
	}
	var (
		spans   []*span
		session int
		on      bool
		file    string
		begins  []begin
		ends    map[*span]bool
		total   int
	)
	ctxs := []context.Context{context.Background()}
	of := []*span{nil} // the span whose task a context has
	var buf bytes.Buffer
	dir, err := os.MkdirTemp("", "verif-tasks")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	switchOn := func() error {
		session++
		file = filepath.Join(dir, fmt.Sprint(session))
		begins, ends = nil, map[*span]bool{}
		buf.Reset()
		if err := rt.Start(&buf); err != nil {
			return err
		}
		on = true
		return nil
	}
	switchOff := func() error {
		rt.Stop()
		on = false
		if err := os.WriteFile(file, buf.Bytes(), 0o600); err != nil {
			return err
		}
		ts, err := tasks(file)
		if err != nil {
			return err
		}
		byID := map[uint64]*task{}
		var order []*task
		for _, k := range ts {
			byID[k.id] = k
			if k.begun {
				order = append(order, k)
			}
		}
		if len(order) != len(begins) {
			return Errf("session %d has %d new tasks for %d spans", session, len(order), len(begins))
		}
		for i, b := range begins {
			k := order[i]
			b.s.task = k.id
			if k.name != b.name {
				return Errf("session %d: task %d is %q, the span %q", session, i, k.name, b.name)
			}
			want := ^uint64(0)
			if b.parent != nil {
				want = b.parent.task
			}
			if k.parent != want && !(b.parent == nil && k.parent == 0) {
				return Errf("session %d: task %d %q has parent %d, want %d", session, i, k.name, k.parent, want)
			}
			if (k.ends > 0) != ends[b.s] {
				return Errf("session %d: task %d %q ends %d times, its span ended: %v", session, i, k.name, k.ends, ends[b.s])
			}
			total++
		}
		for _, s := range spans {
			if s.k > 0 && s.k < session && byID[s.task] != nil && (byID[s.task].ends > 0) != ends[s] {
				return Errf("session %d: the task of an earlier session ends: %+v, %v", session, byID[s.task], ends[s])
			}
			if s.k > 0 && s.k < session && byID[s.task] == nil && ends[s] {
				return Errf("session %d: the task of an earlier session does not end", session)
			}
		}
		cx.ClassIf(session > 1, "sessions")
		return nil
	}
	if c.On {
		if err := switchOn(); err != nil {
			return err
		}
	}
	defer func() {
		if on {
			rt.Stop()
		}
	}()
	for _, op := range c.Ops {
		switch op.Op {
		case "start", "remote":
			at := op.Ctx % len(ctxs)
			sampler := trace.NeverSample()
			if op.Sample {
				sampler = trace.AlwaysSample()
			}
			s := &span{}
			var ctx context.Context
			if op.Op == "start" {
				ctx, s.s = trace.StartSpan(ctxs[at], string(op.Name), trace.WithSampler(sampler))
			} else {
				ctx, s.s = trace.StartSpanWithRemoteParent(ctxs[at], string(op.Name), trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{1}}, trace.WithSampler(sampler))
			}
			spans, ctxs = append(spans, s), append(ctxs, ctx)
			if on {
				s.k = session
				begins = append(begins, begin{s, string(op.Name), of[at]})
				of = append(of, s)
			} else {
				of = append(of, of[at])
			}
		case "end":
			if len(spans) == 0 {
				continue
			}
			s := spans[op.Span%len(spans)]
			if s.ended {
				continue
			}
			s.s.End()
			s.ended = true
			if on && s.k > 0 {
				ends[s] = true
			}
		case "on":
			if !on {
				if err := switchOn(); err != nil {
					return err
				}
			}
		case "off":
			if on {
				if err := switchOff(); err != nil {
					return err
				}
			}
		}
	}
	if on {
		if err := switchOff(); err != nil {
			return err
		}
	}
	cx.NonTrivial(total > 1)
	return nil
}

func TestS09(t *testing.T) {
	Check(t, "S09", "tasks", Opts{Quick: 1200, Thorough: 20000,
		Rule: "programs of 4-24 steps that start and end spans, sampled or not, while the execution tracer is switched on and off; its traces are read back by go tool trace; non-trivial with more than one task"},
		genTask, execTask)
}
