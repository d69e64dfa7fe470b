// Package prop is the small framework the property checks share: it drives a
// rapid generator, runs a pure oracle over each generated (JSON-able) case,
// records what was generated, and leaves the shrunk failing case behind as a
// replay file.
package prop

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to an oracle: it collects the classes of a case.
type Ctx struct {
	T          *testing.T
	classes    []string
	nontrivial bool
	known      []string
	knownSet   map[string]bool
}

// Class notes that the case belongs to a class (for the distribution report).
func (c *Ctx) Class(format string, a ...interface{}) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	c.classes = append(c.classes, format)
}

// ClassIf notes the class when cond holds.
func (c *Ctx) ClassIf(cond bool, name string) {
	if cond {
		c.classes = append(c.classes, name)
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Known reports whether finding key is listed in the committed known-findings
// file; when it is, the occurrence is noted so that the driver prints it.
func (c *Ctx) Known(key string) bool {
	if c.knownSet[key] {
		c.known = append(c.known, key)
		return true
	}
	return false
}

// Opts sets the sizes of one sub-check.
type Opts struct {
	Quick, Thorough int
	Rule            string
}

type subReport struct {
	Property    string         `json:"property"`
	Sub         string         `json:"sub"`
	Evaluations int            `json:"evaluations"`
	Regress     int            `json:"saved_cases_replayed"`
	Distinct    int            `json:"distinct_nontrivial"`
	Nontrivial  int            `json:"nontrivial"`
	Rule        string         `json:"rule"`
	Classes     map[string]int `json:"classes"`
	Samples     []interface{}  `json:"samples"`
	Known       map[string]int `json:"known"`
	Failed      bool           `json:"failed"`
	Error       string         `json:"error,omitempty"`
	Replay      string         `json:"replay,omitempty"`
	InfraError  string         `json:"infra_error,omitempty"`
	WallS       float64        `json:"wall_s"`
}

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Seed     string          `json:"seed,omitempty"`
	Case     json.RawMessage `json:"case"`
}

var outDir = os.Getenv("VERIF_OUT")

func seed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	n += 0x9e3779b97f4a7c15
	n = (n ^ (n >> 30)) * 0xbf58476d1ce4e5b9
	n = (n ^ (n >> 27)) * 0x94d049bb133111eb
	n ^= n >> 31
	n >>= 8
	if n == 0 {
		n = 1
	}
	return n
}

// Thorough reports whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// HangLimit is the real time one case may take before the process gives up
// with exit code 77 (the driver then decides by re-running the case alone).
const HangLimit = 60 * time.Second

var (
	watchMu    sync.Mutex
	watchTimer *time.Timer
)

func watchStart() {
	watchMu.Lock()
	if watchTimer == nil {
		watchTimer = time.AfterFunc(HangLimit, hang)
	} else {
		watchTimer.Reset(HangLimit)
	}
	watchMu.Unlock()
}

func watchStop() {
	watchMu.Lock()
	watchTimer.Stop()
	watchMu.Unlock()
}

func hang() {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "VERIF-HANG: a case ran for more than %v\n%s\n", HangLimit, buf[:n])
	os.Exit(77)
}

func writeCurrent(f *os.File, b []byte) {
	if f == nil {
		return
	}
	f.Truncate(0)
	f.WriteAt(b, 0)
}

// Check runs one sub-check of property id.
func Check[C any](t *testing.T, id, sub string, o Opts, gen func(*rapid.T) C, exec func(*Ctx, C) error) {
	t.Helper()
	knownSet := map[string]bool{}
	for _, k := range splitComma(os.Getenv("VERIF_KNOWN")) {
		knownSet[k] = true
	}
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		replay(t, rp, id, sub, knownSet, exec)
		return
	}
	checks := o.Quick
	if Thorough() && o.Thorough > 0 {
		checks = o.Thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if x, err := strconv.ParseFloat(s, 64); err == nil {
			checks = int(float64(checks)*x) + 1
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.seed", strconv.FormatUint(seed(), 10))
	flag.Set("rapid.nofailfile", "true")
	st := os.Getenv("VERIF_SHRINK")
	if st == "" {
		st = "12s"
	}
	flag.Set("rapid.shrinktime", st)

	rep := &subReport{Property: id, Sub: sub, Rule: o.Rule, Classes: map[string]int{}, Known: map[string]int{}}
	distinct := map[[12]byte]struct{}{}
	var lastFail []byte
	var lastErr string
	start := time.Now()
	var cur *os.File
	if outDir != "" {
		cur, _ = os.Create(filepath.Join(outDir, "current-"+id+"-"+sub+".json"))
	}
	var failed atomic.Bool
	nextSample := 1
	defer func() {
		rep.WallS = time.Since(start).Seconds()
		rep.Distinct = len(distinct)
		if lastErr != "" {
			fmt.Printf("property %s/%s violated: %s\ncase: %s\n", id, sub, lastErr, lastFail)
			rep.Failed = true
			rep.Error = lastErr
			rep.Replay = writeReplay(id, sub, lastErr, lastFail)
		} else if t.Failed() {
			rep.InfraError = "the generator failed or produced too few valid cases"
		}
		if cur != nil {
			cur.Close()
			if lastErr == "" {
				os.Remove(cur.Name())
			}
		}
		writeReport(rep)
	}()
	defer func() {
		if outDir == "" || len(distinct) == 0 {
			return
		}
		b := make([]byte, 0, 12*len(distinct))
		for k := range distinct {
			b = append(b, k[:]...)
		}
		os.WriteFile(filepath.Join(outDir, "hashes-"+id+"-"+sub+".bin"), b, 0o644)
	}()
	if dir := os.Getenv("VERIF_REGRESS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, id+"-"+sub+"-*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			var rf replayFile
			var c C
			if err == nil {
				err = json.Unmarshal(b, &rf)
			}
			if err == nil {
				err = json.Unmarshal(rf.Case, &c)
			}
			if err != nil {
				t.Fatalf("VERIF-INFRA: %s: %v", f, err)
			}
			env, _ := json.Marshal(replayFile{Property: id, Sub: sub, Case: rf.Case})
			writeCurrent(cur, env)
			cx := &Ctx{T: t, knownSet: knownSet}
			watchStart()
			err = protect(cx, c, exec)
			watchStop()
			rep.Regress++
			if err != nil {
				lastFail, lastErr = rf.Case, err.Error()
				t.Fatalf("saved case %s: %v", f, err)
			}
		}
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := gen(rt)
		js, err := json.Marshal(c)
		if err != nil {
			panic("verif: case is not JSON-able: " + err.Error())
		}
		// Run what a replay would run, so that a saved case is faithful.
		var c2 C
		if err := json.Unmarshal(js, &c2); err != nil {
			panic("verif: case does not decode: " + err.Error())
		}
		env, _ := json.Marshal(replayFile{Property: id, Sub: sub, Case: js})
		writeCurrent(cur, env)
		cx := &Ctx{T: t, knownSet: knownSet}
		watchStart()
		err = protect(cx, c2, exec)
		watchStop()
		if !failed.Load() {
			rep.Evaluations++
			for _, k := range uniq(cx.classes) {
				rep.Classes[k]++
			}
			for _, k := range uniq(cx.known) {
				rep.Known[k]++
			}
			if cx.nontrivial {
				rep.Nontrivial++
				h := sha256.Sum256(js)
				var k [12]byte
				copy(k[:], h[:])
				distinct[k] = struct{}{}
				if rep.Nontrivial == nextSample && len(rep.Samples) < 4 {
					nextSample *= 8
					var v interface{}
					if len(js) < 3000 {
						json.Unmarshal(js, &v)
						rep.Samples = append(rep.Samples, v)
					} else {
						nextSample = rep.Nontrivial + 1
						if len(rep.Samples) == 0 && rep.Nontrivial > 200 {
							rep.Samples = append(rep.Samples, string(js[:3000])+"...")
						}
					}
				}
			}
		}
		if err != nil {
			failed.Store(true)
			lastFail, lastErr = js, err.Error()
			// A constant message: rapid compares messages when it shrinks.
			rt.Fatalf("property %s violated", id)
		}
	})
}

func splitComma(s string) []string {
	var out []string
	cur := ""
	for _, r := range s {
		if r == ',' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(r)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func uniq(in []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range in {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	return out
}

func protect[C any](cx *Ctx, c C, exec func(*Ctx, C) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return exec(cx, c)
}

func trimStack(b []byte) string {
	if len(b) > 4000 {
		b = b[:4000]
	}
	return string(b)
}

// Bubble runs f inside a synctest bubble (fake clock, own goroutines) and
// returns its error; a panic of f or a deadlock of the bubble is an error.
func Bubble(cx *Ctx, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("bubble panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	var ierr error
	synctest.Test(cx.T, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				ierr = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		ierr = f()
	})
	return ierr
}

func writeReplay(id, sub, msg string, js []byte) string {
	if outDir == "" {
		return ""
	}
	p := filepath.Join(outDir, fmt.Sprintf("replay-%s-%s.json", id, sub))
	b, _ := json.MarshalIndent(replayFile{Property: id, Sub: sub, Error: msg, Seed: os.Getenv("VERIF_SEED"), Case: js}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeReport(r *subReport) {
	if outDir == "" {
		var ks []string
		for k, n := range r.Classes {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(ks)
		fmt.Printf("%s/%s evals=%d nontrivial=%d distinct=%d wall=%.1fs classes=%v known=%v\n", r.Property, r.Sub, r.Evaluations, r.Nontrivial, r.Distinct, r.WallS, ks, r.Known)
		return
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(filepath.Join(outDir, "report-"+r.Property+"-"+r.Sub+".json"), b, 0o644)
}

func replay[C any](t *testing.T, path, id, sub string, knownSet map[string]bool, exec func(*Ctx, C) error) {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("VERIF-INFRA: %v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		t.Fatalf("VERIF-INFRA: %v", err)
	}
	if rf.Property != id || rf.Sub != sub {
		t.Skip()
	}
	var c C
	if err := json.Unmarshal(rf.Case, &c); err != nil {
		t.Fatalf("VERIF-INFRA: %v", err)
	}
	n := 1
	if s := os.Getenv("VERIF_REPLAY_N"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	for i := 0; i < n; i++ {
		cx := &Ctx{T: t, knownSet: knownSet}
		watchStart()
		err := protect(cx, c, exec)
		watchStop()
		if err != nil {
			t.Fatalf("VERIF-REPLAY-FAILED: %v", err)
		}
	}
	fmt.Println("VERIF-REPLAY-PASSED")
}
