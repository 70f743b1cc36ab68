// Package kit drives the property checks: a supervisor lets rapid generate
// (and shrink) cases and sends each one to a worker process, which runs it
// against the code under test. The worker is a separate process because code
// under test that panics in a goroutine of its own, calls log.Fatal or spins
// takes its process with it, and that has to be an observation, not the end of
// the check.
package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property check.
type Prop struct {
	ID     string
	Rule   string               // how cases are made, what is non-trivial
	Gen    func(t *rapid.T) any // draws a case (JSON-able)
	New    func() any           // a pointer to an empty case, to unmarshal into
	Run    func(r *R, c any)    // runs the case, in the worker
	Bubble bool                 // run inside a synctest bubble (fake clock)
	Leak   bool                 // goroutines left over in the bubble are a violation
	NoDL   bool                 // a deadlock of the bubble is an error of the check
	Quick  int                  // cases in the quick tier (all shards)
	Deep   int                  // cases in the thorough tier (all shards)
	Shards int                  // 0: 6
	Fuzz   bool                 // thorough tier: coverage-guided fuzzing of what Gen draws
	Bytes  func(b []byte) any   // ... of these bytes instead
	Seeds  []string             // ... beginning with these
	Slow   time.Duration        // what a case may take; it is not shrunk, but reduced by itself (Reduce)
}

// R collects what a case showed.
type R struct {
	mu     sync.Mutex
	fail   string
	nt     bool
	labels []string
	cost   int
	small  any
	T      *testing.T
}

// Reduce tells that this smaller case fails, too.
func (r *R) Reduce(c any) { r.small = c }

type abort struct{}

// IsAbort tells whether a panic is that of Fatalf.
func IsAbort(e any) bool { _, ok := e.(abort); return ok }

// Merge takes over what another one collected.
func (r *R) Merge(x *R) {
	if x.Failed() {
		r.Failf("%s", x.fail)
	}
	if x.nt {
		r.NonTrivial()
	}
	for _, l := range x.labels {
		r.Label(l)
	}
}

// Failf records a violation (the first one counts).
func (r *R) Failf(f string, a ...any) {
	r.mu.Lock()
	if r.fail == "" {
		r.fail = fmt.Sprintf(f, a...)
		if len(r.fail) > 4000 {
			r.fail = r.fail[:4000] + "..."
		}
	}
	r.mu.Unlock()
}

// Fatalf records a violation and ends the case; main goroutine of the case only.
func (r *R) Fatalf(f string, a ...any) { r.Failf(f, a...); panic(abort{}) }

// Failed tells whether a violation is recorded.
func (r *R) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.fail != "" }

// NonTrivial marks the case.
func (r *R) NonTrivial() { r.mu.Lock(); r.nt = true; r.mu.Unlock() }

// Label classifies the case.
func (r *R) Label(l string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.labels {
		if x == l {
			return
		}
	}
	r.labels = append(r.labels, l)
}

// LabelIf labels the case when c holds.
func (r *R) LabelIf(c bool, l string) {
	if c {
		r.Label(l)
	}
}

// Result travels from the worker to the supervisor.
type Result struct {
	Fail    string          `json:"fail,omitempty"`
	Err     string          `json:"err,omitempty"` // error of the check itself
	NT      bool            `json:"nt,omitempty"`
	Labels  []string        `json:"labels,omitempty"`
	Recycle bool            `json:"recycle,omitempty"`
	Small   json.RawMessage `json:"small,omitempty"`
}

const repoPath = "github.com/NodeBoy2/rtspclient"
const harnessPath = "verif/harness"

// blame tells whose code panicked: the innermost frame (after the panic) that
// belongs to the code under test or to the harness.
func blame(stack string) string {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, repoPath) || strings.Contains(l, "("+repoPath) {
			return "code"
		}
		if strings.HasPrefix(l, harnessPath) {
			return "harness"
		}
	}
	return "unknown"
}

func body(p *Prop, r *R, c any, errp *string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			st := string(debug.Stack())
			if blame(st) == "harness" {
				*errp = fmt.Sprintf("harness panic: %v\n%s", e, st)
				return
			}
			r.Failf("panic: %v\n%s", e, st)
		}
	}()
	p.Run(r, c)
}

func runCase(t *testing.T, p *Prop, raw []byte) (res Result) {
	c := p.New()
	if err := json.Unmarshal(raw, c); err != nil {
		return Result{Err: "case: " + err.Error()}
	}
	r := &R{T: t}
	var herr string
	if p.Bubble {
		func() {
			defer func() {
				if e := recover(); e != nil {
					s := fmt.Sprint(e)
					res.Recycle = true
					switch {
					case strings.Contains(s, "main bubble goroutine has exited"):
						if p.Leak {
							r.Failf("goroutines of the library are left blocked for ever after the end of the case: %s", s)
						}
						r.Label("leak")
					case strings.Contains(s, "deadlock"):
						if p.NoDL {
							herr = s
						} else {
							r.Failf("deadlock, the case can never finish: %s", s)
						}
					default:
						herr = "bubble: " + s
					}
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				r.T = t
				body(p, r, c, &herr)
			})
		}()
	} else {
		body(p, r, c, &herr)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	res.Fail, res.NT, res.Labels = r.fail, r.nt, r.labels
	if r.small != nil {
		res.Small, _ = json.Marshal(r.small)
	}
	if herr != "" && res.Fail == "" {
		res.Err = herr
	}
	return res
}

func env(k string) string { return os.Getenv("KIT_" + k) }

// Main is the entry point of a check binary.
func Main(t *testing.T, props []*Prop) {
	id := env("PROP")
	if id == "" {
		t.Skip("run through check.py")
	}
	for _, p := range props {
		if p.ID == id {
			switch env("MODE") {
			case "worker":
				worker(t, p)
			case "check":
				supervise(t, p)
			case "replay":
				replay(t, p)
			case "info":
				b, _ := json.Marshal(map[string]any{"rule": p.Rule, "quick": p.Quick, "deep": p.Deep, "shards": p.Shards, "fuzz": p.Fuzz || p.Bytes != nil})
				os.WriteFile(env("OUT"), b, 0o644)
			default:
				t.Fatal("KIT_MODE?")
			}
			return
		}
	}
	t.Fatalf("no property %s here", id)
}
