package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// worker: one JSON case per line on stdin, one JSON result per line on fd 3.
func worker(t *testing.T, p *Prop) {
	log.SetOutput(io.Discard)
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		res := runCase(t, p, line)
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		if res.Recycle {
			os.Exit(0)
		}
	}
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 256<<10 {
		// keep the head of a crash report: it names the goroutine that crashed
		if i := bytes.Index(t.b, []byte("panic: ")); i >= 0 && i < len(t.b)-64<<10 {
			t.b = t.b[i : i+64<<10 : i+64<<10]
		} else if i < 0 {
			t.b = append([]byte(nil), t.b[len(t.b)-64<<10:]...)
		}
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan []byte
	err   *tail
	n     int
}

func (s *super) start() (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, "-test.run=^TestCheck$", "-test.timeout=0")
	c.Env = append(os.Environ(), "KIT_MODE=worker", "GORACE=halt_on_error=1 exitcode=66")
	c.ExtraFiles = []*os.File{w}
	p := &proc{cmd: c, lines: make(chan []byte, 4), err: &tail{}}
	c.Stderr = p.err
	c.Stdout = io.Discard
	if p.in, err = c.StdinPipe(); err != nil {
		return nil, err
	}
	if err = c.Start(); err != nil {
		return nil, err
	}
	w.Close()
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := br.ReadBytes('\n')
			if err != nil {
				close(p.lines)
				r.Close()
				return
			}
			p.lines <- l
		}
	}()
	return p, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type super struct {
	p       *Prop
	w       *proc
	recycle int
}

// verdicts of an execution
const (
	vOK = iota
	vFail
	vHang // a violation too, but not to be shrunk: each try costs a minute
	vErr
)

// exec runs one case in the worker.
func (s *super) exec(raw []byte) (Result, int) {
	if s.w != nil && s.recycle > 0 && s.w.n >= s.recycle {
		s.w.kill()
		s.w = nil
	}
	for try := 0; s.w == nil; try++ {
		w, err := s.start()
		if err == nil {
			s.w = w
		} else if try > 5 {
			return Result{Err: "worker: " + err.Error()}, vErr
		} else {
			time.Sleep(time.Second)
		}
	}
	w := s.w
	w.n++
	cpu0, _ := cpuTicks(w.cmd.Process.Pid)
	if _, err := w.in.Write(append(raw, '\n')); err != nil {
		return s.dead()
	}
	start := time.Now()
	idle := 0
	last := int64(-1)
	timer := time.NewTimer(20*time.Second + s.p.Slow)
	defer timer.Stop()
	for {
		select {
		case l, ok := <-w.lines:
			if !ok {
				return s.dead()
			}
			var res Result
			if err := json.Unmarshal(l, &res); err != nil {
				return Result{Err: "result: " + err.Error()}, vErr
			}
			if res.Recycle {
				w.kill()
				s.w = nil
			}
			if res.Fail != "" {
				return res, vFail
			}
			if res.Err != "" {
				return res, vErr
			}
			return res, vOK
		case <-timer.C:
			// much too long for any case: find out what the worker does
			timer.Reset(time.Second)
			cpu, runnable := cpuTicks(w.cmd.Process.Pid)
			if cpu-cpu0 > 40*100 && s.p.Slow == 0 || cpu-cpu0 > 400*100 {
				w.kill()
				s.w = nil
				return Result{Fail: "the case does not end: the code under test has used over 40 s of CPU on it"}, vHang
			}
			if last >= 0 && cpu-last <= 1 && !runnable {
				idle++
			} else {
				idle = 0
			}
			last = cpu
			if idle >= 15 {
				syscall.Kill(w.cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				msg := w.err.String()
				w.kill()
				s.w = nil
				return Result{Fail: "the case does not end: every thread sleeps\n" + cut(msg, 3000)}, vHang
			}
			if time.Since(start) > 240*time.Second+s.p.Slow {
				w.kill()
				s.w = nil
				return Result{Err: "no answer in 240 s, neither idle nor busy: machine overloaded?"}, vErr
			}
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// dead classifies the death of the worker.
func (s *super) dead() (Result, int) {
	w := s.w
	s.w = nil
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
	msg := w.err.String()
	st := w.cmd.ProcessState
	ws, _ := st.Sys().(syscall.WaitStatus)
	for _, bad := range []string{"out of memory", "cannot allocate memory", "resource temporarily unavailable", "too many open files"} {
		if strings.Contains(msg, bad) {
			return Result{Err: "worker died of lack of resources: " + cut(msg, 1000)}, vErr
		}
	}
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return Result{Err: "worker was killed"}, vErr
	}
	if i := strings.Index(msg, "WARNING: DATA RACE"); i >= 0 {
		return Result{Fail: "data race\n" + cut(msg[i:], 3500)}, vFail
	}
	if i := strings.Index(msg, "panic: "); i >= 0 {
		first := msg[i:]
		if j := strings.Index(first, "\n\ngoroutine "); j >= 0 {
			g := first[j+2:]
			if k := strings.Index(g, "\n\n"); k >= 0 {
				g = g[:k]
			}
			// a panic of a handler or a protocol that is part of the case is for the code to deal with
			if blame(g) == "harness" && !strings.HasPrefix(first, "panic: planned: ") {
				return Result{Err: "harness crash: " + cut(first, 4000)}, vErr
			}
		}
		return Result{Fail: "the process crashed: " + cut(first, 3500)}, vFail
	}
	if i := strings.Index(msg, "fatal error: "); i >= 0 {
		return Result{Fail: "the process crashed: " + cut(msg[i:], 3500)}, vFail
	}
	return Result{Fail: fmt.Sprintf("the process under test was ended (%v) by the code under test: %s", st, cut(msg, 2000))}, vFail
}

// cpuTicks is the CPU time (1/100 s) of a process and whether a thread of it runs.
func cpuTicks(pid int) (int64, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, true
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	run := false
	ds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	for _, d := range ds {
		if b, err := os.ReadFile(d); err == nil {
			i := bytes.LastIndexByte(b, ')')
			if i+2 < len(b) && b[i+2] != 'S' {
				run = true
			}
		}
	}
	return u + k, run
}

// Stats is what a shard reports.
type Stats struct {
	Evals   int               `json:"evals"`
	Hashes  []string          `json:"hashes"`
	Labels  map[string]int    `json:"labels"`
	Samples []json.RawMessage `json:"samples"`
	Fail    string            `json:"fail,omitempty"`
	Case    json.RawMessage   `json:"case,omitempty"`
	Err     string            `json:"err,omitempty"`
	Done    bool              `json:"done"`
}

func (st *Stats) write() {
	b, _ := json.Marshal(st)
	f := env("OUT")
	os.WriteFile(f+".tmp", b, 0o644)
	os.Rename(f+".tmp", f)
}

func supervise(t *testing.T, p *Prop) {
	s := &super{p: p, recycle: 4000}
	defer func() {
		if s.w != nil {
			s.w.kill()
		}
	}()
	st := &Stats{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	stop := false
	lastWrite := time.Now()
	rec := &recorder{}
	rapid.Check(rec, func(rt *rapid.T) {
		c := p.Gen(rt)
		if stop {
			return
		}
		raw, err := json.Marshal(c)
		if err != nil {
			st.Err, stop = "case: "+err.Error(), true
			return
		}
		res, v := s.exec(raw)
		if v == vErr && (strings.HasPrefix(res.Err, "worker was killed") || strings.HasPrefix(res.Err, "no answer")) {
			res, v = s.exec(raw) // once more
		}
		if v == vErr {
			if st.Fail == "" {
				st.Err = res.Err
				st.Case = raw
			}
			stop = true
			return
		}
		if st.Fail == "" {
			st.Evals++
			for _, l := range res.Labels {
				st.Labels[l]++
			}
			if res.NT {
				h := fnv.New64a()
				h.Write(raw)
				k := h.Sum64()
				if !seen[k] {
					seen[k] = true
					if n := len(seen); n == 1 || n == 10 || n == 100 {
						st.Samples = append(st.Samples, sample(raw))
					}
				}
			}
			if time.Since(lastWrite) > 20*time.Second {
				lastWrite = time.Now()
				st.write()
			}
		}
		if v == vFail || v == vHang {
			if st.Fail == "" || len(raw) < len(st.Case) {
				st.Fail, st.Case = res.Fail, raw
				st.write()
			}
			if res.Small != nil {
				st.Case = res.Small
				st.write()
			}
			if v == vHang || p.Slow > 0 {
				stop = true
			}
			rt.Fatalf("violation")
		}
	})
	for k := range seen {
		st.Hashes = append(st.Hashes, strconv.FormatUint(k, 36))
	}
	sort.Strings(st.Hashes)
	if rec.failed && st.Fail == "" && st.Err == "" {
		st.Err = "rapid: " + cut(rec.msg, 2000)
	}
	st.Done = true
	st.write()
}

func sample(raw []byte) json.RawMessage {
	if len(raw) <= 1500 {
		return raw
	}
	b, _ := json.Marshal(string(raw[:1500]) + "... (" + strconv.Itoa(len(raw)) + " bytes)")
	return b
}

// recorder stands in for testing.T: a violation is no failure of the test binary.
type recorder struct {
	failed bool
	msg    string
}

func (r *recorder) Helper()                   {}
func (r *recorder) Name() string              { return "check" }
func (r *recorder) Logf(f string, a ...any)   { r.msg += fmt.Sprintf(f, a...) + "\n" }
func (r *recorder) Log(a ...any)              { r.msg += fmt.Sprintln(a...) }
func (r *recorder) Skipf(f string, a ...any)  {}
func (r *recorder) Skip(a ...any)             {}
func (r *recorder) SkipNow()                  {}
func (r *recorder) Errorf(f string, a ...any) { r.failed = true; r.msg += fmt.Sprintf(f, a...) + "\n" }
func (r *recorder) Error(a ...any)            { r.failed = true; r.msg += fmt.Sprintln(a...) }
func (r *recorder) Fatalf(f string, a ...any) { r.failed = true; r.msg += fmt.Sprintf(f, a...) + "\n" }
func (r *recorder) Fatal(a ...any)            { r.failed = true; r.msg += fmt.Sprintln(a...) }
func (r *recorder) FailNow()                  { r.failed = true }
func (r *recorder) Fail()                     { r.failed = true }
func (r *recorder) Failed() bool              { return r.failed }

// replay runs the cases in the files named in KIT_FILES (one per line).
func replay(t *testing.T, p *Prop) {
	s := &super{p: p}
	defer func() {
		if s.w != nil {
			s.w.kill()
		}
	}()
	type one struct {
		File string `json:"file"`
		Fail string `json:"fail,omitempty"`
		Err  string `json:"err,omitempty"`
	}
	var all []one
	for _, f := range strings.Split(env("FILES"), "\n") {
		if f == "" {
			continue
		}
		b, err := os.ReadFile(f)
		o := one{File: f}
		if err == nil {
			var doc struct {
				Case json.RawMessage `json:"case"`
			}
			if err = json.Unmarshal(b, &doc); err == nil {
				var cb bytes.Buffer
				if err = json.Compact(&cb, doc.Case); err == nil {
					res, _ := s.exec(cb.Bytes())
					o.Fail, o.Err = res.Fail, res.Err
				}
			}
		}
		if err != nil {
			o.Err = err.Error()
		}
		all = append(all, o)
		if o.Fail != "" {
			break
		}
	}
	b, _ := json.Marshal(all)
	os.WriteFile(env("OUT"), b, 0o644)
}
