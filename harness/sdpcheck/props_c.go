package sdpcheck

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/NodeBoy2/rtspclient/sdp"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- S08 several goroutines ----

type S08 struct {
	M      []Msg
	Bad    []S05 // texts that may be rejected
	Ways   []int // what each goroutine does with each message, in turn
	Shared bool  // the goroutines use the same messages and line lists
	Times  int
}

// s08job is a message with all that several goroutines may read.
type s08job struct {
	m        *sdp.Message
	s        sdp.Session // its lines
	text     []byte
	wantText string
	want     []string
	model    *Msg
}

func newS08job(m *Msg) *s08job {
	j := &s08job{m: m.api(), want: dump(m.api()), model: m}
	j.wantText = strings.Join(normal(m.text(compact)), "\n")
	j.text = []byte(strings.Join(m.text(compact), "\n"))
	for _, l := range m.text(compact) {
		j.s = append(j.s, sdp.Line{Type: sdp.Type(l[0]), Value: []byte(l[2:])})
	}
	return j
}

// do uses the message in one way and says what is wrong.
func (j *s08job) do(way int) string {
	switch way % 6 {
	case 0:
		b := j.m.Append(nil).AppendTo(nil)
		if got := strings.Join(normal(strings.Split(string(b), "\n")), "\n"); got != j.wantText {
			return "the text of the message: " + diff(strings.Split(got, "\n"), strings.Split(j.wantText, "\n"))
		}
	case 1:
		m, err := decode(j.text)
		if err != nil {
			return fmt.Sprintf("the text is rejected: %v\n%s", err, j.text)
		}
		if d := diff(dump(m), j.want); d != "" {
			return "the message of the text: " + d
		}
	case 2:
		m := &sdp.Message{}
		d := sdp.NewDecoder(j.s)
		if err := d.Decode(m); err != nil {
			return fmt.Sprintf("the lines are rejected: %v\n%s", err, j.text)
		}
		if d := diff(dump(m), j.want); d != "" {
			return "the message of the lines: " + d
		}
	case 3:
		if b := j.s.AppendTo(make([]byte, 0, 10)); !bytes.Equal(b, j.text) {
			return fmt.Sprintf("the text of the lines: got %q want %q", b, j.text)
		}
	case 4:
		for _, l := range j.s {
			_ = l.String()
		}
		if !j.s.Equal(j.s) || len(j.s) > 0 && j.s[1:].Equal(j.s) {
			return "Equal of line lists"
		}
		if d := diff(dump(j.m), j.want); d != "" {
			return "the message: " + d
		}
		for _, k := range attrKeys {
			w, has := "", false
			for _, a := range j.model.Attrs {
				if a.K == k {
					w, has = raw(a.V), true
					break
				}
			}
			if j.m.Attribute(k) != w || j.m.Flag(k) != has {
				return fmt.Sprintf("attribute %q: got %q want %q", k, j.m.Attribute(k), w)
			}
		}
	case 5:
		s := j.m.Append(nil)
		m := &sdp.Message{}
		d := sdp.NewDecoder(s)
		if err := d.Decode(m); err != nil {
			return fmt.Sprintf("the lines of the message are rejected: %v", err)
		}
		if d := diff(dump(m), j.want); d != "" {
			return "the message of its lines: " + d
		}
		for i, t := range j.model.Timing {
			if x := m.Timing[i]; ntpOf(x.Start) != t.Start || ntpOf(x.End) != t.End {
				return "times"
			}
		}
	}
	return ""
}

func runS08(r *kit.R, ci any) {
	c := ci.(*S08)
	if len(c.M) == 0 || len(c.Ways) < 2 {
		return
	}
	if len(c.M) > 1 {
		r.NonTrivial()
	}
	r.LabelIf(c.Shared, "shared messages")
	type res struct {
		m   []string
		err string
	}
	try := func(b []byte) res {
		m, err := decode(b)
		if err != nil {
			return res{err: err.Error()}
		}
		return res{m: dump(m)}
	}
	var bad []res
	for _, x := range c.Bad {
		bad = append(bad, try(x.Raw))
	}
	var shared []*s08job
	for i := range c.M {
		shared = append(shared, newS08job(&c.M[i]))
	}
	fails := make([]string, len(c.Ways))
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := range c.Ways {
		jobs := shared
		if !c.Shared {
			jobs = nil
			for i := range c.M {
				jobs = append(jobs, newS08job(&c.M[i]))
			}
		}
		wg.Add(1)
		go func(g int, jobs []*s08job) {
			defer wg.Done()
			<-start
			for n := 0; n < c.Times && fails[g] == ""; n++ {
				for i := range jobs {
					way := c.Ways[(g+i+n)%len(c.Ways)]
					if f := jobs[i].do(way); f != "" {
						fails[g] = fmt.Sprintf("goroutine %d, message %d: %s", g, i, f)
						return
					}
				}
				for i := range c.Bad {
					if x := try(c.Bad[i].Raw); x.err != bad[i].err || diff(x.m, bad[i].m) != "" {
						fails[g] = fmt.Sprintf("goroutine %d: %q gives %v instead of %v", g, c.Bad[i].Raw, x, bad[i])
						return
					}
				}
			}
		}(g, jobs)
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != "" {
			r.Fatalf("with %d goroutines: %s", len(c.Ways), f)
		}
	}
}

func genS08(t *rapid.T) any {
	c := &S08{Shared: rapid.Bool().Draw(t, "shared"), Times: rapid.IntRange(1, 4).Draw(t, "times")}
	for n := rapid.IntRange(1, 4).Draw(t, "messages"); n > 0; n-- {
		c.M = append(c.M, *genMsg(t))
	}
	for n := rapid.IntRange(0, 2).Draw(t, "bad"); n > 0; n-- {
		if x := genS05(t).(*S05); x.Lines == nil {
			c.Bad = append(c.Bad, *x)
		}
	}
	c.Ways = rapid.SliceOfN(rapid.IntRange(0, 5), 2, 6).Draw(t, "ways")
	return c
}

func init() {
	Props = append(Props, &kit.Prop{ID: "S08",
		Rule: "up to 4 random messages that 2 to 6 goroutines encode, decode, compare and look at at the same time, on messages and line lists of their own or shared ones, with texts that are rejected in between; under the race detector; non-trivial: several messages",
		Gen:  genS08, New: func() any { return &S08{} }, Run: runS08, Quick: 6000, Deep: 200000})
}
