package rtspcheck

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	rtsp "github.com/NodeBoy2/rtspclient"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- R11 several sessions at the same time ----

type R11 struct {
	Rounds []Round
	Delay  []int  // ms until each one starts
	Ctls   []Ctl  // requests behind each handshake
	Media  bool   // the handlers look at the medias
	Glue   []bool // the data comes right behind the response to PLAY
	Early  bool   // data of the first media comes while the others are set up
}

// alone plays one stream; wait gives everything else the time to come to rest.
func (c *R11) alone(r *kit.R, i int, wait func()) Seen {
	x := &c.Rounds[i]
	p := &x.P
	a := newApp()
	seen, told := 0, 0 // each used by one goroutine
	a.onData = func(d *rtsp.RtspData) {
		if c.Media {
			if m, ok := d.Session.RtpMediaMap[d.ChannelNum]; ok {
				seen += len(m.CodecName)
			}
		}
	}
	a.onEvent = func(e *rtsp.RtspEvent) {
		if c.Media && e.EventType == evSuccess {
			told += len(e.Session.RtpMediaMap)
		}
	}
	glue, glued := len(c.Glue) > 0 && c.Glue[i%len(c.Glue)], false
	s := newServer(nil)
	s.Handle = func(i int, q *Req) {
		time.Sleep(p.lat(i))
		if i == x.F.At {
			x.F.apply(p, s, p.resp(q))
		} else {
			p.feed(s, p.resp(q).bytes(p.Style))
			if q.Method == "SETUP" && c.Early {
				pl := pattern(20, i)
				pl[0] = 0x65
				p.feed(s, frame(0, RTP{Seq: i, PT: 96, Ext: -1, Payload: pl, Marker: true}.bytes()))
			}
			if q.Method == "PLAY" && !glued && glue {
				glued = true
				x.data(p, s)
			}
		}
	}
	err := a.play(p, s)
	wait()
	medias := fmt.Sprintf("%v", a.sess.RtpMediaMap)
	if err == nil {
		for _, k := range c.Ctls {
			if k.send(a.sess, p.U.Base()) == nil {
				a.sess.WaitRtspResponse()
			}
		}
	}
	wait()
	if !glue {
		x.data(p, s)
	}
	wait()
	switch x.How {
	case 1:
		s.C.End(false)
	case 2:
		s.C.End(true)
	}
	wait()
	a.sess.Close()
	time.Sleep(10 * time.Second)
	wait()
	se := a.seen(r, s, 0, err, medias)
	s.done()
	wait()
	if len(se.Events) == 2 && se.Events[0] > se.Events[1] {
		se.Events[0], se.Events[1] = se.Events[1], se.Events[0]
	}
	return se
}

func runR11(r *kit.R, ci any) {
	c := ci.(*R11)
	n := len(c.Rounds)
	if n > 1 {
		r.NonTrivial()
	}
	want := make([]Seen, n)
	for i := range want {
		want[i] = c.alone(r, i, settle)
	}
	got := make([]Seen, n)
	rs := make([]*kit.R, n)
	var wg sync.WaitGroup
	for i := range got {
		rs[i] = &kit.R{T: r.T}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if len(c.Delay) > 0 {
				time.Sleep(time.Duration(c.Delay[i%len(c.Delay)]) * time.Millisecond)
			}
			got[i] = c.alone(rs[i], i, func() { time.Sleep(time.Millisecond) })
		}()
	}
	wg.Wait()
	settle()
	for i := range got {
		r.Merge(rs[i])
		if r.Failed() {
			return
		}
		r.LabelIf(!got[i].Err, "played")
		r.LabelIf(got[i].Err, "failed")
		r.LabelIf(len(got[i].Data) > 0, "data")
		if !reflect.DeepEqual(got[i], want[i]) {
			r.Fatalf("session %d of %d at the same time is not like alone\ngot  %s\nwant %s", i, n, got[i], want[i])
		}
	}
}

func (s Seen) String() string {
	return fmt.Sprintf("failed %v, events %v, medias %s\n  requests %.1500q\n  data %.600q", s.Err, s.Events, s.Medias, s.Reqs, s.Data)
}

func init() {
	Props = append(Props,
		&kit.Prop{ID: "R11", Rule: "two to four different streams (faults, data, requests, ends) played by as many sessions at the same time, on 1-8 processors under the race detector, compared with each of them alone; non-trivial: at least two",
			Bubble: true,
			Gen: func(t *rapid.T) any {
				c := &R11{Media: rapid.Bool().Draw(t, "medias"), Glue: rapid.SliceOfN(rapid.Bool(), 0, 4).Draw(t, "glue"), Delay: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 10}), 0, 4).Draw(t, "delays"), Early: rapid.Bool().Draw(t, "early"),
					Ctls: rapid.SliceOfN(rapid.Custom(genCtl), 0, 3).Draw(t, "requests")}
				for n := rapid.IntRange(1, 4).Draw(t, "sessions"); n > 0; n-- {
					x := Round{P: genAnyPlan(t), F: genFault(t, 9), Data: rapid.IntRange(0, 14).Draw(t, "data"), How: rapid.IntRange(0, 2).Draw(t, "how"), Part: rapid.Bool().Draw(t, "part"),
						Big: rapid.SampledFrom([]int{0, 0, 1000, 20000}).Draw(t, "big"), Join: rapid.Bool().Draw(t, "join")}
					if rapid.IntRange(0, 3).Draw(t, "fine") > 0 {
						x.F.At = 99
					}
					if k := len(c.Rounds); k > 0 {
						// the same server, challenge or stream
						y := c.Rounds[k-1]
						if rapid.IntRange(0, 3).Draw(t, "same url") == 0 {
							x.P.U = y.P.U
						}
						if rapid.IntRange(0, 1).Draw(t, "same challenge") == 0 {
							x.P.Auth = y.P.Auth
						}
						if rapid.IntRange(0, 2).Draw(t, "same medias") == 0 {
							x.P.Medias = y.P.Medias
						}
					}
					c.Rounds = append(c.Rounds, x)
				}
				return c
			},
			New: func() any { return &R11{} }, Run: runR11, Quick: 2500, Deep: 80000})
}
