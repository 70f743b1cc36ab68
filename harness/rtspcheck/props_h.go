package rtspcheck

import (
	"sync/atomic"
	"time"

	rtsp "github.com/NodeBoy2/rtspclient"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- R12 handlers ----

// Leg is one stream of a session.
type Leg struct {
	P     Plan
	Data  int  // frames
	Big   int  // more bytes in each
	Glue  bool // the data comes right behind the response to PLAY
	Early bool // so does the end of the stream
	Gap   int  // ms in front of each frame
}

type R12 struct {
	Legs   []Leg // the second and later ones are played by the disconnected handler
	Slow   []int // ms each call of a handler takes, in turn
	Events bool  // there is an event handler
	Datas  bool  // there is a data handler
	Close  int   // the last stream is closed after that many ms; <0: it ends by itself
	Twice  bool
}

// frames are the frames of the leg and what they carry.
func (l *Leg) frames() (b [][]byte, want []Item) {
	for i := 0; i < l.Data; i++ {
		pl := pattern(20+i+l.Big, i)
		ch := 2 * (i % len(l.P.Medias))
		b = append(b, frame(ch, RTP{Seq: i, PT: 96, Ext: -1, Payload: pl, Marker: true}.bytes()))
		want = append(want, Item{Ch: ch, Data: pl})
	}
	return
}

func runR12(r *kit.R, ci any) {
	c := ci.(*R12)
	if !c.Events {
		c.Legs = c.Legs[:1] // nobody is told about the end
	}
	var slow []int
	sum := 0
	for _, l := range c.Legs {
		sum += l.Data + 2
		for i := range l.P.Medias {
			l.P.Medias[i].Codec, l.P.Medias[i].PT, l.P.Medias[i].Kind = "", 0, "audio"
		}
	}
	total := time.Duration(0)
	for i := 0; i < sum; i++ {
		d := 0
		if len(c.Slow) > 0 {
			d = c.Slow[i%len(c.Slow)]
		}
		slow = append(slow, d)
		total += time.Duration(d) * time.Millisecond
	}
	r.LabelIf(!c.Events, "no event handler")
	r.LabelIf(!c.Datas, "no data handler")
	r.LabelIf(total > 0, "slow handlers")
	r.LabelIf(len(c.Legs) > 1, "played by the handler")
	r.LabelIf(c.Close >= 0, "closed")
	if total > 0 || len(c.Legs) > 1 || !c.Events || !c.Datas {
		r.NonTrivial()
	}
	a := &App{}
	var dh func(*rtsp.RtspData)
	var eh func(*rtsp.RtspEvent)
	if c.Datas {
		dh = a.data
	}
	if c.Events {
		eh = a.event
	}
	a.sess = rtsp.NewRtspClientSession(dh, eh)
	var servers []*Server
	var wants [][]Item
	for i := range c.Legs {
		l := &c.Legs[i]
		s := newServer(nil)
		b, want := l.frames()
		last := i == len(c.Legs)-1 && c.Close >= 0
		send := func() {
			for _, f := range b {
				time.Sleep(time.Duration(l.Gap) * time.Millisecond)
				l.P.feed(s, f)
			}
			if !last {
				s.C.End(false)
			}
		}
		s.Handle = func(k int, q *Req) {
			time.Sleep(l.P.lat(k))
			x := l.P.resp(q).bytes(l.P.Style)
			if q.Method != "PLAY" {
				l.P.feed(s, x)
				return
			}
			switch {
			case l.Glue && l.Gap == 0: // the response, the data and the end at once
				for _, f := range b {
					x = append(x, f...)
				}
				l.P.feed(s, x)
				if !last && l.Early {
					s.C.End(false)
				} else if !last {
					time.AfterFunc(time.Second, func() { s.C.End(false) })
				}
			default:
				l.P.feed(s, x)
				time.AfterFunc(time.Millisecond, send)
			}
		}
		servers, wants = append(servers, s), append(wants, want)
	}
	var busy, overlap, calls int32
	wait := func() {
		if atomic.AddInt32(&busy, 1) > 1 {
			atomic.StoreInt32(&overlap, 1)
		}
		k := atomic.AddInt32(&calls, 1) - 1
		time.Sleep(time.Duration(slow[int(k)%len(slow)]) * time.Millisecond)
		atomic.AddInt32(&busy, -1)
	}
	a.onData = func(*rtsp.RtspData) { wait() }
	errs := make([]error, len(c.Legs))
	played := make([]bool, len(c.Legs))
	// the handler waits for Play to return: a session is used by one goroutine
	// at a time, and a stream may be over before
	returned := make([]chan bool, len(c.Legs))
	for i := range returned {
		returned[i] = make(chan bool)
	}
	leg := 0
	a.onEvent = func(e *rtsp.RtspEvent) {
		if e.EventType != evDisconnected {
			return
		}
		wait()
		<-returned[leg]
		if k := leg + 1; k < len(c.Legs) {
			leg = k
			defer close(returned[k])
			played[k] = true
			errs[k] = a.play(&c.Legs[k].P, servers[k])
		}
	}
	played[0] = true
	errs[0] = a.play(&c.Legs[0].P, servers[0])
	close(returned[0])
	last := len(c.Legs) - 1
	all := total + 10*time.Second
	for _, l := range c.Legs {
		all += time.Duration(l.Gap*l.Data)*time.Millisecond + 20*time.Second
	}
	if c.Close >= 0 {
		// long enough for everything, or in the middle of a single stream
		d := time.Duration(c.Close) * time.Millisecond
		if len(c.Legs) > 1 || c.Twice {
			d = all
		}
		time.Sleep(d)
		for n := 0; n < 1+b2i(c.Twice); n++ {
			t0 := time.Now()
			a.sess.Close()
			if t := time.Since(t0); t > 2*time.Second {
				r.Fatalf("Close took %v", t)
			}
		}
	}
	time.Sleep(all)
	settle()
	for i, s := range servers {
		if !played[i] {
			r.Fatalf("stream %d was not played: the disconnected handler was not called; events %v", i, a.Events())
		}
		if errs[i] != nil {
			r.Failf("stream %d failed: %v; %s", i, errs[i], s.transcript())
		}
		if ok, _ := s.C.Closed(); !ok {
			r.Failf("the connection of stream %d is not closed; events %v", i, a.Events())
		}
	}
	if overlap != 0 {
		r.Failf("handlers were called at the same time")
	}
	// success, data and disconnected of one stream after the other; success is
	// told in the goroutine of Play, the rest in that of the connection
	items := a.Items()
	for i := range c.Legs {
		var got []Item
		ns, nd := 0, 0
		for len(items) > 0 && nd == 0 {
			it := items[0]
			items = items[1:]
			switch it.Event {
			case -1:
				got = append(got, it)
			case evSuccess:
				ns++
			case evDisconnected:
				nd++
			default:
				r.Failf("stream %d: event %d", i, it.Event)
			}
		}
		if len(items) > 0 && ns == 0 && items[0].Event == evSuccess {
			ns, items = 1, items[1:] // the stream was over before
		}
		if c.Events && (ns != 1 || nd != 1) || !c.Events && ns+nd > 0 {
			r.Failf("stream %d: success %d times, disconnected %d times; events %v", i, ns, nd, a.Events())
		}
		want := wants[i]
		if !c.Datas {
			want = nil
		}
		if i == last && c.Close >= 0 && len(got) < len(want) && len(c.Legs) == 1 && !c.Twice {
			r.Label("closed within the data")
			want = want[:len(got)]
		}
		if !r.Failed() {
			compareData(r, got, want)
		}
	}
	if len(items) > 0 {
		r.Failf("%d calls of handlers behind the end", len(items))
	}
	for _, s := range servers {
		s.done()
	}
	settle()
	if r.Failed() {
		r.Fatalf("")
	}
}

func genR12(t *rapid.T) any {
	c := &R12{Events: rapid.IntRange(0, 4).Draw(t, "event handler") > 0, Datas: rapid.IntRange(0, 4).Draw(t, "data handler") > 0, Close: -1}
	for n := rapid.IntRange(1, 4).Draw(t, "streams"); n > 0; n-- {
		l := Leg{P: genPlan(t), Data: rapid.IntRange(0, 12).Draw(t, "data"), Big: rapid.SampledFrom([]int{0, 0, 1000, 20000, 65000}).Draw(t, "big"),
			Glue: rapid.Bool().Draw(t, "glue"), Early: rapid.Bool().Draw(t, "early"), Gap: rapid.SampledFrom([]int{0, 0, 1, 100, 3000}).Draw(t, "gap")}
		if rapid.IntRange(0, 9).Draw(t, "much") == 0 {
			l.Data *= 10
		} else if rapid.IntRange(0, 39).Draw(t, "very much") == 0 {
			l.Data, l.Big = rapid.SampledFrom([]int{300, 1100, 5000}).Draw(t, "data"), 0
		}
		c.Legs = append(c.Legs, l)
	}
	c.Slow = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 500, 1999, 2001, 6000, 30000, 700000, 10000000}), 0, 5).Draw(t, "slow")
	if rapid.IntRange(0, 2).Draw(t, "close") == 0 {
		c.Close = rapid.SampledFrom([]int{0, 1, 3, 50, 1000, 7000, 60000}).Draw(t, "close at")
		c.Twice = rapid.IntRange(0, 3).Draw(t, "twice") == 0
	}
	return c
}

func init() {
	Props = append(Props, &kit.Prop{ID: "R12",
		Rule:   "1 to 4 streams of one session, the later ones played by the handler that is told the end of the one before, with handlers that take up to hours a call, or without an event or a data handler, ended by the server or closed at any time; non-trivial: slow, missing or playing handlers",
		Bubble: true,
		Gen:    genR12, New: func() any { return &R12{} }, Run: runR12, Fuzz: true, Quick: 8000, Deep: 300000})
}
