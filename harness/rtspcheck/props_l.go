package rtspcheck

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rtsp "github.com/NodeBoy2/rtspclient"
	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- R13 long streams, many streams; real sockets and real time ----

// Quiet is a session whose server sends a frame after each pause.
type Quiet struct {
	Web    bool
	Pauses []int // ms
}

// Volume is a session that gets many packets.
type Volume struct {
	Web    bool
	Codecs []int
	Groups [][]Group
	Marks  []int
	Bytes  int // in all
	Small  int // if not 0: this number of small packets instead
	Noise  int // frames that deliver nothing
	Chunk  int // bytes of a write of the server
}

// Streams is many streams, one after the other.
type Streams struct {
	N    int
	Same bool  // with one session
	Ends []int // how each ends, in turn
	Web  []int // 1: over a WebSocket, in turn
}

type R13 struct {
	P        Plan
	Quiet    []Quiet
	V        Volume
	Requests int
	S        Streams
}

// lserver is a server on a real socket.
type lserver struct {
	p     *Plan
	ln    net.Listener
	http  *http.Server
	fail  int32 // answer this request with 404; <0: none
	conns chan *lconn
	mu    sync.Mutex
	all   []net.Conn
	wg    sync.WaitGroup
}

// lconn is a connection of it.
type lconn struct {
	net.Conn
	ws    *websocket.Conn
	wmu   sync.Mutex
	n     int32 // requests
	tears int32
	cseq  int
	bad   atomic.Value
	over  chan bool
}

func (c *lconn) send(b []byte) (err error) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	if c.ws != nil {
		return c.ws.WriteMessage(websocket.BinaryMessage, b)
	}
	_, err = c.Write(b)
	return
}

func (c *lconn) read(b []byte) ([]byte, error) {
	if c.ws != nil {
		_, m, err := c.ws.ReadMessage()
		return m, err
	}
	n, err := c.Read(b)
	return b[:n], err
}

func (l *lserver) run(c *lconn) {
	defer close(c.over)
	defer c.Close()
	l.conns <- c
	b := make([]byte, 4096)
	var in []byte
	for {
		m, err := c.read(b)
		if err != nil {
			return
		}
		in = append(in, m...)
		for {
			q, n, err := parseReq(in)
			if err != nil {
				c.bad.Store(err.Error())
				return
			}
			if n == 0 {
				break
			}
			in = append([]byte(nil), in[n:]...)
			v, _ := q.Header("CSeq")
			if k, err := strconv.Atoi(v); err != nil || c.cseq >= 0 && k != c.cseq+1 {
				c.bad.Store(fmt.Sprintf("%s has CSeq %q, the request before it %d", q.Method, v, c.cseq))
			} else {
				c.cseq = k
			}
			if q.Method == "TEARDOWN" {
				atomic.AddInt32(&c.tears, 1)
			}
			x := l.p.resp(q)
			if i := atomic.AddInt32(&c.n, 1); i-1 == atomic.LoadInt32(&l.fail) {
				x = Resp{Status: 404, CSeq: x.CSeq}
			}
			if c.send(x.bytes(l.p.Style)) != nil {
				return
			}
		}
	}
}

func newLserver(p *Plan, web bool) *lserver {
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		return nil
	}
	own := *p
	l := &lserver{p: &own, ln: ln, conns: make(chan *lconn, 1000), fail: -1}
	keep := func(c net.Conn) {
		l.mu.Lock()
		l.all = append(l.all, c)
		if len(l.all) > 1000 {
			l.all = l.all[500:]
		}
		l.mu.Unlock()
	}
	l.wg.Add(1)
	if web {
		up := websocket.Upgrader{}
		l.http = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			c, err := up.Upgrade(w, q, nil)
			if err != nil {
				return
			}
			keep(c.UnderlyingConn())
			l.run(&lconn{Conn: c.UnderlyingConn(), ws: c, cseq: -1, over: make(chan bool)})
		})}
		go func() { defer l.wg.Done(); l.http.Serve(ln) }()
		return l
	}
	own.U.Host = ln.Addr().String()
	go func() {
		defer l.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			keep(c)
			l.wg.Add(1)
			go func() { defer l.wg.Done(); l.run(&lconn{Conn: c, cseq: -1, over: make(chan bool)}) }()
		}
	}()
	return l
}

func (l *lserver) close() {
	l.ln.Close()
	if l.http != nil {
		l.http.Close()
	}
	l.mu.Lock()
	for _, c := range l.all {
		c.Close()
	}
	l.mu.Unlock()
	l.wg.Wait()
}

// play plays from it and gives the server's side.
func (l *lserver) play(s *rtsp.RtspClientSession) (*lconn, error) {
	var err error
	u := l.p.U
	if l.http != nil {
		err = s.PlayUseWebsocket("ws://"+l.ln.Addr().String()+"/x", u.Full())
	} else {
		err = s.Play(u.Full())
	}
	select {
	case c := <-l.conns:
		return c, err
	case <-time.After(100 * time.Millisecond):
		return nil, err
	}
}

// tries plays until it works: the machine may be too busy for the limit of 2 s.
func (l *lserver) tries(s *rtsp.RtspClientSession) (c *lconn, err error) {
	for i := 0; i < 5; i++ {
		t0 := time.Now()
		if c, err = l.play(s); err == nil && c != nil {
			return
		}
		if time.Since(t0) < time.Second && i > 1 {
			return
		}
		s.Close()
		time.Sleep(200 * time.Millisecond)
	}
	return
}

// usage is what the process uses.
type usage struct {
	fds, goroutines int
	heap            int
}

func measure() usage {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	d, _ := os.ReadDir("/proc/self/fd")
	return usage{len(d), runtime.NumGoroutine(), int(m.HeapAlloc)}
}

func (u usage) String() string {
	return fmt.Sprintf("%d open files, %d goroutines, %d KB of memory", u.fds, u.goroutines, u.heap>>10)
}

const moreHeap = 8 << 20 // about the buffer for the units of one media

// grown compares the usage with an earlier one, and waits for it to be no more.
func grown(base usage) (now usage, more bool) {
	end := time.Now().Add(20 * time.Second)
	for {
		now = measure()
		if now.fds <= base.fds+5 && now.goroutines <= base.goroutines+10 && now.heap <= base.heap+moreHeap {
			return now, false
		}
		if time.Now().After(end) {
			return now, true
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (c *R13) volume(r *kit.R) {
	v := &c.V
	p := c.P
	n := max(1, min(len(v.Codecs), len(v.Groups)))
	p.Medias, p.Sizes = nil, nil
	var q [][]pk
	var codecs []string
	for i := 0; i < n; i++ {
		codec := mixed[v.Codecs[i]%len(mixed)]
		codecs = append(codecs, codec)
		p.Medias = append(p.Medias, Media{Kind: "video", PT: 96 + i, Codec: codec, Freq: 90000, Control: fmt.Sprint("t", i)})
		var ps []pk
		for _, g := range v.Groups[i] {
			ps = append(ps, g.packets(codec)...)
		}
		q = append(q, ps)
	}
	var pool [][]byte
	var want []Item
	size := 0
	for k := 0; ; k++ {
		left := false
		for i := range q {
			if k >= len(q[i]) {
				continue
			}
			left = true
			x := q[i][k]
			f := frame(2*i, RTP{PT: 96 + i, Marker: mark(codecs[i], x, v.Marks, k), Ext: -1, Payload: x.b}.bytes())
			pool = append(pool, f)
			size += len(f)
			for _, o := range x.out {
				want = append(want, Item{Ch: 2 * i, Data: o})
			}
		}
		if !left {
			break
		}
	}
	if len(want) == 0 {
		return
	}
	for i := 0; i < v.Noise; i++ {
		f := [][]byte{
			frame(2*(i/4%n)+1, []byte{0x80, 200, 0, 6, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24}),
			frame(100+i, RTP{PT: 96, Payload: []byte{1, 2, 3}}.bytes()), frame(0, nil), frame(2*(i/4%n), []byte{0x80, 96, 1, 2, 3})}[i%4]
		pool = append(pool, f)
		size += len(f)
	}
	rounds := max(5, min(v.Bytes/size, v.Bytes/200/len(pool)))
	if v.Small > 0 {
		rounds = max(5, v.Small/len(pool))
	}
	l := newLserver(&p, v.Web)
	if l == nil {
		return
	}
	defer l.close()
	var got int64
	wrong := make(chan string, 1)
	disc := int32(0)
	s := rtsp.NewRtspClientSession(func(d *rtsp.RtspData) {
		i := int(atomic.LoadInt64(&got)) % len(want)
		if w := want[i]; w.Ch != d.ChannelNum || !bytes.Equal(w.Data, d.Data) {
			select {
			case wrong <- fmt.Sprintf("data %d: channel %d %s, want channel %d %s", atomic.LoadInt64(&got), d.ChannelNum, short(d.Data), w.Ch, short(w.Data)):
			default:
			}
		}
		atomic.AddInt64(&got, 1)
	}, func(e *rtsp.RtspEvent) {
		if e.EventType == rtsp.RtspEventDisconnected {
			atomic.AddInt32(&disc, 1)
		}
	})
	conn, err := l.tries(s)
	if err != nil || conn == nil {
		r.Failf("volume: Play: %v", err)
		return
	}
	defer s.Close()
	d0 := atomic.LoadInt32(&disc)
	var base usage
	seq := 65000
	var out []byte
	for k := 0; k < rounds; k++ {
		for _, f := range pool {
			if len(f) >= 8 && f[5]&0x7f >= 96 {
				f[6], f[7] = byte(seq>>8), byte(seq)
				seq++
			}
			out = append(out, f...)
			if len(out) >= v.Chunk {
				if conn.send(out) != nil {
					r.Failf("volume: the client closed the connection in round %d of %d", k, rounds)
					return
				}
				out = out[:0]
			}
		}
		if k == rounds/5 || k == rounds-1 {
			if len(out) > 0 {
				conn.send(out)
				out = out[:0]
			}
			n := int64((k + 1) * len(want))
			last := int64(-1)
			for t := time.Now(); atomic.LoadInt64(&got) < n; time.Sleep(time.Millisecond) {
				if x := atomic.LoadInt64(&got); x != last {
					last, t = x, time.Now()
				} else if time.Since(t) > 10*time.Second {
					r.Failf("volume: %d data came, want %d", x, n)
					return
				}
			}
			if x := atomic.LoadInt64(&got); x != n {
				r.Failf("volume: %d data came, want %d", x, n)
				return
			}
			if k == rounds/5 {
				base = measure()
			}
		}
		select {
		case w := <-wrong:
			r.Failf("volume: round %d: %s", k, w)
			return
		default:
		}
	}
	base.heap += 1<<20 - moreHeap // nothing but this session goes on
	if now, more := grown(base); more {
		base.heap -= 1<<20 - moreHeap
		r.Failf("volume: %v after %d packets, %v after %d", base, (rounds/5+1)*len(pool), now, rounds*len(pool))
		return
	}
	if atomic.LoadInt32(&disc) != d0 {
		r.Failf("volume: disconnected")
	}
	if b := conn.bad.Load(); b != nil {
		r.Failf("volume: %v", b)
	}
	r.Label("volume")
	r.LabelIf(rounds*len(pool) > 65536, "volume: more than 65536 packets")
	r.LabelIf(rounds*len(pool) > 500000, "volume: more than 500000 packets")
}

func (c *R13) requests(r *kit.R) {
	p := c.P
	l := newLserver(&p, false)
	if l == nil {
		return
	}
	defer l.close()
	s := rtsp.NewRtspClientSession(nil, nil)
	conn, err := l.tries(s)
	if err != nil || conn == nil {
		r.Failf("requests: Play: %v", err)
		return
	}
	defer s.Close()
	n0 := atomic.LoadInt32(&conn.n)
	var base usage
	for i := 0; i < c.Requests; i++ {
		if i%2 == 0 {
			err = s.SendPause()
		} else {
			err = s.SendPlay(i, 1)
		}
		if err == nil {
			var x *rtsp.RtspResponseContext
			t0 := time.Now()
			if x, err = s.WaitRtspResponse(); err == nil && x.Status != 200 {
				err = fmt.Errorf("status %d", x.Status)
			}
			if err != nil && time.Since(t0) > 1900*time.Millisecond {
				r.Label("requests: machine too slow")
				return
			}
		}
		if err != nil {
			r.Failf("request %d of a session: %v", i, err)
			return
		}
		if i == c.Requests/5 {
			base = measure()
		}
	}
	if n := int(atomic.LoadInt32(&conn.n) - n0); n != c.Requests {
		r.Failf("requests: the server got %d of %d", n, c.Requests)
	}
	if b := conn.bad.Load(); b != nil {
		r.Failf("requests: %v", b)
	}
	if now, more := grown(base); more {
		r.Failf("requests: %v after %d requests, %v after %d", base, c.Requests/5, now, c.Requests)
	}
	r.Label("requests")
	r.LabelIf(c.Requests > 10000, "requests: more than ten thousand")
	r.LabelIf(c.Requests > 65536, "requests: more than 65536")
}

var sends = []string{"Close", "end", "reset", "404", "refused", "malformed URL", "Close twice", "end within a frame"}

func (c *R13) streams(r *kit.R) {
	p := c.P
	ls := [2]*lserver{newLserver(&p, false), newLserver(&p, true)}
	for _, l := range ls {
		if l == nil {
			return
		}
		defer l.close()
	}
	y, err := net.Listen("tcp4", "127.0.79.1:0")
	if err != nil {
		return
	}
	nobody := y.Addr().String()
	y.Close()
	var got int32
	var ev [4]int32
	mk := func() *rtsp.RtspClientSession {
		return rtsp.NewRtspClientSession(func(*rtsp.RtspData) { atomic.AddInt32(&got, 1) }, func(e *rtsp.RtspEvent) {
			atomic.AddInt32(&ev[e.EventType%4], 1)
		})
	}
	s := mk()
	var base usage
	for i := 0; i < c.S.N; i++ {
		if i == c.S.N/4 {
			time.Sleep(50 * time.Millisecond)
			base = measure()
			base.heap += 2 * moreHeap // the session at hand may have a media now, or not
		}
		if !c.S.Same {
			s = mk()
		}
		l := ls[0]
		web := len(c.S.Web) > 0 && c.S.Web[i%len(c.S.Web)] == 1
		if web {
			l = ls[1]
		}
		how := sends[c.S.Ends[i%len(c.S.Ends)]%len(sends)]
		bad := func(f string, a ...any) {
			r.Failf("stream %d (%s, WebSocket %v, same session %v): %s", i, how, web, c.S.Same, fmt.Sprintf(f, a...))
		}
		d0 := atomic.LoadInt32(&ev[evDisconnected])
		switch how {
		case "refused":
			if web {
				err = s.PlayUseWebsocket("ws://"+nobody+"/", "rtsp://h/x")
			} else {
				err = s.Play("rtsp://" + nobody + "/x")
			}
			if err == nil {
				bad("no error")
				return
			}
			continue
		case "malformed URL":
			if err = s.Play(badURLs[i%len(badURLs)]); err == nil {
				bad("no error")
				return
			}
			continue
		case "404":
			k := i % len(p.expected())
			atomic.StoreInt32(&l.fail, int32(k))
			conn, err := l.play(s)
			atomic.StoreInt32(&l.fail, -1)
			if err == nil {
				bad("no error")
				return
			}
			s.Close()
			if conn != nil && !isOver(conn) {
				bad("the connection is not closed")
				return
			}
			if !until(func() bool { return atomic.LoadInt32(&ev[evDisconnected]) > d0 }) {
				bad("not disconnected")
				return
			}
		default:
			conn, err := l.tries(s)
			if err != nil || conn == nil {
				bad("Play: %v", err)
				return
			}
			d0 = atomic.LoadInt32(&ev[evDisconnected])
			g := atomic.LoadInt32(&got)
			conn.send(frame(0, RTP{Seq: i, Ext: -1, Payload: pattern(100, i)}.bytes()))
			if !until(func() bool { return atomic.LoadInt32(&got) > g }) {
				bad("no data")
				return
			}
			switch how {
			case "Close":
				s.Close()
			case "Close twice":
				s.Close()
				s.Close()
			case "end":
				conn.Close()
			case "reset":
				if t, ok := conn.Conn.(*net.TCPConn); ok {
					t.SetLinger(0)
				}
				conn.Close()
			case "end within a frame":
				conn.send([]byte{'$', 0, 0, 100, 1, 2})
				conn.Close()
			}
			if !until(func() bool { return atomic.LoadInt32(&ev[evDisconnected]) > d0 }) {
				bad("not disconnected")
				return
			}
			if !isOver(conn) {
				bad("the connection is not closed")
				return
			}
			if strings.HasPrefix(how, "Close") && atomic.LoadInt32(&conn.tears) != 1 {
				bad("%d TEARDOWN", atomic.LoadInt32(&conn.tears))
				return
			}
			if b := conn.bad.Load(); b != nil {
				bad("%v", b)
				return
			}
		}
	}
	if now, more := grown(base); more {
		r.Failf("streams: %v after %d streams, %v after %d (ends %v, WebSocket %v, same session %v)", base, c.S.N/4, now, c.S.N, c.S.Ends, c.S.Web, c.S.Same)
	}
	r.Label("streams")
	r.LabelIf(c.S.Same, "streams of one session")
}

func isOver(c *lconn) bool {
	select {
	case <-c.over:
		return true
	case <-time.After(patience):
		return false
	}
}

// quiet runs all sessions of the kind at the same time; it gives the first bad one.
func (c *R13) quiet(r *kit.R) int {
	p := c.P
	ls := [2]*lserver{newLserver(&p, false), newLserver(&p, true)}
	for _, l := range ls {
		if l == nil {
			return -1
		}
		defer l.close()
	}
	rs := make([]*kit.R, len(c.Quiet))
	var wg sync.WaitGroup
	for i, q := range c.Quiet {
		a := newApp()
		l := ls[b2i(q.Web)]
		// one after the other: the server does not know who is who
		conn, err := l.tries(a.sess)
		if err != nil || conn == nil {
			r.Failf("quiet: Play: %v", err)
			return i
		}
		n0 := len(a.Items())
		rs[i] = &kit.R{T: r.T}
		wg.Add(1)
		go func(r *kit.R, q Quiet) {
			defer wg.Done()
			defer a.sess.Close()
			for k, d := range q.Pauses {
				time.Sleep(time.Duration(d) * time.Millisecond)
				pl := pattern(50+k, k)
				conn.send(frame(0, RTP{Seq: k, Ext: -1, Payload: pl}.bytes()))
				until(func() bool { return len(a.Items()) >= n0+k+1 })
				got := a.Items()[n0:]
				if len(got) != k+1 || got[k].Event >= 0 || !bytes.Equal(got[k].Data, pl) {
					r.Failf("a session with pauses of %v ms (WebSocket %v): after pause %d the application has %d new events and data, want %d; events %v", q.Pauses, q.Web, k, len(got), k+1, a.Events())
					return
				}
			}
			t0 := time.Now()
			a.sess.Close()
			if d := time.Since(t0); d > 2500*time.Millisecond {
				r.Failf("pauses %v: Close took %v", q.Pauses, d)
			}
			if atomic.LoadInt32(&conn.tears) != 1 {
				r.Failf("pauses %v: %d TEARDOWN requests", q.Pauses, atomic.LoadInt32(&conn.tears))
			}
			if !isOver(conn) || !until(func() bool { return len(a.Items()) > n0+len(q.Pauses) }) {
				r.Failf("pauses %v: not closed; events %v", q.Pauses, a.Events())
			}
		}(rs[i], q)
	}
	wg.Wait()
	r.Label("pauses")
	for i, x := range rs {
		if x.Failed() {
			r.Merge(x)
			return i
		}
	}
	return -1
}

func runR13(r *kit.R, ci any) {
	c := ci.(*R13)
	c.P.Medias = c.P.Medias[:1]
	c.P.Medias[0].Codec, c.P.Medias[0].PT, c.P.Medias[0].Kind = "", 0, "audio"
	c.P.Sizes, c.P.Lat = nil, nil
	parts := []func() R13{
		func() R13 { c.volume(r); return R13{P: c.P, V: c.V} },
		func() R13 { c.requests(r); return R13{P: c.P, Requests: c.Requests} },
		func() R13 { c.streams(r); return R13{P: c.P, S: c.S} },
		func() R13 {
			i := c.quiet(r)
			x := R13{P: c.P}
			if i >= 0 {
				x.Quiet = c.Quiet[i : i+1]
			}
			return x
		},
	}
	on := []bool{c.V.Bytes > 0 && len(c.V.Codecs) > 0 && len(c.V.Groups) > 0, c.Requests > 0, c.S.N > 0 && len(c.S.Ends) > 0, len(c.Quiet) > 0}
	for i, f := range parts {
		if !on[i] {
			continue
		}
		r.NonTrivial()
		x := f()
		if r.Failed() {
			r.Reduce(&x)
			return
		}
	}
}

func genR13(t *rapid.T) any {
	deep := os.Getenv("KIT_TIER") == "thorough"
	c := &R13{P: genAnyPlan(t)}
	c.V = Volume{Web: rapid.IntRange(0, 3).Draw(t, "web") == 0, Marks: genMarks(t), Bytes: rapid.SampledFrom([]int{10 << 20, 30 << 20}).Draw(t, "bytes"), Chunk: rapid.SampledFrom([]int{1, 1400, 30000, 1 << 20}).Draw(t, "chunk")}
	c.V.Noise = rapid.IntRange(0, 8).Draw(t, "noise")
	long := 70000
	if rapid.Bool().Draw(t, "small") {
		c.V.Small, long = 1500000, 30
		if deep {
			c.V.Small = 8000000
		}
		c.V.Chunk = max(c.V.Chunk, 1400)
	}
	for n := rapid.IntRange(1, 3).Draw(t, "medias"); n > 0; n-- {
		c.V.Codecs = append(c.V.Codecs, rapid.IntRange(0, len(mixed)-1).Draw(t, "codec"))
		gs := rapid.SliceOfN(rapid.Custom(genGroup), 1, 5).Draw(t, "groups")
		for _, g := range gs {
			for i := range g.Units {
				g.Units[i].Len = min(g.Units[i].Len, long)
			}
		}
		c.V.Groups = append(c.V.Groups, gs)
	}
	if deep {
		c.V.Bytes *= 10
	}
	c.Requests = rapid.IntRange(300, 3000).Draw(t, "requests")
	if rapid.IntRange(0, 3).Draw(t, "many requests") == 2 {
		c.Requests = rapid.SampledFrom([]int{10500, 33500, 66500}).Draw(t, "requests")
	}
	c.S = Streams{N: rapid.IntRange(60, 300).Draw(t, "streams"), Same: rapid.Bool().Draw(t, "same"), Ends: rapid.SliceOfN(rapid.IntRange(0, len(sends)-1), 1, 6).Draw(t, "ends"), Web: rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3).Draw(t, "webs")}
	if rapid.IntRange(0, 2).Draw(t, "pauses") == 1 {
		total := 65000
		if deep {
			total = 150000
		}
		for n := rapid.IntRange(10, 40).Draw(t, "quiet"); n > 0; n-- {
			q := Quiet{Web: rapid.IntRange(0, 2).Draw(t, "web") == 0}
			for left := total; left > 0; {
				d := rapid.SampledFrom([]int{1, 500, 1999, 2001, 5000, 10000, total}).Draw(t, "pause")
				d = min(d, left)
				q.Pauses = append(q.Pauses, d)
				left -= d
				if len(q.Pauses) == 10 {
					q.Pauses[9] += left
					left = 0
				}
			}
			c.Quiet = append(c.Quiet, q)
		}
	}
	return c
}

func init() {
	Props = append(Props, &kit.Prop{ID: "R13", Rule: "real sockets (TCP and WebSocket) and real time: sessions with random pauses of up to 65 s (thorough: 150 s), streams of up to 30 MB (300 MB) of random packets, hundreds of requests, hundreds of streams one after the other with random ends; memory, goroutines and open files are measured early and late; every case is non-trivial",
		Slow: 300 * time.Second, Gen: genR13, New: func() any { return &R13{} }, Run: runR13, Quick: 18, Deep: 80})
}
