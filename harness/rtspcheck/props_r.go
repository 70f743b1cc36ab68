package rtspcheck

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	rtsp "github.com/NodeBoy2/rtspclient"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- R01 handshake ----

// Fault is what the server does instead of the right response.
type Fault struct {
	At     int // request; beyond the last one: nothing happens
	Kind   int
	Status int
}

var faults = []string{"status", "end of stream", "reset", "no description", "description without media", "malformed description", "malformed response",
	"response cut off", "write fails", "status with a description", "silence"}

var badSDP = []string{"", "x", "v=0\r\no=- 1 1 IN IP4 a\r\ns=x\r\nt=0 0\r\nm=video\r\n", "v=0\r\nm=video 0 RTP/AVP x y\r\nt=", "m", "<html></html>", "v=0\r\no=- 1 1 IN IP4 a\r\ns=x\r\nt=a b\r\nm=audio 0 RTP/AVP 0\r\n",
	"v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\nm=audio q RTP/AVP 0\r\na=control:x\r\n"}

func genFault(t *rapid.T, n int) Fault {
	return Fault{At: rapid.IntRange(0, n).Draw(t, "at"), Kind: rapid.IntRange(0, len(faults)-1).Draw(t, "fault"),
		Status: rapid.SampledFrom([]int{100, 199, 201, 250, 300, 301, 302, 400, 403, 404, 405, 454, 455, 457, 459, 461, 500, 501, 503, 505, 551, 999, 600, 20, 2, 0, 401, 407, 202, 203, 204, 205, 206, 207, 210, 299, 303, 304, 305, 350, 402, 406, 408, 410, 411, 412, 413, 414, 415, 451, 452, 453, 456, 458, 460, 462, 502, 504, 505}).Draw(t, "status")}
}

// apply does it, instead of response x to request q.
func (f Fault) apply(p *Plan, s *Server, x Resp) {
	switch faults[f.Kind%len(faults)] {
	case "status", "status with a description":
		b := x.Body
		x = Resp{Status: f.Status, CSeq: x.CSeq, Sess: x.Sess}
		if f.Kind%len(faults) != 0 {
			x.Body = b
			if b == nil {
				x.Body = describe(p.Medias)
			}
		}
	case "end of stream":
		s.C.End(false)
		return
	case "reset":
		s.C.End(true)
		return
	case "no description":
		x.Body = nil
	case "description without media":
		x.Body = describe(nil)
	case "malformed description":
		x.Body = []byte(badSDP[f.Status%len(badSDP)])
	case "malformed response":
		p.feed(s, []byte([]string{"RTSP\r\n\r\n", "RTSP/1.0\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: -5\r\n\r\n"}[f.Status%3]))
		return
	case "response cut off":
		b := x.bytes(p.Style)
		p.feed(s, b[:f.Status%len(b)])
		s.C.End(f.Status%2 == 0)
		return
	case "silence":
		return
	}
	p.feed(s, x.bytes(p.Style))
}

// fails tells whether the fault makes this handshake fail.
func (f Fault) fails(es []Exp) bool {
	if f.At >= len(es) {
		return false
	}
	switch faults[f.Kind%len(faults)] {
	case "no description", "description without media", "malformed description":
		return es[f.At].Method == "DESCRIBE"
	}
	return true
}

type R01 struct {
	P Plan
	F Fault
}

func runR01(r *kit.R, ci any) {
	c := ci.(*R01)
	p := &c.P
	es := p.expected()
	kind := faults[c.F.Kind%len(faults)]
	if kind != "silence" && len(p.Lat) == 0 && c.F.Status == 401 {
		c.F.Status = 407
	}
	if c.F.Status == 401 && c.F.At == 0 && p.creds() {
		c.F.Status = 400 // another check
	}
	fails := c.F.fails(es)
	if p.Auth != nil && c.F.At == 0 && kind != "status" {
		// the description of the first response is not looked at
		fails = fails && !strings.Contains(kind, "description") || kind == "status with a description"
	}
	a := newApp()
	s := newServer(nil)
	early := ""
	s.Handle = func(i int, q *Req) {
		n := len(s.C.Out())
		time.Sleep(p.lat(i))
		if m := len(s.C.Out()); m != n && early == "" {
			early = fmt.Sprintf("the client goes on before request %d is answered: %q", i, s.C.Out()[n:])
		}
		if kind == "write fails" && i+1 == c.F.At {
			s.C.FailWritesAt(len(s.C.Out()) + c.F.Status%50)
		}
		if i == c.F.At {
			c.F.apply(p, s, p.resp(q))
		} else {
			p.feed(s, p.resp(q).bytes(p.Style))
		}
	}
	if kind == "write fails" && c.F.At == 0 {
		s.C.FailWritesAt(c.F.Status % 50)
	}
	if len(p.Medias) > 1 {
		r.NonTrivial()
	}
	err := a.play(p, s)
	evAt := a.Events()
	settle()
	n := len(es)
	if fails {
		r.Label(kind)
		n = c.F.At + 1
		if kind == "write fails" {
			n--
		}
	} else {
		r.Label("success")
	}
	if (err != nil) != fails {
		r.Failf("SetConnection gives %v; server: %s at request %d of %d; %s", err, kind, c.F.At, len(es), s.transcript())
	}
	if x := evAt; !r.Failed() && (len(x) == 0 || !contains(x, map[bool]int{true: evError, false: evSuccess}[fails])) {
		r.Failf("the outcome is not reported by the time the handshake returns: events %v", x)
	}
	if !r.Failed() {
		outcome(r, a, !fails)
		p.matchAll(r, s, es[:n])
		if early != "" {
			r.Fatalf("%s", early)
		}
	}
	// nothing more happens
	time.Sleep(time.Minute)
	settle()
	if !r.Failed() {
		outcome(r, a, !fails)
		p.matchAll(r, s, es[:n])
		if !fails && a.Count(evDisconnected) != 0 {
			r.Fatalf("disconnected for no reason")
		}
	}
	a.finish(s)
}

func contains(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// ---- R02 requests ----

// Ctl is a request of the application.
type Ctl struct {
	Kind  int
	Start int
	Speed int
	Ch    int
}

var ctls = []string{"PAUSE", "PLAY", "DESCRIBE", "SETUP", "TEARDOWN"}

func genCtl(t *rapid.T) Ctl {
	return Ctl{Kind: rapid.IntRange(0, len(ctls)-1).Draw(t, "request"), Start: rapid.SampledFrom([]int{0, 0, 1, 59, 3600, 1000000}).Draw(t, "start"),
		Speed: rapid.SampledFrom([]int{1, 1, 2, 0, -1, 16}).Draw(t, "speed"), Ch: rapid.IntRange(0, 100).Draw(t, "channel")}
}

func (c Ctl) send(s *rtsp.RtspClientSession, track string) error {
	switch ctls[c.Kind] {
	case "PAUSE":
		return s.SendPause()
	case "PLAY":
		return s.SendPlay(c.Start, c.Speed)
	case "DESCRIBE":
		return s.SendDescribe()
	case "SETUP":
		return s.SendTcpSetup(track, 2*c.Ch, 2*c.Ch+1)
	}
	return s.SendTeardown()
}

func (c Ctl) exp(p *Plan, track string) Exp {
	e := Exp{Method: ctls[c.Kind], URL: p.U.Base(), Hdr: [][2]string{p.sess()}}
	if p.Auth != nil {
		e.Auth = 1
	}
	switch ctls[c.Kind] {
	case "DESCRIBE":
		e.Hdr = [][2]string{{"Accept", "application/sdp"}}
	case "SETUP":
		e.URL = track
		e.Hdr = append(e.Hdr, [2]string{"Transport", fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*c.Ch, 2*c.Ch+1)})
	case "PLAY":
		x := "-"
		if c.Start != 0 {
			x = fmt.Sprintf("npt=%d.0-", c.Start)
		}
		sp := "-"
		if c.Speed != 1 {
			sp = fmt.Sprintf("%d.000000", c.Speed)
		}
		e.Hdr = append(e.Hdr, [2]string{"Range", x}, [2]string{"Speed", sp})
	}
	return e
}

type R02 struct {
	P    Plan
	Ctls []Ctl
}

func runR02(r *kit.R, ci any) {
	c := ci.(*R02)
	p := &c.P
	a, s := start(r, p)
	es := p.expected()
	es[len(es)-1].Hdr = append(es[len(es)-1].Hdr, [2]string{"Range", "-"}, [2]string{"Speed", "-"})
	track := p.U.Base() + "/x"
	for _, k := range c.Ctls {
		if err := k.send(a.sess, track); err != nil {
			r.Fatalf("%s: %v", ctls[k.Kind], err)
		}
		x, err := a.sess.WaitRtspResponse()
		if err != nil || x.Status != 200 {
			r.Fatalf("%s: response %v, error %v, %s", ctls[k.Kind], x, err, s.transcript())
		}
		es = append(es, k.exp(p, track))
		r.Label("control " + ctls[k.Kind])
	}
	if len(c.Ctls) > 1 {
		r.NonTrivial()
	}
	r.LabelIf(p.ID == "", "no session id")
	r.LabelIf(p.U.Query != "", "query")
	r.LabelIf(p.creds(), "credentials in the URL")
	r.LabelIf(p.Auth != nil, "authorization")
	settle()
	p.matchAll(r, s, es)
	a.sess.Close()
	settle()
	p.matchAll(r, s, append(es, Ctl{Kind: 4}.exp(p, "")))
	for _, q := range mustReqs(s) {
		if ua, ok := q.Header("User-Agent"); !ok || ua == "" {
			r.Fatalf("no User-Agent in %q", q.Raw)
		}
		if _, ok := q.Header("Content-Length"); ok {
			r.Fatalf("Content-Length in %q", q.Raw)
		}
	}
	a.finish(s)
}

func mustReqs(s *Server) []*Req { q, _ := s.Reqs(); return q }

// ---- R03 authentication ----

type R03 struct {
	P      Plan
	Creds  int // 0: in the URL, 1: none, 2: no password, 3: only the password
	Reject bool
	Ctls   []Ctl
}

func runR03(r *kit.R, ci any) {
	c := ci.(*R03)
	p := &c.P
	switch c.Creds {
	case 1:
		p.U.User, p.U.Pass, p.U.HasPass = "", "", false
	case 2:
		p.U.Pass, p.U.HasPass = "", false
	case 3:
		p.U.User = ""
	}
	for _, k := range p.Auth.Kinds {
		r.Label(k)
	}
	a := newApp()
	s := newServer(nil)
	s.Handle = func(i int, q *Req) {
		time.Sleep(p.lat(i))
		x := p.resp(q)
		if c.Reject {
			x = Resp{Status: 401, CSeq: x.CSeq, Auth: p.Auth.headers()}
		}
		p.feed(s, x.bytes(p.Style))
	}
	err := a.play(p, s)
	settle()
	es := p.expected()
	if !p.creds() {
		// nothing to answer the challenge with
		r.Label("no credentials")
		if err == nil {
			r.Fatalf("success without credentials")
		}
		p.matchAll(r, s, es[:1])
		outcome(r, a, false)
		a.finish(s)
		return
	}
	r.NonTrivial()
	if c.Reject {
		r.Label("rejected")
		if err == nil {
			r.Fatalf("success with rejected credentials")
		}
		p.matchAll(r, s, es[:2])
		outcome(r, a, false)
		a.finish(s)
		return
	}
	if err != nil {
		p.matchAll(r, s, es)
		r.Fatalf("the handshake failed: %v; %s", err, s.transcript())
	}
	for _, k := range c.Ctls {
		if err := k.send(a.sess, p.U.Base()+"/x"); err != nil {
			r.Fatalf("%s: %v", ctls[k.Kind], err)
		}
		a.sess.WaitRtspResponse()
		es = append(es, k.exp(p, p.U.Base()+"/x"))
	}
	a.sess.Close()
	settle()
	p.matchAll(r, s, append(es, Ctl{Kind: 4}.exp(p, "")))
	a.finish(s)
}

// ---- R04 responses ----

// Noise are frames nobody wants, between the responses.
type Noise struct {
	Before bool
	Len    int
	Kind   int // what is in it
}

func (n Noise) bytes(i int) []byte {
	var b []byte
	switch n.Kind % 4 {
	case 0:
		b = pattern(n.Len, i)
	case 1:
		b = bytes.Repeat([]byte("RTSP/1.0 404 Not Found\r\n\r\n"), n.Len/26+1)[:n.Len]
	case 2:
		b = bytes.Repeat([]byte("$\x00\x00\x04"), n.Len/4+1)[:n.Len]
	case 3:
		b = bytes.Repeat([]byte("\r\n\r\n"), n.Len/4+1)[:n.Len]
	}
	return frame(201+i%50, b)
}

type R04 struct {
	P      Plan
	Styles []Style
	Noise  []Noise
	Body   []int // bodies of the other responses (length; 0: none, 1: a Content-Length of 0)
	Tail   int   // what is in the description
	Frames int   // data glued to the response of PLAY
	Direct int   // status parsed directly
}

func (c *R04) body(i int, b []byte) []byte {
	if b != nil {
		// of the description: text that looks like something else
		x := strings.Replace(string(b), "s=session\r\n", "s="+[]string{"session", "$$$$", "RTSP/1.0 404 x", "$\x01\x00\x05"}[c.Tail%4]+"\r\n", 1)
		switch c.Tail / 4 % 3 {
		case 1:
			x += "\r\n\r\n\r\n"
		case 2:
			x = strings.Replace(x, "t=0 0\r\n", "t=0 0\r\n\r\n\r\n\r\n", 1)
		}
		if c.Tail/12 == 1 {
			x += strings.Repeat("a=x:"+strings.Repeat("y", 96)+"\r\n", max(0, 60000-len(x))/102)
		}
		return []byte(x)
	}
	n := min(c.Body[i%len(c.Body)], 55000) // there may be long challenges
	if n == 0 {
		return nil
	}
	switch (c.Tail + i) % 3 {
	case 1: // the lines of a header
		h := "\r\nSession: other\r\nWWW-Authenticate: Basic realm=\"no\"\r\nContent-Length: 5\r\nCSeq: 99\r\n\r\n"
		return []byte(h[:min(n, len(h))])
	case 2:
		return bytes.Repeat([]byte("Session: "+strings.Repeat("x", n%7)+"\r\nContent-Length: 7\r\n"), n/30+1)[:n]
	}
	return bytes.Repeat([]byte("RTSP/1.0 500 x\r\n\r\n$\x00\x00\x40"), n/22+1)[:n-1]
}

func runR04(r *kit.R, ci any) {
	c := ci.(*R04)
	p := &c.P
	for i := range p.Medias {
		p.Medias[i].Codec, p.Medias[i].PT, p.Medias[i].Kind = "", 0, "audio" // payloads come out as they are
	}
	if len(c.Body) == 0 {
		c.Body = []int{0}
	}
	// directly
	st := c.Styles[0]
	x := Resp{Status: c.Direct, CSeq: "5", Sess: "abc", Body: pattern(c.Tail, 1), Trans: "RTP/AVP/TCP"}
	var ctx rtsp.RtspResponseContext
	b := x.bytes(st)
	if err := rtsp.ParserRtspResponse(b, &ctx); err != nil || ctx.Status != c.Direct {
		r.Fatalf("status of %q: %d, %v", b, ctx.Status, err)
	}
	if err := rtsp.ParserRtspResponse([]byte("SIP/2.0 200 OK\r\n\r\n"), &ctx); err == nil {
		r.Fatalf("not RTSP, but accepted")
	}
	cut := b[:c.Direct*7%(bytes.Index(b, []byte("\r\n\r\n"))+4)]
	if err := rtsp.ParserRtspResponse(cut, &ctx); err == nil {
		r.Fatalf("cut off, but accepted: %q", cut)
	}
	var want []Item
	var data []byte
	for i := 0; i < c.Frames; i++ {
		ch := 2 * (i % len(p.Medias))
		pl := pattern(1+i*7, i)
		want = append(want, Item{Event: -1, Ch: ch, Data: pl})
		data = append(data, frame(ch, RTP{Seq: i, Ext: -1, Payload: pl}.bytes())...)
	}
	a := newApp()
	s := newServer(nil)
	s.Handle = func(i int, q *Req) {
		time.Sleep(p.lat(i))
		var b []byte
		no := Noise{Len: -1}
		if len(c.Noise) > 0 {
			no = c.Noise[i%len(c.Noise)]
		}
		if no.Len >= 0 && no.Before {
			b = append(b, no.bytes(i)...)
		}
		x := p.resp(q)
		x.Body = c.body(i, x.Body)
		b = append(b, x.bytes(c.Styles[i%len(c.Styles)])...)
		if no.Len >= 0 && !no.Before {
			b = append(b, no.bytes(i)...)
		}
		if q.Method == "PLAY" {
			b = append(b, data...)
		}
		p.feed(s, b)
	}
	if len(c.Noise) > 0 || c.Frames > 0 {
		r.NonTrivial()
	}
	r.LabelIf(len(p.Sizes) > 0, "segmented")
	r.LabelIf(len(c.Noise) > 0, "frames between")
	r.LabelIf(c.Tail/12 == 1, "60 kB")
	err := a.play(p, s)
	settle()
	if err != nil {
		r.Fatalf("the handshake failed: %v; %s\nresponses like %q", err, s.transcript(), Resp{Status: 200, CSeq: "1", Sess: p.ID}.bytes(st))
	}
	es := p.expected()
	p.matchAll(r, s, es)
	outcome(r, a, true)
	if len(a.sess.RtpMediaMap) != len(p.Medias) {
		r.Fatalf("%d medias: %v", len(a.sess.RtpMediaMap), a.sess.RtpMediaMap)
	}
	compareData(r, a.Datas(), want)
	a.sess.Close()
	settle()
	p.matchAll(r, s, append(es, Ctl{Kind: 4}.exp(p, "")))
	a.finish(s)
}

func compareData(r *kit.R, got, want []Item) {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			r.Fatalf("data %d of %d is missing: channel %d, %s", i, len(want), want[i].Ch, short(want[i].Data))
		case i >= len(want):
			r.Fatalf("data %d is too much: channel %d, %s", i, got[i].Ch, short(got[i].Data))
		case got[i].Ch != want[i].Ch || !bytes.Equal(got[i].copy, want[i].Data):
			r.Fatalf("data %d of %d: got channel %d, %s, want channel %d, %s", i, len(want), got[i].Ch, short(got[i].copy), want[i].Ch, short(want[i].Data))
		case !bytes.Equal(got[i].Data, got[i].copy):
			r.Fatalf("data %d was overwritten after its delivery", i)
		case !got[i].ok:
			r.Fatalf("data %d has another session", i)
		}
	}
}

// ---- R05 time ----

type R05 struct {
	P     Plan
	At    int  // request that gets its answer late or never
	Late  int  // ms; -1: never
	Part  int  // bytes of the response that come at once
	Noise int  // ms between frames that come all the time; 0: none
	Block bool // the peer does not read, either
	Bad   int  // if not 0: malformed responses come instead, every Late ms
	Ctl   Ctl  // request behind the handshake
}

func runR05(r *kit.R, ci any) {
	c := ci.(*R05)
	p := &c.P
	es := p.expected()
	in := c.At < len(es) // else: the control request
	late := c.Late < 0 || c.Late > 2000 || c.Block
	if c.Late == 2000 {
		c.Late = 1999
	}
	if late {
		c.Bad = 0
	}
	a := newApp()
	s := newServer(nil)
	var t0 time.Time // request At was sent
	stop := make(chan struct{})
	s.Handle = func(i int, q *Req) {
		if i != c.At && i > c.At && in && late {
			return
		}
		if i != c.At {
			time.Sleep(p.lat(i))
			if c.Block && i+1 == c.At {
				s.C.BlockWrites(true)
				t0 = time.Now()
			}
			p.feed(s, p.resp(q).bytes(p.Style))
			return
		}
		t0 = time.Now()
		b := p.resp(q).bytes(p.Style)
		n := c.Part % len(b)
		if c.Bad > 0 {
			for k := 0; k < c.Bad; k++ {
				time.Sleep(time.Duration(max(c.Late, 1)) * time.Millisecond)
				p.feed(s, []byte([]string{"RTSP\r\n\r\n", "RTSP/1.0\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: -5\r\n\r\n"}[c.Part%3]))
			}
			return
		}
		if c.Noise > 0 && n < 4 {
			n = 0
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(c.Noise) * time.Millisecond):
						s.C.Feed(frame(222, pattern(40, 3)))
					}
				}
			}()
			r.Label("other data meanwhile")
		}
		p.feed(s, b[:n])
		if c.Late >= 0 {
			time.Sleep(time.Duration(c.Late) * time.Millisecond)
			p.feed(s, b[n:])
		}
	}
	if c.Block && c.At == 0 {
		s.C.BlockWrites(true)
		t0 = time.Now()
	}
	r.LabelIf(c.Block, "peer does not read")
	if c.At > 0 {
		r.NonTrivial()
	}
	defer func() {
		close(stop)
		a.finish(s)
		time.Sleep(time.Minute)
	}()
	err := a.play(p, s)
	if in && c.Bad > 0 {
		r.Label("malformed response")
		if d := time.Since(t0); err == nil || d > 2*time.Second {
			r.Fatalf("a malformed response to request %d: after %v (limit 2 s) error %v", c.At, d, err)
		}
		outcome(r, a, false)
		return
	}
	if in && late {
		r.Label("silence in the handshake")
		d := time.Since(t0)
		if err == nil {
			r.Fatalf("success although request %d was not answered", c.At)
		}
		if d > 2*time.Second || d < 1900*time.Millisecond {
			r.Fatalf("the handshake gives up %v after request %d (limit 2 s), %v", d, c.At, err)
		}
		outcome(r, a, false)
		time.Sleep(5 * time.Second)
		settle()
		if ok, _ := s.C.Closed(); !ok {
			r.Fatalf("the connection is not closed 5 s after the handshake was given up")
		}
		if !c.Block {
			_, at := s.C.Closed()
			if at.Sub(t0) > 2*time.Second {
				r.Fatalf("the connection was closed %v after the request", at.Sub(t0))
			}
		}
		if a.Count(evDisconnected) != 1 {
			r.Fatalf("events %v", a.Events())
		}
		outcome(r, a, false)
		return
	}
	if err != nil {
		r.Fatalf("the handshake failed although every response came within 2 s: %v", err)
	}
	outcome(r, a, true)
	if !in {
		// a control request
		r.Label("control request")
		if c.Block {
			s.C.BlockWrites(true)
			t0 = time.Now()
		}
		c.At = s.NReqs() // the next one
		t1 := time.Now()
		if err := c.Ctl.send(a.sess, "rtsp://x/y"); err != nil {
			r.Fatalf("%v", err)
		}
		resp, err := a.sess.WaitRtspResponse()
		d := time.Since(t1)
		if c.Bad > 0 {
			r.Label("malformed response")
			if err == nil && resp.Status != 0 || d > 2*time.Second {
				r.Fatalf("a malformed response: after %v (limit 2 s) %+v %v", d, resp, err)
			}
			return
		}
		if late && (err == nil || d > 2*time.Second || d < 1900*time.Millisecond) {
			r.Fatalf("no response: after %v (limit 2 s) error %v", d, err)
		}
		if !late && err != nil {
			r.Fatalf("the response came within 2 s, but after %v: %v", d, err)
		}
		if late {
			time.Sleep(5 * time.Second)
			settle()
			if ok, _ := s.C.Closed(); !ok || a.Count(evDisconnected) != 1 {
				r.Fatalf("not closed 5 s after the request was given up, events %v", a.Events())
			}
			return
		}
	}
	// Close in front of a silent server
	s.mu.Lock()
	s.Handle = func(int, *Req) {}
	s.mu.Unlock()
	settle()
	c.At = 1 << 30
	t1 := time.Now()
	a.sess.Close()
	if d := time.Since(t1); d > 2*time.Second {
		r.Fatalf("Close took %v", d)
	}
	settle()
	if ok, _ := s.C.Closed(); !ok || a.Count(evDisconnected) != 1 {
		r.Fatalf("not closed after Close, events %v", a.Events())
	}
}

// ---- R06 ends ----

type R06 struct {
	P      Plan
	How    int
	Data   int // frames before the end
	Fail   int // the handshake fails at this request with 404; <0: it does not
	Delay  int // ms before the end
	Again  int // calls after the end
	Answer int // TEARDOWN: 0 answered, 1 not answered, 2 the server closes, 3 answered and closed
}

var ends = []string{"end of stream", "reset", "Close", "Close twice", "Close from the data handler", "Close from the outcome handler", "Close from the disconnected handler",
	"write fails, Close", "peer does not read, Close", "TEARDOWN, Close", "end within a frame", "pending request, Close"}

func runR06(r *kit.R, ci any) {
	c := ci.(*R06)
	p := &c.P
	for i := range p.Medias {
		p.Medias[i].Codec, p.Medias[i].PT, p.Medias[i].Kind = "", 0, "audio"
	}
	how := ends[c.How%len(ends)]
	es := p.expected()
	failed := c.Fail >= 0 && c.Fail < len(es)
	if c.Data == 0 || failed {
		if how == "Close from the data handler" {
			how = "Close"
		}
	}
	r.Label(how)
	r.LabelIf(failed, "failed handshake")
	if c.Data > 0 && !failed || c.Again > 0 {
		r.NonTrivial()
	}
	a := newApp()
	a.sess.Close() // no effect
	if err := a.sess.SendPause(); err == nil {
		r.Fatalf("a request without a connection")
	}
	s := newServer(nil)
	silent := false
	s.Handle = func(i int, q *Req) {
		time.Sleep(time.Millisecond)
		if silent {
			return
		}
		x := p.resp(q)
		if failed && i == c.Fail {
			x = Resp{Status: 404, CSeq: x.CSeq}
		}
		if q.Method == "TEARDOWN" {
			if c.Answer == 0 || c.Answer == 3 {
				p.feed(s, x.bytes(p.Style))
			}
			if c.Answer >= 2 {
				s.C.End(false)
			}
			return
		}
		p.feed(s, x.bytes(p.Style))
	}
	closeTook := time.Duration(0)
	closing := func() {
		t0 := time.Now()
		a.sess.Close()
		closeTook = max(closeTook, time.Since(t0))
	}
	closed := false
	switch how {
	case "Close from the data handler":
		a.onData = func(*rtsp.RtspData) {
			if !closed {
				closed = true
				closing()
			}
		}
	case "Close from the outcome handler":
		a.onEvent = func(e *rtsp.RtspEvent) {
			if e.EventType != evDisconnected {
				closing()
			}
		}
	case "Close from the disconnected handler":
		a.onEvent = func(e *rtsp.RtspEvent) {
			if e.EventType == evDisconnected {
				closing()
			}
		}
	}
	err := a.play(p, s)
	if (err != nil) != failed {
		r.Fatalf("handshake: %v", err)
	}
	up := how != "Close from the outcome handler" && how != "Close from the data handler"
	teardown := false
	if how == "Close from the outcome handler" {
		teardown = true
	} else {
		time.Sleep(time.Duration(c.Delay) * time.Millisecond)
		settle()
		if a.Count(evDisconnected) != 0 {
			r.Fatalf("disconnected for no reason, events %v", a.Events())
		}
		if !failed {
			for i := 0; i < c.Data; i++ {
				p.feed(s, frame(0, RTP{Seq: i, Ext: -1, Payload: pattern(10+i, i)}.bytes()))
			}
		}
		settle()
	}
	n0 := s.NReqs()
	limit := time.Duration(0)
	switch how {
	case "end of stream", "Close from the disconnected handler":
		s.C.End(false)
	case "reset":
		s.C.End(true)
	case "Close":
		closing()
		teardown = true
	case "Close twice":
		closing()
		closing()
		teardown = true
	case "Close from the data handler":
		teardown = true
		limit = 2 * time.Second // the handler holds up the response it waits for
		time.Sleep(limit)
	case "write fails, Close":
		s.C.FailWritesAt(len(s.C.Out()) + 5)
		closing()
	case "peer does not read, Close":
		s.C.BlockWrites(true)
		closing()
		limit = 5 * time.Second
		time.Sleep(limit)
	case "TEARDOWN, Close":
		a.sess.SendTeardown()
		_, err := a.sess.WaitRtspResponse()
		if c.Answer == 0 && err != nil {
			r.Fatalf("TEARDOWN: %v", err)
		}
		settle()
		closing()
	case "end within a frame":
		s.C.Feed([]byte{'$', 0, 1, 0, 0x80, 0, 0})
		s.C.End(false)
	case "pending request, Close":
		silent = c.Again%2 == 0
		if err := a.sess.SendPause(); err != nil {
			r.Fatalf("PAUSE: %v", err)
		}
		if c.Data%2 == 0 {
			settle()
		}
		n0++
		closing()
		teardown = true
	}
	settle()
	if closeTook > 2*time.Second {
		r.Fatalf("Close took %v", closeTook)
	}
	if ok, _ := s.C.Closed(); !ok {
		r.Fatalf("%s: the connection is not closed", how)
	}
	qs, bad := s.Reqs()
	if bad != "" {
		r.Fatalf("%s", bad)
	}
	if !up {
		n0 = len(es)
		if failed {
			n0 = c.Fail + 1
		}
	}
	if teardown {
		if len(qs) != n0+1 || qs[n0].Method != "TEARDOWN" || qs[n0].URL != p.U.Base() {
			r.Fatalf("%s: no TEARDOWN; %s", how, s.transcript())
		}
		id, _ := qs[n0].Header("Session")
		want := p.ID
		if failed && c.Fail <= 1+b2i(p.Auth != nil) {
			want = "" // no session yet
		}
		if id != want {
			r.Fatalf("%s: TEARDOWN has the session %q, want %q", how, id, want)
		}
	}
	check := func(when string) {
		items := a.Items()
		if n := a.Count(evDisconnected); n != 1 {
			r.Fatalf("%s: disconnected %d times %s: events %v", how, n, when, a.Events())
		}
		if items[len(items)-1].Event != evDisconnected && how != "Close from the outcome handler" {
			r.Fatalf("%s: something comes after the disconnected event: %v", how, a.Events())
		}
		outcome(r, a, !failed)
		if !failed && up && len(a.Datas()) != c.Data {
			r.Fatalf("%s: %d of %d data came", how, len(a.Datas()), c.Data)
		}
	}
	check("right away")
	// over
	t0 := time.Now()
	for i := 0; i < c.Again; i++ {
		if i%3 == 0 {
			a.sess.Close()
			continue
		}
		if err := (Ctl{Kind: i % 5}).send(a.sess, "rtsp://x/y"); err == nil {
			r.Fatalf("%s: a request is sent without a connection", how)
		}
	}
	if d := time.Since(t0); d > 0 {
		r.Fatalf("%s: calls after the end took %v", how, d)
	}
	out := len(s.C.Out())
	time.Sleep(time.Minute)
	settle()
	check("later")
	if len(s.C.Out()) != out {
		r.Fatalf("%s: something was written after the end", how)
	}
	s.done()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- R07 one request at a time ----

// Step7 is a step of the application or the server.
type Step7 struct {
	K      int // 0-2 send, 3-5 wait, 6 send twice, 7 a response nobody asked for, 8 data, 9 the response comes now, 10 Play, 11 something that is no response
	C      Ctl
	Status int
	N      int
}

type R07 struct {
	P     Plan
	Steps []Step7
	End   int // 1: the server ends the stream while a request is pending; 2: and the application takes its time with that event
}

func runR07(r *kit.R, ci any) {
	c := ci.(*R07)
	p := &c.P
	for i := range p.Medias {
		p.Medias[i].Codec, p.Medias[i].PT, p.Medias[i].Kind = "", 0, "audio"
	}
	a, s := start(r, p)
	es := p.expected()
	hold := func(i int, q *Req) {}
	s.mu.Lock()
	s.Handle = hold
	s.mu.Unlock()
	settle()
	pending, answered := false, 0
	data := 0
	var want []Item
	answer := func(st int) {
		p.feed(s, Resp{Status: st, CSeq: "99", Sess: p.ID, Body: pattern(st%7, 1)}.bytes(p.Style))
		settle()
	}
	for i, x := range c.Steps {
		where := fmt.Sprintf("step %d", i)
		switch {
		case x.K <= 2 || x.K == 6:
			for k := 0; k <= b2i(x.K == 6); k++ {
				n := len(s.C.Out())
				err := x.C.send(a.sess, "rtsp://x/y")
				settle()
				if pending {
					r.Label("request while one is pending")
					r.NonTrivial()
					if err == nil || len(s.C.Out()) != n {
						r.Fatalf("%s: a second request is sent while one is not answered, error %v", where, err)
					}
				} else {
					if err != nil {
						r.Fatalf("%s: %s is refused: %v", where, ctls[x.C.Kind], err)
					}
					pending, answered = true, 0
					es = append(es, x.C.exp(p, "rtsp://x/y"))
				}
			}
		case x.K <= 5 && pending:
			st := answered
			if st == 0 {
				st = x.Status
				go func() {
					time.Sleep(time.Duration(x.N) * time.Millisecond)
					p.feed(s, Resp{Status: st, CSeq: "1"}.bytes(p.Style))
				}()
			}
			resp, err := a.sess.WaitRtspResponse()
			if err != nil || resp.Status != st {
				r.Fatalf("%s: response %v, error %v; want status %d", where, resp, err, st)
			}
			pending = false
			r.Label("response")
		case x.K == 7 && !pending:
			n := x.N % 4
			if x.N%29 == 7 {
				n = 100 + x.N
			}
			for k := 0; k <= n; k++ {
				if x.N%3 == 0 {
					// with all that a response may have
					y := Resp{Status: x.Status, CSeq: fmt.Sprint(x.N), Sess: "other", Trans: "RTP/AVP/TCP;unicast;interleaved=8-9", Body: describe(p.Medias[:1])}
					if x.N%2 == 0 {
						y.Auth = []string{`Digest realm="other", nonce="other"`, `Basic realm="other"`}
					}
					st := p.Style
					st.Extra = append([]string{"Connection: close", "Location: rtsp://other/x"}[:x.N%4%3], st.Extra...)
					p.feed(s, y.bytes(st))
					settle()
					continue
				}
				answer(x.Status)
			}
			r.Label("response nobody asked for")
			r.NonTrivial()
		case x.K == 8:
			for k := 0; k <= x.N%5; k++ {
				ch := 2 * (data % len(p.Medias))
				pl := pattern(1+data%50, data)
				p.feed(s, frame(ch, RTP{Seq: data, Ext: -1, Payload: pl}.bytes()))
				want = append(want, Item{Ch: ch, Data: pl})
				data++
			}
			settle()
			if len(a.Datas()) != data {
				r.Fatalf("%s: %d of %d data came", where, len(a.Datas()), data)
			}
		case x.K == 10:
			// the session is in use
			n := len(s.C.Out())
			t0 := time.Now()
			var err error
			if x.N%2 == 0 {
				err = a.sess.Play("rtsp://127.0.0.1:9/x")
			} else {
				err = a.sess.PlayUseWebsocket("ws://127.0.0.1:9/x", "rtsp://127.0.0.1:9/x")
			}
			settle()
			if err == nil || len(s.C.Out()) != n || len(a.Events()) != 1 || time.Since(t0) > 0 {
				r.Fatalf("%s: Play while playing: %v, events %v", where, err, a.Events())
			}
			r.Label("Play while playing")
		case x.K == 11 && (!pending || answered == 0):
			p.feed(s, []byte([]string{"RTSP\r\n\r\n", "RTSP 20\r\n\r\n", "rtsp\r\n\r\n", "RTSP/1.0\r\n\r\n", "RTSP/1.0 no\r\n\r\n"}[x.N%5]))
			settle()
			if pending {
				r.Label("a malformed response")
				r.NonTrivial()
				if resp, err := a.sess.WaitRtspResponse(); err == nil && resp.Status != 0 {
					r.Fatalf("%s: response with status %d from a malformed one", where, resp.Status)
				}
				pending = false
			}
		case x.K == 9 && pending && answered == 0:
			answered = x.Status
			answer(x.Status)
		}
	}
	compareData(r, a.Datas(), want)
	p.matchAll(r, s, es)
	if c.End >= 1 && pending && answered == 0 {
		r.Label("end while a request is pending")
		if c.End == 2 {
			r.Label("end while a request is pending, slow event handler")
			r.NonTrivial()
			a.mu.Lock()
			a.onEvent = func(*rtsp.RtspEvent) { time.Sleep(30 * time.Second) }
			a.mu.Unlock()
		}
		s.C.End(false)
		t0 := time.Now()
		if x, err := a.sess.WaitRtspResponse(); err == nil {
			r.Fatalf("the connection ended, but there is a response %v", x)
		}
		if d := time.Since(t0); d > 0 {
			r.Fatalf("the connection is over, but the wait for a response takes %v", d)
		}
		for k := range ctls {
			if err := (Ctl{Kind: k}).send(a.sess, "rtsp://x/y"); err == nil {
				r.Fatalf("%s is sent without a connection", ctls[k])
			}
		}
	}
	a.finish(s)
}

// ---- R08 sessions in turn ----

// Round is one stream of several that are played one after the other.
type Round struct {
	P    Plan
	F    Fault
	Data int
	How  int // end: 0 Close, 1 end of stream, 2 reset
	Part bool
	Big  int  // more bytes in each packet
	Join bool // everything in one piece
	Open int  // 1-5: a request before the end, whose response nobody waits for; 6-10: there is none
}

type R08 struct{ Rounds []Round }

// Seen is what is to be the same.
type Seen struct {
	Reqs   []string
	Events []int
	Medias string
	Data   []string
	Err    bool
}

// data is what comes behind the handshake.
func (x *Round) data(p *Plan, s *Server) {
	var all []byte
	for i := 0; i < x.Data; i++ {
		// on channels of this and of other streams, an unfinished unit at the end
		pl := pattern(20+i+x.Big, i)
		pl[0], pl[1] = 0x65, 0x01
		if x.Part && i >= x.Data-3 {
			pl[0], pl[1] = 0x7c, 0x85 // the first fragment of a unit
		}
		b := frame(i%12, RTP{Seq: i, PT: 96, Ext: -1, Payload: pl, Marker: true}.bytes())
		if x.Join {
			all = append(all, b...)
		} else {
			p.feed(s, b)
		}
	}
	p.feed(s, all)
}

func (a *App) seen(r *kit.R, s *Server, n0 int, err error, medias string) Seen {
	se := Seen{Medias: medias, Err: err != nil}
	last := -1
	qs, bad := s.Reqs()
	for _, q := range qs {
		var c int
		v, _ := q.Header("CSeq")
		fmt.Sscan(v, &c)
		if last >= 0 && c != last+1 {
			r.Failf("CSeq %d after %d", c, last)
		}
		last = c
		se.Reqs = append(se.Reqs, strings.Replace(q.Raw, "\r\nCSeq: "+v+"\r\n", "\r\nCSeq: *\r\n", 1))
	}
	if bad != "" {
		se.Reqs = append(se.Reqs, bad)
	}
	for _, it := range a.Items()[n0:] {
		if it.Event >= 0 {
			se.Events = append(se.Events, it.Event)
		} else {
			se.Data = append(se.Data, fmt.Sprintf("%d: %x", it.Ch, it.copy))
		}
	}
	return se
}

func (a *App) round(r *kit.R, x *Round) Seen {
	p := &x.P
	n0 := len(a.Items())
	s := newServer(nil)
	s.Handle = func(i int, q *Req) {
		time.Sleep(p.lat(i))
		if i == x.F.At {
			x.F.apply(p, s, p.resp(q))
		} else {
			p.feed(s, p.resp(q).bytes(p.Style))
		}
	}
	err := a.play(p, s)
	settle()
	medias := fmt.Sprintf("%v", a.sess.RtpMediaMap)
	x.data(p, s)
	settle()
	if x.Open > 0 {
		if x.Open > 5 {
			s.mu.Lock()
			s.Handle = func(int, *Req) {}
			s.mu.Unlock()
		}
		Ctl{Kind: x.Open % 5}.send(a.sess, "rtsp://x/y")
		settle()
	}
	switch x.How {
	case 0:
		a.sess.Close()
	case 1:
		s.C.End(false)
	case 2:
		s.C.End(true)
	}
	settle()
	a.sess.Close()
	time.Sleep(10 * time.Second)
	settle()
	se := a.seen(r, s, n0, err, medias)
	s.done()
	settle()
	return se
}

func runR08(r *kit.R, ci any) {
	c := ci.(*R08)
	a := newApp()
	if len(c.Rounds) > 1 {
		r.NonTrivial()
	}
	for i := range c.Rounds {
		x := &c.Rounds[i]
		r.LabelIf(i > 0 && x.F.fails(x.P.expected()), "later handshake fails")
		got := a.round(r, x)
		want := newApp().round(r, x)
		if r.Failed() {
			return
		}
		// the order of the failure and the disconnected event is not told
		for _, s := range []*Seen{&got, &want} {
			if len(s.Events) == 2 && s.Events[0] > s.Events[1] {
				s.Events[0], s.Events[1] = s.Events[1], s.Events[0]
			}
		}
		if !reflect.DeepEqual(got, want) {
			f := func(s Seen) string {
				return fmt.Sprintf("failed %v, events %v, medias %s\n  requests %.1500q\n  data %.600q", s.Err, s.Events, s.Medias, s.Reqs, s.Data)
			}
			r.Fatalf("stream %d of a session used before is not like that of a new session\ngot  %s\nwant %s", i, f(got), f(want))
		}
		// a session that is used can be played again only when it is over
	}
}

// ---- R10 hostile servers ----

// Bite is a thing a hostile server sends.
type Bite struct {
	K    int
	Raw  []byte
	N, M int
	Wait int // ms
}

type R10 struct {
	P     Plan
	From  int    // the server is hostile from this request on
	Bites []Bite // what it sends, one by one for each request, the rest at the end
	Each  int
	Mut   []int // mutations of right responses: positions and bytes
	End   int
}

var nasty = []string{
	"RTSP\r\n\r\n", "RTSP", "RTSP/1.0 200", "RTSP/1.0 200\r\n\r\n", "RTSP/1.0 \r\n\r\n", "RTSP/1.0 2\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: -1\r\n\r\n",
	"RTSP/1.0 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: 2147483647\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: 4294967296\r\n\r\n",
	"RTSP/1.0 200 OK\r\nContent-Length: 65536\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: x\r\n\r\n", "RTSP/1.0 200 OK\r\n:\r\n: :\r\n\r\n", "RTSP/1.0 200 OK\r\nSession:\r\n\r\n",
	"RTSP/1.0 200 OK\r\nSession: ;\r\n\r\n", "RTSP/1.0 401 x\r\nWWW-Authenticate:\r\n\r\n", "RTSP/1.0 401 x\r\nWWW-Authenticate: Digest\r\n\r\n",
	"RTSP/1.0 401 x\r\nWWW-Authenticate: Digest realm=\r\n\r\n", "RTSP/1.0 401 x\r\nWWW-Authenticate: Digest realm=\"\r\n\r\n", "RTSP/1.0 401 x\r\nWWW-Authenticate: Digest =,=,\"\\\r\n\r\n",
	"RTSP/1.0 401 x\r\nWWW-Authenticate: Digest realm\r\n\r\n", "RTSP/1.0 401 x\r\nWWW-Authenticate: Basic\r\n\r\n", "RTSP/1.0 401 x\r\nWWW-Authenticate: Digest nonce=\"%s%n%d\", realm=\"%!\"\r\n\r\n",
	"RTSP/1.0 200 OK\r\nContent-Length: 4\r\n\r\n", "rtsp\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: 5\r\nContent-Length: -7\r\n\r\nabcde", "$", "$\x00", "$\x00\x00", "$\x00\x00\x00", "$\x00\xff\xff",
	"OPTIONS * RTSP/1.0\r\nCSeq: 1\r\n\r\n", "\r\n\r\n", "\x00\x00\x00\x00", "RTS", "RTSX/1.0 200 OK\r\n\r\n",
}

var nastySDP = []string{"m=", "m=video", "m=video 0 RTP/AVP", "m=video 0 RTP/AVP  ", "m=video 0 RTP/AVP x", "m=video 0 RTP/AVP 999999999999999999999", "m=video 0 RTP/AVP -1", "a=rtpmap:", "a=rtpmap:96",
	"a=rtpmap:96 /", "a=rtpmap:x H264/90000", "a=rtpmap:96 H264/x/y/z", "a=fmtp:", "a=fmtp:;", "a=fmtp:96 =;==;a=", "a=x-dimensions:,", "a=x-dimensions:a,b", "a=x-dimensions:1", "a=framerate:x",
	"a=control:", "a=control:r", "a=control:rtsp", "a=control:\x00", "a", "=", "a=", "t=0", "r=7d 1h 0", "r=", "z=", "c=IN IP4 1.2.3.4/", "c=IN IP6 ::/1/2/3", "k=", "b=", "o=", "s=", "v=", "a=:", "a=control:a\x00b", "i= "}

var naluTypes = []byte{0, 1, 5, 7, 23, 24, 25, 26, 27, 28, 29, 30, 31, 0x7c, 0x62, 0x60, 0x40, 0x42}

func (b Bite) bytes(p *Plan, q *Req) []byte {
	x := Resp{Status: 200, CSeq: "1", Sess: "5"}
	if q != nil {
		x = p.resp(q)
	}
	switch b.K % 8 {
	case 0:
		return b.Raw
	case 7: // a right packet, cut off or with another byte in it
		i := b.N % len(p.Medias)
		g := Group{Mode: b.N / 4, Last: b.M%9 == 0}
		for k := 0; k <= b.M%3; k++ {
			g.Units = append(g.Units, Unit{T: b.N + k, X: b.M * k, Len: (b.M + k*b.N) % 12, Seed: k})
		}
		var all []byte
		for k, x := range g.packets(p.Medias[i].Codec) {
			y := x.b
			if n := (b.M + k) % (len(y) + 2); n < len(y) {
				if b.N%5 < 3 {
					y = y[:n]
				} else {
					y = append([]byte{}, y...)
					y[n] = byte(b.N * 7)
				}
			}
			all = append(all, frame(2*i, RTP{PT: 96, Marker: x.m, Seq: k, Ext: -1, Payload: y}.bytes())...)
		}
		return all
	case 1:
		return []byte(nasty[b.N%len(nasty)])
	case 2, 3: // a RTP packet that is short or has a random inside
		n := b.M % 40
		pk := pattern(n, b.N)
		for i := range pk {
			if i < 12 {
				pk[i] = 0
			}
		}
		if n > 0 {
			pk[0] = []byte{0x80, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0x00, 0x92}[b.N%8]
		}
		if n > 12 {
			pk[12] = naluTypes[b.N/8%len(naluTypes)]
		}
		if n > 13 && b.N%3 == 0 {
			pk[13] = byte(b.M * 37)
		}
		copy(pk[min(n, 14):], b.Raw)
		return frame(b.N%6, pk)
	case 4: // a right response, damaged
		y := x.bytes(p.Style)
		for i := 0; i+1 < len(b.Raw); i += 2 {
			k := (int(b.Raw[i])*7 + b.N) % len(y)
			switch b.M % 3 {
			case 0:
				y[k] = b.Raw[i+1]
			case 1:
				y = append(y[:k], y[min(len(y), k+1+int(b.Raw[i+1])%5):]...)
			case 2:
				y = append(y[:k], append([]byte{b.Raw[i+1]}, y[k:]...)...)
			}
			if len(y) == 0 {
				return nil
			}
		}
		return y
	case 5: // a description with bad lines
		d := strings.Split(string(describe(p.Medias)), "\r\n")
		for i := 0; i <= b.M%3; i++ {
			k := (b.N + i*5) % len(d)
			d = append(d[:k], append([]string{nastySDP[(b.N+i*11)%len(nastySDP)]}, d[k:]...)...)
		}
		x.Body = []byte(strings.Join(d, "\r\n"))
		return x.bytes(p.Style)
	}
	return x.bytes(p.Style)
}

func runR10(r *kit.R, ci any) {
	c := ci.(*R10)
	p := &c.P
	a := newApp()
	s := newServer(nil)
	k := 0
	bite := func(q *Req) {
		if k < len(c.Bites) {
			b := c.Bites[k]
			k++
			p.feed(s, b.bytes(p, q))
			r.Label(fmt.Sprintf("bite %d", b.K%8))
			time.Sleep(time.Duration(b.Wait) * time.Millisecond)
		}
	}
	s.Handle = func(i int, q *Req) {
		if i >= c.From && i < c.From+20 {
			for n := 0; n <= c.Each; n++ {
				bite(q)
			}
			return
		}
		p.feed(s, p.resp(q).bytes(p.Style))
	}
	t0 := time.Now()
	r.LabelIf(c.From >= len(p.expected()), "hostile while streaming")
	err := a.play(p, s)
	if n := s.NReqs(); time.Since(t0) > time.Duration(n+2)*2*time.Second {
		r.Fatalf("the handshake took %v with %d requests", time.Since(t0), n)
	}
	settle()
	for k < len(c.Bites) {
		bite(nil)
	}
	settle()
	if len(c.Bites) > 1 {
		r.NonTrivial()
	}
	r.LabelIf(err == nil, "handshake done")
	switch c.End {
	case 1:
		s.C.End(false)
	case 2:
		s.C.End(true)
	}
	settle()
	t1 := time.Now()
	a.sess.Close()
	if d := time.Since(t1); d > 2*time.Second {
		r.Fatalf("Close took %v", d)
	}
	time.Sleep(6 * time.Second)
	settle()
	if ok, _ := s.C.Closed(); !ok {
		r.Fatalf("not closed after Close")
	}
	if n := a.Count(evDisconnected); n != 1 {
		r.Fatalf("disconnected %d times: events %v", n, a.Events())
	}
	if a.Count(evSuccess)+a.Count(evError) != 1 || (err == nil) != (a.Count(evSuccess) == 1) {
		r.Fatalf("outcome %v, events %v", err, a.Events())
	}
	s.done()
}
