package rtspcheck

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/kit"
)

// Plan is a server and the URL to play from it.
type Plan struct {
	U      URL
	Medias []Media
	Auth   *Auth
	ID     string // session id ("": the server does without)
	Once   bool   // it comes with the first response that can carry it only
	Style  Style
	Sizes  []int // how its bytes are cut
	Lat    []int // ms before the responses, in turn
	Trans  []int // how the Transport header of the answers is written, in turn
}

func genPlan(t *rapid.T) Plan {
	p := Plan{U: genURL(t, rapid.IntRange(0, 3).Draw(t, "creds") == 0), ID: genID(t)}
	p.Once = rapid.IntRange(0, 3).Draw(t, "once") == 0
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 0}).Draw(t, "medias")
	if n == 0 { // rare: every one costs the client 8 MB
		n = rapid.IntRange(6, 13).Draw(t, "more")
	}
	for ; n > 0; n-- {
		p.Medias = append(p.Medias, genMedia(t))
	}
	for i, all := 0, 0; i < len(p.Medias); i++ { // 65535 bytes are allowed
		m := &p.Medias[i]
		if all += 200 + m.Pad*11/10 + len(m.Control); all > 50000 {
			m.Pad, m.Control = 0, "c"
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "transports") == 0 {
		p.Trans = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 4).Draw(t, "transport")
	}
	if rapid.IntRange(0, 3).Draw(t, "latency") == 0 {
		p.Lat = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 100, 500}), 1, 4).Draw(t, "lat")
	}
	return p
}

func genID(t *rapid.T) string {
	if rapid.IntRange(0, 15).Draw(t, "long id") == 9 {
		return genLong(t)
	}
	return rapid.SampledFrom([]string{"12345678", "1", "A9fE-.$+_zz", "0000000000000000000000000000000000000000", "-5", "", "$a+.-_$", "%41%s%d", "a%"}).Draw(t, "id")
}

func (p *Plan) lat(i int) time.Duration {
	ms := 1
	if len(p.Lat) > 0 {
		ms = max(1, p.Lat[i%len(p.Lat)])
	}
	return time.Duration(ms) * time.Millisecond
}

func (p *Plan) creds() bool { return p.U.User != "" && p.U.Pass != "" }

// Exp is a request the client has to make.
type Exp struct {
	Method, URL string
	Hdr         [][2]string // has to have; "-": must not have
	Auth        int         // 0: must not have, 1: has to have
}

func (p *Plan) sess() [2]string {
	if p.ID == "" {
		return [2]string{"Session", "-"}
	}
	return [2]string{"Session", p.ID}
}

// expected are the requests of a handshake that succeeds.
func (p *Plan) expected() (es []Exp) {
	base := p.U.Base()
	auth := 0
	es = append(es, Exp{"DESCRIBE", base, [][2]string{{"Accept", "application/sdp"}, {"Session", "-"}}, 0})
	if p.Auth != nil {
		auth = 1
		es = append(es, Exp{"DESCRIBE", base, [][2]string{{"Accept", "application/sdp"}, {"Session", "-"}}, 1})
	}
	for i, m := range p.Medias {
		s := p.sess()
		if i == 0 {
			s[1] = "-"
		}
		es = append(es, Exp{"SETUP", trackURL(base, m.Control), [][2]string{{"Transport", fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)}, s}, auth})
	}
	return append(es, Exp{"PLAY", base, [][2]string{p.sess()}, auth})
}

// match compares a request with what is expected.
func (p *Plan) match(q *Req, e Exp, cseq int) string {
	if q.Method != e.Method || q.URL != e.URL {
		return fmt.Sprintf("the request is %s %s, want %s %s", q.Method, q.URL, e.Method, e.URL)
	}
	if v, _ := q.Header("CSeq"); v != strconv.Itoa(cseq) {
		return fmt.Sprintf("CSeq %q, want %d: %q", v, cseq, q.Raw)
	}
	for _, h := range e.Hdr {
		v, ok := q.Header(h[0])
		if h[1] == "-" {
			if ok {
				return fmt.Sprintf("header %s in %q", h[0], q.Raw)
			}
		} else if v != h[1] {
			return fmt.Sprintf("header %s is %q, want %q: %q", h[0], v, h[1], q.Raw)
		}
	}
	_, ok := q.Header("Authorization")
	if e.Auth == 0 && ok {
		return fmt.Sprintf("Authorization was not asked for: %q", q.Raw)
	}
	if e.Auth == 1 {
		if m := p.Auth.verify(q, p.U.User, p.U.Pass, p.U.Base()); m != "" {
			return fmt.Sprintf("authorization of %s: %s", q.Method, m)
		}
	}
	return ""
}

// matchAll compares all requests.
func (p *Plan) matchAll(r *kit.R, s *Server, es []Exp) {
	qs, bad := s.Reqs()
	cseq0 := 0
	if len(qs) > 0 {
		v, _ := qs[0].Header("CSeq")
		n, err := strconv.Atoi(v)
		if err != nil || n < 0 {
			r.Fatalf("CSeq %q: %q", v, qs[0].Raw)
		}
		cseq0 = n // any start will do
	}
	for i, q := range qs {
		if i >= len(es) {
			r.Fatalf("request %d is one too many: %q", i, q.Raw)
		}
		if m := p.match(q, es[i], cseq0+i); m != "" {
			r.Fatalf("request %d: %s", i, m)
		}
	}
	if bad != "" {
		r.Fatalf("request %d: %s", len(qs), bad)
	}
	if len(qs) < len(es) {
		r.Fatalf("only %d of %d requests came, missing %s %s", len(qs), len(es), es[len(qs)].Method, es[len(qs)].URL)
	}
}

// resp is the response of a server that works.
func (p *Plan) resp(q *Req) Resp {
	c, _ := q.Header("CSeq")
	x := Resp{Status: 200, CSeq: c}
	if p.Auth != nil && p.Auth.verify(q, p.U.User, p.U.Pass, p.U.Base()) != "" {
		x.Status, x.Auth = 401, p.Auth.headers()
		return x
	}
	switch q.Method {
	case "DESCRIBE":
		x.Body = describe(p.Medias)
	case "SETUP":
		x.Sess = p.ID
		x.Trans, _ = q.Header("Transport")
		v := 0
		if n := len(p.Trans); n > 0 {
			v = p.Trans[len(q.URL)%n]
		}
		channels := "i" + x.Trans[strings.LastIndex(x.Trans, "interleaved=")+1:]
		switch v % 5 {
		case 0:
			x.Trans += ";ssrc=12345678"
		case 1:
			x.Trans = "RTP/AVP/TCP;" + channels + ";unicast;mode=\"PLAY\""
		case 2:
			x.Trans = "" // not told
		case 3:
			x.Trans = "rtp/avp/tcp; destination=10.0.0.1; source=10.0.0.2; " + strings.ToUpper(channels[:1]) + channels[1:] + "; SSRC=FFFFFFFF"
		case 4:
			x.Trans = "RTP/AVP/TCP;unicast;" + channels + ";server_port=8000-8001;client_port=1-2;ttl=127;port=5000-5001"
		}
	default:
		x.Sess = p.ID
	}
	if _, ok := q.Header("Session"); ok && p.Once {
		x.Sess = "" // it has it
	}
	return x
}

func (p *Plan) feed(s *Server, b []byte) { s.C.Feed(kit.Split(b, p.Sizes)...) }

// serve answers all requests.
func (p *Plan) serve(s *Server) func(i int, q *Req) {
	return func(i int, q *Req) {
		time.Sleep(p.lat(i))
		p.feed(s, p.resp(q).bytes(p.Style))
	}
}

// play plays; the server has to be complete.
func (a *App) play(p *Plan, s *Server) error {
	go s.loop()
	if err := a.sess.ParsingURL(p.U.Full()); err != nil {
		s.done()
		return fmt.Errorf("url %q: %v", p.U.Full(), err)
	}
	return a.sess.SetConnection(s.C)
}

// start is a handshake that has to succeed.
func start(r *kit.R, p *Plan) (*App, *Server) {
	a := newApp()
	s := newServer(nil)
	s.Handle = p.serve(s)
	if err := a.play(p, s); err != nil {
		r.Failf("the handshake failed: %v; %s", err, s.transcript())
		a.finish(s)
		r.Fatalf("")
	}
	return a, s
}

// finish ends what is left, for cases that do not look at the end.
func (a *App) finish(s *Server) {
	s.C.BlockWrites(false)
	s.C.End(false)
	settle()
	a.sess.Close()
	s.done()
	settle()
}

func (s *Server) transcript() string {
	qs, bad := s.Reqs()
	var b strings.Builder
	for _, q := range qs {
		b.WriteString(q.Method + " " + q.URL + "; ")
	}
	return "requests: " + b.String() + bad
}

const (
	evSuccess      = 1
	evError        = 2
	evDisconnected = 3
)

// outcome checks what the application was told about the handshake.
func outcome(r *kit.R, a *App, ok bool) {
	s, e := a.Count(evSuccess), a.Count(evError)
	if ok && (s != 1 || e != 0) || !ok && (s != 0 || e != 1) {
		r.Fatalf("events %v: success %d times, failure %d times, handshake ok %v", a.Events(), s, e, ok)
	}
	for _, i := range a.Items() {
		if !i.ok {
			r.Fatalf("a handler was called with another session")
		}
	}
}

// rtp makes an interleaved frame with a RTP packet.
func frame(ch int, b []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}, b...)
}

// RTP is a RTP packet.
type RTP struct {
	Marker  bool
	PT      int
	Seq     int
	CSRC    int
	Ext     int // words of the extension; -1: no extension
	Pad     int // 0: no padding
	Prof    int // of the extension; 0: one-byte headers, 0x10000: 0
	TS      uint32
	SSRC    uint32 // 0: another
	Payload []byte
}

// Clock gives the packets of one media sequence numbers, time stamps and sources:
// the time stamp is the same in all packets of a unit.
type Clock struct {
	Seq   int
	TS    uint32
	Jumps []int    // of the sequence number behind a unit (besides 1), in turn
	Ticks []uint32 // of the time stamp, in turn
	SSRC  []uint32 // of the units, in turn

	n int
}

func genClock(t *rapid.T) (c Clock) {
	if rapid.IntRange(0, 2).Draw(t, "plain clock") == 0 {
		return
	}
	c.Seq = rapid.SampledFrom([]int{0, 1, 255, 32765, 65530, 65535}).Draw(t, "seq")
	c.TS = rapid.SampledFrom([]uint32{0, 1, 1<<31 - 3000, 1<<32 - 3000, 1<<32 - 1}).Draw(t, "ts")
	c.Jumps = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, -1, 1, 2, 255, 300, 20000, -20000, 33000}), 0, 4).Draw(t, "jumps")
	c.Ticks = rapid.SliceOfN(rapid.SampledFrom([]uint32{0, 1, 3000, 3600, 1 << 30, 1<<32 - 3000}), 0, 4).Draw(t, "ticks")
	c.SSRC = rapid.SliceOfN(rapid.SampledFrom([]uint32{1, 0xdeadbeef, 0xffffffff, 0x24000010, 0x80000000}), 0, 3).Draw(t, "ssrc")
	return
}

// next stamps a packet; end: it is the last one of a unit.
func (c *Clock) next(p RTP, end bool) RTP {
	p.Seq, p.TS = c.Seq&0xffff, c.TS
	if len(c.SSRC) > 0 {
		p.SSRC = c.SSRC[c.n%len(c.SSRC)]
	}
	c.Seq++
	if end {
		if len(c.Jumps) > 0 {
			c.Seq += c.Jumps[c.n%len(c.Jumps)]
		}
		if len(c.Ticks) > 0 {
			c.TS += c.Ticks[c.n%len(c.Ticks)]
		} else {
			c.TS += 3000
		}
		c.n++
	}
	return p
}

func (p RTP) bytes() []byte {
	b := make([]byte, 12, 12+len(p.Payload))
	b[0] = 0x80 | byte(p.CSRC)
	b[1] = byte(p.PT & 0x7f)
	if p.Marker {
		b[1] |= 0x80
	}
	b[2], b[3] = byte(p.Seq>>8), byte(p.Seq)
	if p.SSRC == 0 {
		p.SSRC = 0xdeadbeef
	}
	binary.BigEndian.PutUint32(b[4:], p.TS)
	binary.BigEndian.PutUint32(b[8:], p.SSRC)
	for i := 0; i < 4*p.CSRC; i++ {
		b = append(b, byte(0xC0+i))
	}
	if p.Ext >= 0 {
		b[0] |= 0x10
		if p.Prof == 0 {
			p.Prof = 0xBEDE
		}
		b = append(b, byte(p.Prof>>8), byte(p.Prof), byte(p.Ext>>8), byte(p.Ext))
		for i := 0; i < 4*p.Ext; i++ {
			b = append(b, byte(0xE0+i%16))
		}
	}
	b = append(b, p.Payload...)
	if p.Pad > 0 {
		b[0] |= 0x20
		for i := 1; i < p.Pad; i++ {
			b = append(b, 0)
		}
		b = append(b, byte(p.Pad))
	}
	return b
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// content is a pattern, or something with a meaning elsewhere.
func content(n, seed int) []byte {
	x := ""
	switch seed % 16 {
	case 1:
		x = "\x00"
	case 2:
		x = "\xff"
	case 3:
		x = "\x00\x00\x01"
	case 4:
		x = "\x00\x00\x00\x01\x67"
	case 5:
		x = "$\x00\x00\x05RTSP/1.0 200 OK\r\nCSeq: 3\r\n\r\n"
	case 6:
		x = "\r\n\r\n"
	case 7:
		x = "\x00\x00\x03\x00"
	default:
		return pattern(n, seed)
	}
	k := seed / 16 % len(x)
	return []byte(strings.Repeat(x, n/len(x)+2)[k : k+n])
}

func genSizes(t *rapid.T) []int {
	switch rapid.IntRange(0, 4).Draw(t, "segments") {
	case 0, 1:
		return nil // all at once
	case 2:
		return []int{rapid.SampledFrom([]int{1, 1, 2, 3, 5, 7, 1460}).Draw(t, "segment")}
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 7, 12, 16, 50, 100, 1460, 4096, 0}), 1, 8).Draw(t, "sizes")
}
