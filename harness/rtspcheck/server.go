// Package rtspcheck checks the RTSP client against a scripted server.
package rtspcheck

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	rtsp "github.com/NodeBoy2/rtspclient"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- requests ----

// Req is a request of the client.
type Req struct {
	Raw     string
	Method  string
	URL     string
	Headers [][2]string
	At      time.Time
}

var (
	reLine   = regexp.MustCompile(`^([A-Z_]+) ([^ \t]+) RTSP/1\.0$`)
	reHeader = regexp.MustCompile(`^([!#$%&'*+.^_|~0-9A-Za-z-]+): ?(.*[^ \t]|)[ \t]*$`)
)

// parseReq reads one request; n == 0: it is not complete.
func parseReq(b []byte) (q *Req, n int, err error) {
	end := bytes.Index(b, []byte("\r\n\r\n"))
	if end < 0 {
		if len(b) > 60000 {
			return nil, 0, fmt.Errorf("no end of the request in %.200q", b)
		}
		return nil, 0, nil
	}
	q = &Req{Raw: string(b[:end+4])}
	lines := strings.Split(string(b[:end]), "\r\n")
	m := reLine.FindStringSubmatch(lines[0])
	if m == nil {
		return nil, 0, fmt.Errorf("the request line %q is malformed, request %q", lines[0], q.Raw)
	}
	q.Method, q.URL = m[1], m[2]
	seen := map[string]bool{}
	for _, l := range lines[1:] {
		h := reHeader.FindStringSubmatch(l)
		if h == nil || strings.ContainsAny(l, "\r\n") {
			return nil, 0, fmt.Errorf("the header line %q is malformed, request %q", l, q.Raw)
		}
		k := strings.ToLower(h[1])
		if seen[k] {
			return nil, 0, fmt.Errorf("the header %q occurs twice, request %q", h[1], q.Raw)
		}
		seen[k] = true
		q.Headers = append(q.Headers, [2]string{k, h[2]})
	}
	return q, end + 4, nil
}

// Header is the value of a header ("" and false without it).
func (q *Req) Header(k string) (string, bool) {
	for _, h := range q.Headers {
		if strings.EqualFold(h[0], k) {
			return h[1], true
		}
	}
	return "", false
}

// ---- responses ----

// Style is how a server writes its responses; it has no meaning.
type Style struct {
	Case   int      // header names: as usual, lower, upper, mixed
	Colon  int      // separator
	Trail  int      // trailing spaces
	Rot    int      // order of the headers
	Low    bool     // rtsp/1.0
	Reason string   // reason phrase
	Params string   // parameters behind the session id
	Extra  []string // more header lines
	Many   int      // times they come
	Long   int      // bytes of one more
	Zeros  int      // in front of the content length
}

var extras = []string{
	"Server: x/1.0 (a:b; c=d)", "Date: Thu, 01 Jan 1970 00:00:00 GMT", "Cache-Control: no-cache", "Content-Base: rtsp://other/base/",
	"Content-Type: application/sdp", "Public: OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE", "X-Session: fake", "X-Content-Length: 99999",
	"Old-Session: 77;timeout=1", "Session-Timeout: 5", "RTP-Info: url=rtsp://h/x/trackID=1;seq=1;rtptime=2", "X-Empty:", "Content-Length-Hint: 3",
	"Range: npt=0.000-", "X: $\x00\x00\x10", "Via: RTSP/1.0 401 Unauthorized", "WWW-Authenticate-Info: Digest realm=\"no\", nonce=\"no\"", "Retry-After: 10",
	"Proxy-Authenticate: Basic realm=\"p\"", "Accept-Ranges: NPT", "Warning: Session: 5",
	"Connection: close", "Connection: Keep-Alive", "Location: rtsp://other/x", "Allow: DESCRIBE", "Scale: 2.0", "Speed: 0.5", "Unsupported: x", "Timestamp: 1 0.5",
	"Content-Location: rtsp://other/y/", "Last-Modified: Thu, 01 Jan 1970 00:00:00 GMT", "Expires: 0", "Content-Encoding: identity", "Transport-Info: UDP", "x-Accept-Dynamic-Rate: 1",
}

func genStyle(t *rapid.T) Style {
	s := Style{Case: rapid.IntRange(0, 3).Draw(t, "case"), Colon: rapid.IntRange(0, 5).Draw(t, "colon"), Trail: max(0, rapid.IntRange(-2, 3).Draw(t, "trail")),
		Rot: rapid.IntRange(0, 7).Draw(t, "rot"), Low: rapid.IntRange(0, 4).Draw(t, "low") == 0,
		Reason: rapid.SampledFrom([]string{"OK", "", "Not: really, 500 of them", "Session: 9", "x y z"}).Draw(t, "reason"),
		Params: rapid.SampledFrom([]string{"", "", ";timeout=60", "; timeout=60", " ;timeout=60;x=\"a;b\""}).Draw(t, "params")}
	for n := rapid.IntRange(0, 5).Draw(t, "extras"); n > 0; n-- {
		s.Extra = append(s.Extra, rapid.SampledFrom(extras).Draw(t, "extra"))
	}
	s.Zeros = max(0, rapid.IntRange(-8, 4).Draw(t, "zeros"))
	if rapid.IntRange(0, 15).Draw(t, "header size") == 11 {
		s.Many = rapid.IntRange(1, 80).Draw(t, "many")
		s.Long = rapid.SampledFrom([]int{0, 100, 1000, 4090, 8190, 20000}).Draw(t, "long")
	}
	return s
}

func (s Style) name(k string) string {
	switch s.Case {
	case 1:
		return strings.ToLower(k)
	case 2:
		return strings.ToUpper(k)
	case 3:
		b := []byte(strings.ToLower(k))
		for i := 1; i < len(b); i += 2 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
		return string(b)
	}
	return k
}

// Resp is a response.
type Resp struct {
	Status int
	CSeq   string
	Sess   string
	Auth   []string // challenges
	Trans  string
	Body   []byte
	Len    bool // Content-Length although there is no body
}

// bytes writes the response.
func (p Resp) bytes(s Style) []byte {
	var hs []string
	col := []string{": ", ":", ":   ", " : ", ":\t", ": \t "}[s.Colon%6]
	tr := strings.Repeat(" ", s.Trail)
	if s.Trail > 2 {
		tr = "\t"
	}
	add := func(k, v string) { hs = append(hs, s.name(k)+col+v+tr) }
	if p.CSeq != "" {
		add("CSeq", p.CSeq)
	}
	if p.Sess != "" {
		add("Session", p.Sess+s.Params)
	}
	if p.Trans != "" {
		add("Transport", p.Trans)
	}
	if p.Body != nil || p.Len {
		add("Content-Length", strings.Repeat("0", s.Zeros)+fmt.Sprint(len(p.Body)))
	}
	// extra lines in front of, between and behind the others
	var extra []string
	for n := 0; n <= s.Many && len(extra) < 200; n++ {
		extra = append(extra, s.Extra...)
		if s.Many > 0 {
			extra = append(extra, fmt.Sprint("X-", n, ": ", n))
		}
	}
	if s.Long > 0 {
		extra = append(extra, "X-Long: "+strings.Repeat("a: b, ", s.Long/6))
	}
	for i, x := range extra {
		k := (s.Rot + i*3) % (len(hs) + 1)
		hs = append(hs[:k], append([]string{x}, hs[k:]...)...)
	}
	if len(hs) > 0 {
		k := s.Rot % len(hs)
		hs = append(append([]string{}, hs[k:]...), hs[:k]...)
	}
	// challenges keep their order
	for i, a := range p.Auth {
		x := s.name("WWW-Authenticate") + col + a + tr
		k := len(hs)
		if s.Rot%2 == 1 && i == 0 {
			k = 0
		}
		hs = append(hs[:k], append([]string{x}, hs[k:]...)...)
	}
	v := "RTSP/1.0"
	if s.Low {
		v = "rtsp/1.0"
	}
	reason := s.Reason
	if reason != "" {
		reason = " " + reason
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %03d%s\r\n", v, p.Status, reason)
	for _, h := range hs {
		b.WriteString(h + "\r\n")
	}
	b.WriteString("\r\n")
	b.Write(p.Body)
	if b.Len() > 65000 && (s.Many > 0 || s.Long > 0) {
		s.Many, s.Long = 0, 0
		return p.bytes(s)
	}
	return b.Bytes()
}

// ---- the server ----

// Server takes the requests and gives each to the handler, one by one.
type Server struct {
	C      *kit.Conn
	Handle func(i int, q *Req)

	mu   sync.Mutex
	reqs []*Req
	bad  string
}

func (s *Server) loop() {
	pos := 0
	var buf []byte
	for {
		b, ok := s.C.NextOut(pos)
		if !ok {
			return
		}
		pos += len(b)
		buf = append(buf, b...)
		for {
			q, n, err := parseReq(buf)
			if err != nil {
				s.mu.Lock()
				if s.bad == "" {
					s.bad = err.Error()
				}
				s.mu.Unlock()
				return
			}
			if n == 0 {
				break
			}
			q.At = time.Now()
			buf = buf[n:]
			s.mu.Lock()
			s.reqs = append(s.reqs, q)
			i := len(s.reqs) - 1
			s.mu.Unlock()
			if s.Handle != nil {
				s.Handle(i, q)
			}
		}
	}
}

// Reqs are the requests so far, and what was wrong with the one that was not read.
func (s *Server) Reqs() ([]*Req, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Req(nil), s.reqs...), s.bad
}

// NReqs is the number of requests so far.
func (s *Server) NReqs() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.reqs) }

func newServer(h func(i int, q *Req)) *Server {
	s := &Server{C: kit.NewConn(), Handle: h}
	return s
}

// ---- what the application sees ----

// Item is one call of a handler.
type Item struct {
	Event int // -1: data
	Ch    int
	Data  []byte
	copy  []byte
	At    time.Time
	ok    bool // the session is the right one
}

// App records the calls of the handlers.
type App struct {
	mu      sync.Mutex
	items   []Item
	sess    *rtsp.RtspClientSession
	onData  func(d *rtsp.RtspData)
	onEvent func(e *rtsp.RtspEvent)
}

func newApp() *App {
	a := &App{}
	a.sess = rtsp.NewRtspClientSession(a.data, a.event)
	return a
}

func (a *App) data(d *rtsp.RtspData) {
	a.mu.Lock()
	a.items = append(a.items, Item{Event: -1, Ch: d.ChannelNum, Data: d.Data, copy: append([]byte{}, d.Data...), At: time.Now(), ok: d.Session == a.sess})
	f := a.onData
	a.mu.Unlock()
	if f != nil {
		f(d)
	}
}

func (a *App) event(e *rtsp.RtspEvent) {
	a.mu.Lock()
	a.items = append(a.items, Item{Event: e.EventType, At: time.Now(), ok: e.Session == a.sess})
	f := a.onEvent
	a.mu.Unlock()
	if f != nil {
		f(e)
	}
}

// Items are the calls so far.
func (a *App) Items() []Item {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]Item(nil), a.items...)
}

// Events are the events so far.
func (a *App) Events() (ev []int) {
	for _, i := range a.Items() {
		if i.Event >= 0 {
			ev = append(ev, i.Event)
		}
	}
	return
}

// Count counts events.
func (a *App) Count(k int) (n int) {
	for _, e := range a.Events() {
		if e == k {
			n++
		}
	}
	return
}

// Datas are the data so far.
func (a *App) Datas() (d []Item) {
	for _, i := range a.Items() {
		if i.Event < 0 {
			d = append(d, i)
		}
	}
	return
}

// ---- URLs ----

// URL is a rtsp URL.
type URL struct {
	User, Pass string
	HasPass    bool
	Host       string // with port
	Path       string
	Query      string
}

// Base is the URL without credentials.
func (u URL) Base() string {
	return urlEncoder.Replace(u.raw())
}

// urlEncoder encodes what may not be in a URL.
var urlEncoder = strings.NewReplacer(" ", "%20", "\"", "%22", "\\", "%5C", "\u00e9", "%C3%A9")

// raw is the URL as a person may write it.
func (u URL) raw() string {
	s := "rtsp://" + u.Host + u.Path
	if u.Query != "" {
		s += "?" + u.Query
	}
	return s
}

const unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"

func escape(s string, all bool, keep string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(unreserved+keep, s[i]) >= 0 && !all {
			b.WriteByte(s[i])
		} else {
			fmt.Fprintf(&b, "%%%02X", s[i])
		}
	}
	return b.String()
}

// Full is the URL with the credentials.
func (u URL) Full() string {
	if u.User == "" && !u.HasPass {
		return u.raw()
	}
	keep := ""
	if len(u.Path+u.User)%2 == 0 {
		keep = "!$&'()*+,;=" // these need not be encoded
	}
	c := escape(u.User, false, keep)
	if u.HasPass {
		if keep != "" {
			keep += ":@"
		}
		c += ":" + escape(u.Pass, len(u.Pass)%2 == 1, keep)
	}
	return strings.Replace(u.raw(), "//", "//"+c+"@", 1)
}

func genURL(t *rapid.T, creds bool) URL {
	u := URL{Host: rapid.SampledFrom([]string{"h", "example.com", "Cam.Example.COM", "10.0.0.1:8554", "h:554", "[::1]:8554", "[fe80::1]", "a-b.c.example.org:65535"}).Draw(t, "host"),
		Path: rapid.SampledFrom([]string{"/live", "/a/b/c.sdp", "/Streaming/Channels/101", "/x=1&y=2", "/", "", "/%20a%2Fb", "/stream:1", "/a;b", "/live?", "/Camera 1/main stream", "/caf\u00e9/\"1\""}).Draw(t, "path"),
	}
	if rapid.IntRange(0, 2).Draw(t, "has query") == 0 {
		u.Query = rapid.SampledFrom([]string{"a=1", "user=x&pw=y", "transportmode=unicast&p=1", "u=http://x/?y", "name=front door&n=1", "q=\"a\\b\""}).Draw(t, "query")
	}
	switch rapid.IntRange(0, 23).Draw(t, "long url") {
	case 11:
		u.Path = strings.TrimSuffix(u.Path, "/") + "/" + genLong(t)
	case 12:
		u.Query = "long=" + genLong(t)
	}
	if creds {
		u.User, u.Pass, u.HasPass = genCred(t, "user"), genCred(t, "password"), true
	}
	return u
}

// genLong is a long word.
func genLong(t *rapid.T) string {
	n := rapid.SampledFrom([]int{20, 64, 100, 128, 255, 256, 500, 1000, 1024, 3000}).Draw(t, "long")
	return strings.Repeat("0aA1bB2cC3dD4eE5fF6g", n/20+1)[:n]
}

func genCred(t *rapid.T, l string) string {
	if rapid.Bool().Draw(t, l+" plain") {
		return rapid.StringMatching(`[a-z]{1,8}[0-9]{0,3}`).Draw(t, l)
	}
	if rapid.IntRange(0, 7).Draw(t, l+" long") == 5 {
		return genLong(t)
	}
	return rapid.StringOfN(rapid.SampledFrom([]rune("aZ9@:/?#% &=+,;!$'()*[]é-._~\"\\")), 1, 10, -1).Draw(t, l)
}

// ---- descriptions ----

// Media is one media of the description.
type Media struct {
	Kind    string
	PT      int
	More    []int // further formats
	Codec   string
	Freq    int // 0: not told
	Chans   int // 0: not told
	Control string
	Attrs   []string // further attributes (a=...)
	Proto   string
	Map     string // "-": the rtpmap is among Attrs
	V       int    // further lines, bit by bit; those of the first media also tell about the session
	Format  string // in place of PT
	Pad     int    // bytes of other attributes
}

func (m Media) rtpmap() string {
	if m.Codec == "" {
		return ""
	}
	s := fmt.Sprintf("%d %s", m.PT, m.Codec)
	if m.Freq > 0 {
		s += fmt.Sprintf("/%d", m.Freq)
		if m.Chans > 0 {
			s += fmt.Sprintf("/%d", m.Chans)
		}
	}
	return s
}

func describe(ms []Media) []byte {
	var b strings.Builder
	v := 0
	if len(ms) > 0 {
		v = ms[0].V >> 8
	}
	some := func(v int, lines ...string) {
		for i, l := range lines {
			if v>>i&1 == 1 {
				b.WriteString(l + "\r\n")
			}
		}
	}
	b.WriteString("v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=" + []string{"session", "session", "-", " "}[v>>10&3] + "\r\n")
	some(v, "i=about m=video", "u=rtsp://h/x", "e=a@h", "p=+1 2")
	if v>>4&1 == 0 {
		b.WriteString("c=IN IP4 0.0.0.0\r\n")
	}
	some(v>>5, "b=AS:5000")
	some(v>>12, "b=RS:0", "b=TIAS:5000000")
	b.WriteString("t=0 0\r\n")
	some(v>>6, "r=7d 1h 0 25h", "z=2882844526 -1h 2898848070 0", "k=prompt")
	b.WriteString("a=control:*\r\na=range:npt=0-\r\n")
	some(v>>9, "a=framerate:7", "a=x-dimensions:7,7", "a=rtpmap:96 session/7/7", "a=fmtp:96 session=7", "a=recvonly")
	for _, m := range ms {
		p := m.Proto
		if p == "" {
			p = "RTP/AVP"
		}
		port := []string{"0", "5004", "49170/2", "65535"}[m.V&3]
		format := m.Format
		if format == "" {
			format = fmt.Sprint(m.PT)
		}
		fmt.Fprintf(&b, "m=%s %s %s %s", m.Kind, port, p, format)
		for _, x := range m.More {
			fmt.Fprintf(&b, " %d", x)
		}
		b.WriteString("\r\n")
		some(m.V>>2, "i=a=control:title", "c=IN IP6 ::", "b=AS:500", "b=CT:1")
		some(m.V>>9, "b=TIAS:499000", "b=RR:0", "b=X-media:7")
		some(m.V>>6, "k=base64:YTE9", "a=x-media")
		var as []string
		if x := m.rtpmap(); x != "" && m.Map != "-" {
			as = append(as, "rtpmap:"+x)
		}
		as = append(as, m.Attrs...)
		if m.Control != "" {
			k := len(m.Control) % (len(as) + 1)
			as = append(as[:k], append([]string{"control:" + m.Control}, as[k:]...)...)
		}
		for n := 0; n < m.Pad; n += 100 {
			k := len(as) * (n / 100 % 3) / 2 // in front, between and behind
			as = append(as[:k], append([]string{fmt.Sprintf("x-pad%d:%090d", n, 0)}, as[k:]...)...)
		}
		for _, a := range as {
			b.WriteString("a=" + a + "\r\n")
		}
	}
	if v>>14&1 == 1 {
		return []byte(strings.ReplaceAll(b.String(), "\r\n", "\n"))
	}
	return []byte(b.String())
}

var controls = []string{"trackID=1", "track1", "streamid=0", "video/track 1", "a", "rts", "rtspx", "trackID=1?x=rtsp://h", "RT", "Rtsp", "media/trackID=0/x",
	"rtsp", "rtsp1", "rtspx/track1", "RTSPtrack=1", "rtsp/h/x", "rtsp:x", "rtsp:/h/x", "rtsp//h/x", "xrtsp://h/x", "x/rtsp://h/y", "http://h/x", "Rtspx://h/y",
	"", "*", "/trackID=1", "//x", "trackID=1/", "/a/b/", "?x=1", "#1", "./a", "../a", ":", "%31", "caf\u00e9"}

func genControl(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "absolute") == 0 {
		return rapid.SampledFrom([]string{"rtsp://h/live/trackID=1", "RTSP://other.example.com:99/x?y=1", "rtsp://[::1]:8554/a/b",
			"Rtsp://h/live/trackID=1", "rTSP://h/x", "rtsps://h:322/x/1", "RTSPU://h/x/1", "rtsp://", "rtsp://h"}).Draw(t, "control")
	}
	c := rapid.SampledFrom(controls).Draw(t, "control")
	if rapid.IntRange(0, 31).Draw(t, "long control") == 17 {
		c += "/" + genLong(t)
	}
	if strings.Contains(c, " ") {
		return "trackID=2"
	}
	return c
}

func trackURL(base, control string) string {
	if i := strings.Index(control, "://"); i > 0 {
		for _, s := range []string{"rtsp", "rtsps", "rtspu"} {
			if strings.EqualFold(control[:i], s) {
				return control
			}
		}
	}
	return base + "/" + control
}

var plainMedias = []Media{
	{Kind: "video", PT: 96, Codec: "H264", Freq: 90000}, {Kind: "video", PT: 97, Codec: "H265", Freq: 90000}, {Kind: "audio", PT: 0},
	{Kind: "audio", PT: 98, Codec: "MPEG4-GENERIC", Freq: 44100, Chans: 2}, {Kind: "application", PT: 107, Codec: "vnd.onvif.metadata", Freq: 90000},
	{Kind: "audio", PT: 8}, {Kind: "video", PT: 26}, {Kind: "application", PT: 100}, {Kind: "video", PT: 101, Codec: "VP8"},
}

func genPad(t *rapid.T) int {
	if rapid.IntRange(0, 31).Draw(t, "padded") != 21 {
		return 0
	}
	return rapid.SampledFrom([]int{100, 500, 1000, 2000, 3900, 4000, 8000, 9000, 16000, 20000, 30000}).Draw(t, "pad")
}

func genMedia(t *rapid.T) Media {
	m := rapid.SampledFrom(plainMedias).Draw(t, "media")
	if rapid.IntRange(0, 7).Draw(t, "other kind") == 7 {
		m.Kind = rapid.SampledFrom([]string{"text", "message", "image", "data", "control", "audio", "video", "application"}).Draw(t, "kind")
	}
	m.Control = genControl(t)
	m.Pad = genPad(t)
	return m
}

// ---- authentication ----

// Auth is what the server asks for.
type Auth struct {
	Kinds  []string // challenges in this order: "Digest", "Basic", others
	Realm  string
	Nonce  string
	Quote  int      // 0 quoted, 1 tokens where possible, 2 single quotes never
	Order  int      // order of the parameters
	Sep    string   // between parameters
	More   []string // further parameters
	Case   int      // case of the scheme and the names
	Reject int      // the server does not accept the credentials: at this request with credentials (1...); 0: it does
}

func (a Auth) header(kind string) string {
	cs := func(s string) string {
		switch a.Case {
		case 1:
			return strings.ToLower(s)
		case 2:
			return strings.ToUpper(s)
		}
		return s
	}
	q := func(v string) string {
		if a.Quote == 1 && regexp.MustCompile(`^[A-Za-z0-9._-]+$`).MatchString(v) {
			return v
		}
		return `"` + v + `"`
	}
	var ps []string
	if strings.EqualFold(kind, "Digest") {
		ps = append(ps, cs("realm")+"="+q(a.Realm), cs("nonce")+"="+q(a.Nonce))
		ps = append(ps, a.More...)
		k := a.Order % len(ps)
		ps = append(append([]string{}, ps[k:]...), ps[:k]...)
	} else {
		ps = append(ps, cs("realm")+"="+q(a.Realm+map[bool]string{true: "", false: "-" + kind}[kind == "Basic"]))
	}
	return cs(kind) + " " + strings.Join(ps, a.Sep)
}

func (a Auth) headers() (h []string) {
	for _, k := range a.Kinds {
		h = append(h, a.header(k))
	}
	return
}

func md5hex(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

var reParam = regexp.MustCompile(`^\s*([a-z]+)=(?:"((?:[^"\\]|\\.)*)"|([^",\s]+))\s*(?:,|$)`)

// verify checks the Authorization header of a request.
func (a Auth) verify(q *Req, user, pass, base string) string {
	v, ok := q.Header("Authorization")
	if !ok {
		return "no Authorization"
	}
	kind := ""
	for _, k := range a.Kinds {
		if strings.EqualFold(k, "Digest") || (kind == "" && strings.EqualFold(k, "Basic")) {
			kind = strings.ToLower(k)
		}
	}
	if kind == "basic" {
		w := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
		if v != w {
			return fmt.Sprintf("got %q want %q", v, w)
		}
		return ""
	}
	if !strings.HasPrefix(v, "Digest ") {
		return fmt.Sprintf("%q is no digest", v)
	}
	ps := map[string]string{}
	for rest := v[7:]; rest != ""; {
		m := reParam.FindStringSubmatch(rest)
		if m == nil {
			return fmt.Sprintf("%q is malformed at %q", v, rest)
		}
		if _, dup := ps[m[1]]; dup {
			return fmt.Sprintf("%q has %s twice", v, m[1])
		}
		ps[m[1]] = m[2] + m[3]
		if m[1] == "username" { // what the challenge told comes back as it was
			ps[m[1]] = regexp.MustCompile(`\\(.)`).ReplaceAllString(m[2], "$1") + m[3]
		}
		rest = rest[len(m[0]):]
	}
	if ps["username"] != user || ps["realm"] != a.Realm || ps["nonce"] != a.Nonce {
		return fmt.Sprintf("%q: username, realm or nonce is wrong, want %q %q %q", v, user, a.Realm, a.Nonce)
	}
	if ps["uri"] != base && ps["uri"] != q.URL {
		return fmt.Sprintf("%q: uri is not that of the request %q nor the base %q", v, q.URL, base)
	}
	w := md5hex(md5hex(user+":"+a.Realm+":"+pass) + ":" + a.Nonce + ":" + md5hex(q.Method+":"+ps["uri"]))
	if ps["response"] != w {
		return fmt.Sprintf("%q: the response is wrong, want %s", v, w)
	}
	return ""
}

func genAuth(t *rapid.T) *Auth {
	a := &Auth{Quote: rapid.IntRange(0, 1).Draw(t, "quote"), Order: rapid.IntRange(0, 4).Draw(t, "order"), Case: max(0, rapid.IntRange(-2, 2).Draw(t, "auth case")),
		Sep: rapid.SampledFrom([]string{", ", ",", ", ", " , ", ",  "}).Draw(t, "sep")}
	a.Kinds = rapid.SampledFrom([][]string{{"Digest"}, {"Digest"}, {"Basic"}, {"Digest", "Basic"}, {"Basic", "Digest"}, {"NTLM", "Basic"}, {"Digest", "Negotiate"}}).Draw(t, "kinds")
	text := rapid.StringOfN(rapid.SampledFrom([]rune("abZ09,=;: .-_()/+@é'")), 1, 16, -1)
	plain := rapid.StringMatching(`[a-zA-Z0-9]{1,32}`)
	a.Realm, a.Nonce = plain.Draw(t, "realm"), plain.Draw(t, "nonce")
	if rapid.Bool().Draw(t, "odd realm") {
		a.Realm = text.Draw(t, "realm text")
	} else if rapid.IntRange(0, 15).Draw(t, "no realm") == 7 {
		a.Realm = ""
	}
	if rapid.IntRange(0, 2).Draw(t, "odd nonce") == 0 {
		a.Nonce = text.Draw(t, "nonce text")
	}
	switch rapid.IntRange(0, 15).Draw(t, "long challenge") {
	case 7:
		a.Nonce = genLong(t)
	case 8:
		a.Realm = genLong(t)
	}
	if rapid.IntRange(0, 9).Draw(t, "escaped") == 0 {
		a.Realm += `\"q\"`
	}
	for n := rapid.IntRange(0, 2).Draw(t, "more"); n > 0; n-- {
		a.More = append(a.More, rapid.SampledFrom([]string{`stale="FALSE"`, `stale=true`, `algorithm=MD5`, `algorithm="MD5"`, `opaque="a, b=c"`, `domain="rtsp://a/ rtsp://b/"`,
			`opaque="realm=\"x\", nonce=\"y\""`, `x-realm="no"`, `cnonce="no"`}).Draw(t, "param"))
	}
	return a
}

func (a *Auth) verifies(user, pass string) bool { return a != nil && user != "" && pass != "" }

// ---- running ----

// settle waits until nothing moves.
func settle() { synctest.Wait() }

// done ends a case: everything the harness started ends.
func (s *Server) done() { s.C.Kill() }

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x... (%d bytes, %s)", b[:40], len(b), md5hex(string(b))[:8])
	}
	return fmt.Sprintf("%x", b)
}
