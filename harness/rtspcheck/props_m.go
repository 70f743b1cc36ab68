package rtspcheck

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	rtsp "github.com/NodeBoy2/rtspclient"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- M01 what the description says ----

type static struct {
	codec       string
	freq, chans int
}

// RFC 3551
var statics = map[int]static{0: {"PCMU", 8000, 1}, 3: {"GSM", 8000, 1}, 4: {"G723", 8000, 1}, 5: {"DVI4", 8000, 1}, 6: {"DVI4", 16000, 1}, 7: {"LPC", 8000, 1},
	8: {"PCMA", 8000, 1}, 9: {"G722", 8000, 1}, 10: {"L16", 44100, 2}, 11: {"L16", 44100, 1}, 12: {"QCELP", 8000, 1}, 13: {"CN", 8000, 1}, 14: {"MPA", 90000, 0}, 15: {"G728", 8000, 1},
	16: {"DVI4", 11025, 1}, 17: {"DVI4", 22050, 1}, 18: {"G729", 8000, 1}, 25: {"CelB", 90000, 0}, 26: {"JPEG", 90000, 0}, 28: {"nv", 90000, 0}, 31: {"H261", 90000, 0},
	32: {"MPV", 90000, 0}, 33: {"MP2T", 90000, 0}, 34: {"H263", 90000, 0}}

// Param is a parameter of a format.
type Param struct {
	K, V string
	Flag bool
}

// MInfo is a media with what is told about it.
type MInfo struct {
	M          Media
	Fmtp       []Param
	Sep        string
	HasFmtp    bool
	Rate       int // frame rate; -1: not told
	XRate      int
	Frac       string // of the frame rates
	Space      bool   // in front of them
	First      bool   // the attributes of other formats are in front
	W, H       int    // -1: not told
	Others     []string
	SecondMap  string // of another format
	SecondFmtp bool
}

type M01 struct {
	P    Plan
	Ms   []MInfo
	Many int // repeat the medias up to this number
}

func genMInfo(t *rapid.T) MInfo {
	m := MInfo{Rate: -1, XRate: -1, W: -1, Sep: rapid.SampledFrom([]string{";", "; ", " ; ", ";  "}).Draw(t, "sep")}
	m.M.Kind = rapid.SampledFrom([]string{"video", "audio", "application", "text", "data", "message", "image", "control", "model", "x"}).Draw(t, "kind")
	m.M.Control = genControl(t)
	m.M.V = int(uint32(max(0, rapid.IntRange(-1<<15, 1<<24-1).Draw(t, "more lines"))) * 2654435761 >> 8)
	m.M.Pad = genPad(t) / 8 // there are up to 12 of them
	if rapid.IntRange(0, 19).Draw(t, "no number") == 7 {
		// no format of RTP
		m.M.Format, m.M.Proto = rapid.SampledFrom([]string{"t38", "*", "wb", "t120", "x 0", "webrtc-datachannel", "-", "image/tiff"}).Draw(t, "format"), "udp"
		return m
	}
	m.M.Proto = rapid.SampledFrom([]string{"", "RTP/AVP", "RTP/AVP/TCP", "RTP/SAVP", "RTP/AVPF"}).Draw(t, "proto")
	if rapid.Bool().Draw(t, "static") {
		m.M.PT = rapid.SampledFrom([]int{0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 25, 26, 28, 31, 32, 33, 34}).Draw(t, "pt")
		if rapid.Bool().Draw(t, "told again") {
			s := statics[m.M.PT]
			m.M.Codec, m.M.Freq, m.M.Chans = s.codec, s.freq, s.chans
		}
	} else {
		m.M.PT = rapid.IntRange(96, 127).Draw(t, "pt")
		if rapid.IntRange(0, 4).Draw(t, "unassigned") == 0 {
			m.M.PT = rapid.SampledFrom([]int{1, 2, 19, 20, 21, 22, 23, 24, 27, 29, 30, 35, 36, 64, 71, 72, 76, 77, 80, 90, 95, 128, 255}).Draw(t, "pt")
		}
		if rapid.IntRange(0, 9).Draw(t, "no map") > 0 {
			m.M.Codec = rapid.SampledFrom([]string{"H264", "H265", "HEVC", "MPEG4-GENERIC", "mpeg4-generic", "opus", "L16", "VP8", "JPEG2000", "vnd.onvif.metadata", "G726-32", "X-QT", "bbw", "MP4V-ES", "AMR", "PCMU", "telephone-event"}).Draw(t, "codec")
			m.M.Freq = rapid.SampledFrom([]int{0, 8000, 16000, 44100, 48000, 90000, 1}).Draw(t, "freq")
			if m.M.Freq > 0 && rapid.Bool().Draw(t, "has channels") {
				m.M.Chans = rapid.IntRange(1, 8).Draw(t, "channels")
			}
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "several") == 0 {
		for n := rapid.IntRange(1, 3).Draw(t, "more"); n > 0; n-- {
			m.M.More = append(m.M.More, rapid.IntRange(0, 127).Draw(t, "format"))
		}
		if m.M.Codec != "" && rapid.Bool().Draw(t, "second map") {
			m.SecondMap = fmt.Sprintf("rtpmap:%d other/1000/7", m.M.More[0])
		}
		m.SecondFmtp = rapid.Bool().Draw(t, "second fmtp")
		m.First = rapid.Bool().Draw(t, "others first")
	}
	if rapid.IntRange(0, 2).Draw(t, "has fmtp") > 0 {
		m.HasFmtp = true
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "fmtp"); i < n; i++ {
			p := Param{K: fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"profile-level-id", "packetization-mode", "config", "x", "Mode"}).Draw(t, "key"), i),
				V: rapid.SampledFrom([]string{"1", "", "42001F", "Z0IAH5WoFAFuQA==,aM48gA==", "a=b=c", "1,2,3", "\"q\"", "AQIDBAUGBwgJ+/==", "0.5"}).Draw(t, "value"), Flag: rapid.IntRange(0, 5).Draw(t, "flag") == 0}
			if rapid.IntRange(0, 31).Draw(t, "long value") == 19 {
				p.V = genLong(t)
			}
			m.Fmtp = append(m.Fmtp, p)
		}
	}
	rate := func() int { return rapid.SampledFrom([]int{1, 15, 25, 30, 50, 120, 0}).Draw(t, "rate") }
	switch rapid.IntRange(0, 5).Draw(t, "rates") {
	case 0:
		m.Rate = rate()
	case 1:
		m.XRate = rate()
	case 2:
		m.Rate, m.XRate = rate(), rate()
	}
	if rapid.IntRange(0, 2).Draw(t, "size") == 0 {
		m.W, m.H = rapid.IntRange(0, 8192).Draw(t, "w"), rapid.IntRange(0, 4320).Draw(t, "h")
	}
	m.Frac = rapid.SampledFrom([]string{"", "", ".0", ".000000", ".5", ".97", ".1"}).Draw(t, "fraction")
	m.Space = rapid.IntRange(0, 3).Draw(t, "space") == 0
	m.Others = rapid.SliceOfN(rapid.SampledFrom([]string{"recvonly", "framesize:97 1-2", "x-control:no", "fmtpx:96 no=1", "rtpmapx:96 no/1", "controls:no", "x-framerates:9", "dimensions:5,6", "range:npt=0-", "quality:5", "Control:no"}), 0, 3).Draw(t, "others")
	return m
}

func (m *MInfo) rate(n int) string {
	s := fmt.Sprint(n) + m.Frac
	if m.Space {
		s = " " + s
	}
	return s
}

func (m *MInfo) media(i int) Media {
	x := m.M
	x.Attrs = nil
	if m.HasFmtp {
		s := fmt.Sprintf("fmtp:%d", x.PT)
		for k, p := range m.Fmtp {
			if k == 0 {
				s += " "
			} else {
				s += m.Sep
			}
			s += p.K
			if !p.Flag {
				s += "=" + p.V
			}
		}
		if len(m.Fmtp) > 0 && len(m.Sep) == 2 {
			s += ";"
		}
		x.Attrs = append(x.Attrs, s)
	}
	if m.Rate >= 0 {
		x.Attrs = append(x.Attrs, "framerate:"+m.rate(m.Rate))
	}
	if m.XRate >= 0 {
		x.Attrs = append(x.Attrs, "x-framerate:"+m.rate(m.XRate))
	}
	if m.W >= 0 {
		x.Attrs = append(x.Attrs, fmt.Sprintf("x-dimensions:%d,%d", m.W, m.H))
	}
	x.Attrs = append(x.Attrs, m.Others...)
	if len(x.Attrs) > 1 {
		k := (i + len(m.Others)) % len(x.Attrs)
		x.Attrs = append(append([]string{}, x.Attrs[k:]...), x.Attrs[:k]...)
	}
	// attributes of other formats, when the format has its own
	var o []string
	if m.SecondMap != "" && m.M.More[0] != m.M.PT {
		o = append(o, m.SecondMap)
	}
	if m.SecondFmtp && m.HasFmtp && len(m.Fmtp) > 0 && m.M.More[0] != m.M.PT {
		o = append(o, fmt.Sprintf("fmtp:%d apt=1;no=2", m.M.More[0]))
	}
	if m.First {
		x.Map = m.M.rtpmap()
		if x.Map != "" {
			x.Attrs = append([]string{"rtpmap:" + x.Map}, x.Attrs...)
		}
		x.Map = "-"
		x.Attrs = append(o, x.Attrs...)
	} else {
		x.Attrs = append(x.Attrs, o...)
	}
	return x
}

func runM01(r *kit.R, ci any) {
	c := ci.(*M01)
	p := &c.P
	p.Medias = nil
	ms, size := c.Ms, 0
	for i := range ms {
		p.Medias = append(p.Medias, ms[i].media(i))
	}
	if size = len(describe(p.Medias)); c.Many > 0 && len(ms) > 0 {
		// all of them again and again, as far as they fit
		r.Label("many medias")
		for k := len(ms); len(p.Medias)+k <= min(c.Many, 128) && len(describe(p.Medias))+size < 55000; {
			ms = append(ms[:len(ms):len(ms)], c.Ms...)
			for i := range c.Ms {
				p.Medias = append(p.Medias, c.Ms[i].media(len(p.Medias)))
			}
		}
	}
	a, s := start(r, p)
	text := string(describe(p.Medias))
	got := a.sess.RtpMediaMap
	if len(got) != len(ms) {
		r.Fatalf("%d medias instead of %d: %v\n%s", len(got), len(ms), got, text)
	}
	for i := range ms {
		m := &ms[i]
		g, ok := got[2*i]
		bad := func(f string, a ...any) {
			r.Fatalf("media %d: %s\ngot %+v\n%s", i, fmt.Sprintf(f, a...), g, text)
		}
		if !ok {
			bad("is missing, there are %v", got)
		}
		st, static := statics[m.M.PT]
		if !static {
			st = struct {
				codec       string
				freq, chans int
			}{m.M.Codec, m.M.Freq, m.M.Chans}
		}
		if m.M.Format != "" {
			st, static = statics[-1], false
			r.Label("no RTP format")
		}
		r.LabelIf(static, "static")
		r.LabelIf(!static && st.codec == "", "unknown codec")
		if g.MediumName != m.M.Kind || g.PayloadFormat != m.M.PT || g.TrackURL != m.M.Control {
			bad("want %s, format %d, control %q", m.M.Kind, m.M.PT, m.M.Control)
		}
		if g.CodecName != st.codec || max(0, g.RtpTimestampFrequency) != st.freq || max(0, g.Channels) != st.chans {
			bad("want codec %q, frequency %d, channels %d", st.codec, st.freq, st.chans)
		}
		rate := 0
		if m.XRate >= 0 {
			rate = m.XRate
		}
		if m.Rate >= 0 {
			rate = m.Rate
		}
		// a fraction may be cut off or rounded
		if w := []int{rate, rate + 1}; g.VideoFramerate != w[0] && (g.VideoFramerate != w[1] || m.Frac == "" || m.Frac == ".1" || strings.Trim(m.Frac, ".0") == "") {
			bad("want frame rate %d%s", rate, m.Frac)
		}
		r.LabelIf(m.First && m.SecondMap != "", "attributes of another format in front")
		if _, ok := g.Fmtp["apt"]; ok {
			bad("it has a parameter of another format")
		}
		if g.VideoWidth != max(0, m.W) || g.VideoHeight != m.H {
			bad("want %d x %d", m.W, m.H)
		}
		r.LabelIf(m.HasFmtp, "fmtp")
		for _, f := range m.Fmtp {
			v, ok := g.Fmtp[f.K]
			w := f.V
			if f.Flag {
				w = ""
			}
			if !ok || v != w {
				bad("parameter %q: %q, %v, want %q", f.K, v, ok, w)
			}
		}
		if n := len(g.Fmtp); n > len(m.Fmtp)+1 {
			bad("%d parameters instead of %d", n, len(m.Fmtp))
		}
	}
	if len(ms) > 1 {
		r.NonTrivial()
	}
	a.finish(s)
}

// ---- packets ----

// Unit is a unit of a codec: a NAL unit or another payload.
type Unit struct {
	T    int // type
	X    int // other bits of the header
	Len  int
	Seed int
}

// Group is one or several units sent together.
type Group struct {
	Mode  int
	Units []Unit
	Frag  []int // sizes of the fragments, in turn
	Last  bool  // an empty last fragment
}

// pk is a packet and the units complete with it.
type pk struct {
	b   []byte
	m   bool
	out [][]byte
}

const maxPacket = 65000

func be(n, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[size-1-i] = byte(n)
		n >>= 8
	}
	return b
}

// fragments cuts the body of a unit: at least two.
func (g Group) fragments(b []byte) (f [][]byte) {
	for i := 0; len(b) > 0 || len(f) < 2; i++ {
		n := 1 + len(b)/2
		if len(g.Frag) > 0 {
			n = g.Frag[i%len(g.Frag)]
		}
		n = max(1, min(n, maxPacket, len(b)))
		if len(f) == 0 && n == len(b) {
			n = (len(b) + 1) / 2 // something has to be left
		}
		n = min(n, len(b))
		f = append(f, b[:n])
		b = b[n:]
	}
	if g.Last {
		f = append(f, nil)
	}
	return
}

// h264 packs.
func (g Group) h264() (ps []pk) {
	nal := func(u Unit) []byte {
		return append([]byte{byte(u.X&7)<<5 | byte(1+u.T%23)}, content(u.Len, u.Seed)...)
	}
	hdr := func(t int) byte { // of an aggregate
		var x byte
		for _, u := range g.Units {
			x = max(x, byte(u.X&3)<<5)
		}
		return x | byte(t)
	}
	modes := []string{"single", "STAP-A", "STAP-B", "MTAP16", "MTAP24", "FU-A", "FU-B"}
	switch m := modes[g.Mode%len(modes)]; m {
	case "single":
		for i, u := range g.Units {
			u.Len = min(u.Len, maxPacket)
			ps = append(ps, pk{nal(u), i == len(g.Units)-1, [][]byte{nal(u)}})
		}
	case "STAP-A", "STAP-B", "MTAP16", "MTAP24":
		p := pk{b: []byte{hdr(24 + g.Mode%len(modes) - 1)}, m: true}
		if m != "STAP-A" {
			p.b = append(p.b, 0x12, byte(len(g.Units))) // DON
		}
		for i, u := range g.Units {
			u.Len = min(u.Len, maxPacket/len(g.Units)-10)
			n := nal(u)
			p.b = append(p.b, be(len(n), 2)...)
			switch m {
			case "MTAP16":
				p.b = append(p.b, byte(i), 0x33, 0x44)
			case "MTAP24":
				p.b = append(p.b, byte(i), 0x33, 0x44, 0x55)
			}
			p.b = append(p.b, n...)
			p.out = append(p.out, n)
		}
		ps = append(ps, p)
	default:
		for _, u := range g.Units {
			u.Len = min(max(u.Len, 2), 8<<20-1)
			n := nal(u)
			fs := g.fragments(n[1:])
			for i, f := range fs {
				t := byte(28)
				fh := n[0]&0x1f | byte((u.X+i)>>2&1&(u.X>>6))<<5 // the R bit has no meaning
				if i == 0 {
					fh |= 0x80
					if m == "FU-B" {
						t = 29
					}
				}
				if i == len(fs)-1 {
					fh |= 0x40
				}
				b := []byte{n[0]&0xe0 | t, fh}
				if t == 29 {
					b = append(b, 0x80, 0xff) // DON
				}
				p := pk{b: append(b, f...), m: i == len(fs)-1}
				if i == len(fs)-1 {
					p.out = [][]byte{n}
				}
				ps = append(ps, p)
			}
		}
	}
	return
}

// h265 packs.
func (g Group) h265() (ps []pk) {
	hdr := func(t, x int) []byte { // x: F, layer, TID
		return []byte{byte(x&1)<<7 | byte(t)<<1 | byte(x>>1)&1, byte(x >> 2)}
	}
	nal := func(u Unit) []byte { return append(hdr(u.T%48, u.X), content(u.Len, u.Seed)...) }
	switch g.Mode % 3 {
	case 0:
		for _, u := range g.Units {
			u.Len = min(u.Len, maxPacket)
			ps = append(ps, pk{nal(u), true, [][]byte{nal(u)}})
		}
	case 1:
		p := pk{b: hdr(48, g.Units[0].X)}
		for _, u := range g.Units {
			u.Len = min(u.Len, maxPacket/len(g.Units)-10)
			n := nal(u)
			p.b = append(append(p.b, be(len(n), 2)...), n...)
			p.out = append(p.out, n)
		}
		ps = append(ps, p)
	case 2:
		for _, u := range g.Units {
			u.Len = min(max(u.Len, 2), 8<<20-2)
			n := nal(u)
			fs := g.fragments(n[2:])
			for i, f := range fs {
				fh := byte(u.T % 48)
				if i == 0 {
					fh |= 0x80
				}
				if i == len(fs)-1 {
					fh |= 0x40
				}
				p := pk{b: append(append(hdr(49, u.X), fh), f...), m: i == len(fs)-1}
				if i == len(fs)-1 {
					p.out = [][]byte{n}
				}
				ps = append(ps, p)
			}
		}
	}
	return
}

// marked: units cut into packets, the marker is on the last one.
func (g Group) marked() (ps []pk) {
	for _, u := range g.Units {
		n := content(max(1, u.Len), u.Seed)
		fs := [][]byte{n}
		if g.Mode%2 == 1 && len(n) > 1 || len(n) > maxPacket {
			fs = g.fragments(n)
		}
		for i, f := range fs {
			p := pk{b: f, m: i == len(fs)-1}
			if p.m {
				p.out = [][]byte{n}
			}
			ps = append(ps, p)
		}
	}
	return
}

// plain: every packet is a unit.
func (g Group) plain() (ps []pk) {
	for i, u := range g.Units {
		n := content(max(1, min(u.Len, maxPacket)), u.Seed)
		if g.Mode%3 == 1 { // looks like H264
			n[0] = []byte{0x78, 0x7c, 0x1c, 0x62, 0x60}[u.T%5]
		}
		ps = append(ps, pk{n, (g.Mode+i)%2 == 0, [][]byte{n}})
	}
	return
}

func (g Group) packets(codec string) []pk {
	switch strings.ToUpper(codec) {
	case "H264":
		return g.h264()
	case "H265", "HEVC":
		return g.h265()
	case "BBW":
		return g.marked()
	}
	return g.plain()
}

func genGroup(t *rapid.T) Group {
	g := Group{Mode: rapid.IntRange(0, 20).Draw(t, "mode"), Last: rapid.IntRange(0, 9).Draw(t, "empty last") == 0}
	n := rapid.SampledFrom([]int{1, 1, 1, 1, 1, 2, 2, 3, 3, 5, 5, 0}).Draw(t, "units")
	if n == 0 && rapid.Bool().Draw(t, "many") {
		n = rapid.SampledFrom([]int{8, 9, 16, 17, 32, 40, 255}).Draw(t, "more units")
		for i := 0; i < n; i++ {
			g.Units = append(g.Units, Unit{T: i * 7 % 64, X: i, Len: i * 3 % 50, Seed: i})
		}
		n = 0
	}
	for n = max(n, 1-len(g.Units)); n > 0; n-- {
		u := Unit{T: rapid.IntRange(0, 63).Draw(t, "type"), X: rapid.IntRange(0, 1023).Draw(t, "bits"), Len: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 10, 40, 200, 255, 256, 1400}).Draw(t, "len"), Seed: rapid.IntRange(0, 1000).Draw(t, "seed")}
		if rapid.IntRange(0, 30).Draw(t, "big") == 0 {
			u.Len = rapid.SampledFrom([]int{4096, 32767, 65000, 65536, 300000}).Draw(t, "big len")
			if u.Len == 300000 && rapid.IntRange(0, 3).Draw(t, "huge") == 0 {
				u.Len = rapid.SampledFrom([]int{1 << 20, 1<<20 + 1, 2500000, 1 << 22, 8000000, 8<<20 - 1000, 8 << 20, 8 << 20}).Draw(t, "huge len")
				g.Frag = []int{65000, 60000}
			}
		}
		g.Units = append(g.Units, u)
	}
	if rapid.Bool().Draw(t, "sizes") {
		g.Frag = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 10, 100, 1400, 65000}), 1, 4).Draw(t, "frag")
		for _, u := range g.Units {
			if u.Len > 1400 {
				g.Frag = append(g.Frag, 1400, 20000)
			}
		}
	}
	return g
}

// again is the groups several times over, with other units.
func again(gs []Group, times int) (all []Group) {
	for n := 0; n <= times; n++ {
		for _, g := range gs {
			us := append([]Unit{}, g.Units...)
			for i := range us {
				us[i].Seed += n * 17
			}
			g.Units = us
			all = append(all, g)
		}
	}
	return
}

// genTimes is how often they come again.
func genTimes(t *rapid.T, gss ...[]Group) int {
	if rapid.IntRange(0, 15).Draw(t, "many") != 11 {
		return 0
	}
	size := 1
	for _, gs := range gss {
		for _, g := range gs {
			for _, u := range g.Units {
				size += u.Len + 50
			}
		}
	}
	return min(rapid.SampledFrom([]int{3, 10, 40, 200, 700}).Draw(t, "times"), 300000/size)
}

// ---- P01 P02 P03 one codec ----

// PStream is the packets of one media.
type PStream struct {
	Codec  int
	PT     int
	Groups []Group
	Marks  []int // 1: the marker is the other way round, where it has no meaning
	Sizes  []int
	Clock  Clock
	Times  int
	PTs    []int // payload types of the packets, in turn; none: that of the media
}

// mark is the marker of packet i.
func mark(codec string, k pk, marks []int, i int) bool {
	if len(marks) == 0 || strings.EqualFold(codec, "bbw") {
		return k.m
	}
	return k.m != (marks[i%len(marks)] == 1)
}

func genMarks(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 1), 0, 5).Draw(t, "marks")
}

var codecNames = map[string][]string{
	"P01": {"H264", "H264", "h264"},
	"P02": {"H265", "HEVC", "h265"},
	"P03": {"PCMU", "MPEG4-GENERIC", "opus", "bbw", "bbw", "VP8", "unknown",
		"", "H264-SVC", "H26", "XH264", "H265X", "HEV", "bbwx", "BBW", "JPEG", "MP2T", "MP4V-ES", "L16", "H263-1998", "AV1", "MP4A-LATM", "telephone-event",
		"X-H264", "x-hevc", "H.264", "H264+", "AVC", "x-bbw", "BBW-2", "MP2P", "speex"},
}

func runCodec(id string) func(r *kit.R, ci any) {
	return func(r *kit.R, ci any) {
		c := ci.(*PStream)
		ns := codecNames[id]
		codec := ns[c.Codec%len(ns)]
		r.Label(codec)
		pt := 96 + c.PT%32
		if codec == "" && c.PT%2 == 1 {
			pt = c.PT // with a fixed codec
		}
		p := Plan{U: URL{Host: "h", Path: "/x"}, ID: "1", Medias: []Media{{Kind: "video", PT: pt, Codec: codec, Freq: 90000, Control: "t"}}}
		a, s := start(r, &p)
		var want []Item
		clk := c.Clock
		seq := 0
		r.LabelIf(c.Times > 0, "many times")
		for _, g := range again(c.Groups, c.Times) {
			for _, k := range g.packets(codec) {
				pt := pt
				if id == "P03" && len(c.PTs) > 0 {
					pt = c.PTs[seq%len(c.PTs)] // another format of the same media
				}
				s.C.Feed(kit.Split(frame(0, clk.next(RTP{PT: pt, Marker: mark(codec, k, c.Marks, seq), Ext: -1, Payload: k.b}, len(k.out) > 0).bytes()), c.Sizes)...)
				seq++
				for _, o := range k.out {
					want = append(want, Item{Ch: 0, Data: o})
				}
			}
			switch codec {
			case "H264", "h264":
				r.Label([]string{"single", "STAP-A", "STAP-B", "MTAP16", "MTAP24", "FU-A", "FU-B"}[g.Mode%7])
			case "H265", "HEVC", "h265":
				r.Label([]string{"single", "AP", "FU"}[g.Mode%3])
			}
		}
		if len(c.Groups) > 1 {
			r.NonTrivial()
		}
		settle()
		compareData(r, a.Datas(), want)
		a.finish(s)
	}
}

func genCodec(t *rapid.T) any {
	c := &PStream{Codec: rapid.IntRange(0, 95).Draw(t, "codec"), PT: rapid.IntRange(0, 31).Draw(t, "payload type"), Groups: rapid.SliceOfN(rapid.Custom(genGroup), 0, 8).Draw(t, "groups"), Marks: genMarks(t), Clock: genClock(t),
		PTs: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 96, 101, 127, 72, 77}), 0, 3).Draw(t, "types")}
	if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
		c.Sizes = []int{rapid.SampledFrom([]int{7, 100, 1460}).Draw(t, "segment"), 0}
	}
	c.Times = genTimes(t, c.Groups)
	return c
}

// ---- P04 channels ----

type P04 struct {
	P        Plan
	Codecs   []int
	Groups   [][]Group
	Order    []int // the media of the next packet, in turn
	Noise    []Noise4
	Early    int // frames behind the PLAY request, in front of its response
	Scribble bool
	Times    int
	Marks    []int
	Clocks   []Clock
	Front    int // medias without data in front of the others
}

// Noise4 is something between the packets that is not for the application.
type Noise4 struct {
	At   int
	Kind int
	N    int
}

var mixed = []string{"H264", "H265", "opus", "bbw", "HEVC", "PCMU"}

// rtcp is a RTCP packet, or several.
func rtcp(n int) []byte {
	one := func(kind byte) []byte {
		switch kind {
		case 200:
			return append([]byte{0x80, 200, 0, 6}, pattern(24, n)...)
		case 202:
			return append([]byte{0x81, 202, 0, 3, 0xde, 0xad, 0xbe, 0xef, 1, 4}, "name\x00\x00"...)
		case 203: // BYE
			return []byte{0x81, 203, 0, 1, 0xde, 0xad, 0xbe, 0xef}
		case 204:
			return append([]byte{0x80, 204, 0, 3, 0xde, 0xad, 0xbe, 0xef}, "NAMEdata"...)
		}
		return append([]byte{0x81, kind, 0, 7}, pattern(28, n)...)
	}
	b := one(byte(200 + n%8))
	if n%3 == 0 {
		b = append(append(one(200), b...), one(203)...)
	}
	return b
}

func (n Noise4) bytes(medias int, codecs []string) []byte {
	switch n.Kind % 7 {
	case 6: // a payload that is too short for its codec
		if n.N%medias < len(codecs) {
			switch strings.ToUpper(codecs[n.N%medias]) {
			case "H264":
				pl := [][]byte{{0x7c}, {0x7d}, {0x79, 0}, {0x7a}, {0x7b, 1}, {0x7d, 0x80, 0}}
				return frame(2*(n.N%medias), RTP{Seq: n.N, Ext: -1, Payload: pl[n.N/medias%len(pl)]}.bytes())
			case "H265", "HEVC":
				pl := [][]byte{{0x62}, {0x62, 1}, {0x60}, {0x40}, {0x00}, {0xff}}
				return frame(2*(n.N%medias), RTP{Seq: n.N, Ext: -1, Payload: pl[n.N/medias%len(pl)]}.bytes())
			}
		}
		return frame(2*(n.N%medias)+1, nil)
	case 0: // RTCP
		return frame(2*(n.N%medias)+1, rtcp(n.N))
	case 1: // a channel nobody set up
		return frame(2*medias+n.N%(250-2*medias), RTP{Seq: n.N, Ext: -1, Payload: pattern(20, n.N)}.bytes())
	case 2: // too short
		return frame(2*(n.N%medias), pattern(n.N%12, n.N))
	case 3: // empty
		return frame(n.N%10, nil)
	case 4: // no payload
		return frame(2*(n.N%medias), RTP{Seq: n.N, Ext: -1}.bytes())
	}
	return Resp{Status: 200 + n.N, CSeq: "7", Body: pattern(n.N%9, 3)}.bytes(Style{})
}

func runP04(r *kit.R, ci any) {
	c := ci.(*P04)
	p := &c.P
	n := max(1, min(len(c.Codecs), len(c.Groups)))
	p.Medias = nil
	var q [][]pk
	var codecs []string
	for i := 0; i < c.Front; i++ {
		codecs = append(codecs, "PCMU")
		p.Medias = append(p.Medias, Media{Kind: "audio", PT: 0, Control: fmt.Sprint("f", i)})
		q = append(q, nil)
	}
	r.LabelIf(c.Front > 0, "many medias")
	for i := 0; i < n; i++ {
		k := 0
		var gs []Group
		if i < len(c.Codecs) {
			k = c.Codecs[i]
		}
		if i < len(c.Groups) {
			gs = c.Groups[i]
		}
		codec := mixed[k%len(mixed)]
		codecs = append(codecs, codec)
		p.Medias = append(p.Medias, Media{Kind: "video", PT: 96 + i, Codec: codec, Freq: 90000, Control: fmt.Sprint("t", i)})
		var ps []pk
		for _, g := range again(gs, c.Times) {
			ps = append(ps, g.packets(codec)...)
		}
		q = append(q, ps)
	}
	own := n
	n += c.Front
	var frames [][]byte
	var want []Item
	noise := map[int][]Noise4{}
	for _, x := range c.Noise {
		noise[x.At] = append(noise[x.At], x)
	}
	clk := make([]Clock, n)
	for i := range clk {
		if len(c.Clocks) > 0 {
			clk[i] = c.Clocks[i%len(c.Clocks)]
		}
	}
	early := 0 // bytes
	count := 0
	for left := true; left; {
		left = false
		for k := 0; k < len(c.Order)+n; k++ {
			i := k - len(c.Order) // after the order given: one of each
			if k < len(c.Order) {
				i = c.Front + c.Order[k]%own
			}
			if len(q[i]) == 0 {
				continue
			}
			left = true
			x := q[i][0]
			q[i] = q[i][1:]
			for _, z := range noise[count] {
				if z.Kind%7 == 5 && count < c.Early {
					continue // a response would be the one the client waits for
				}
				frames = append(frames, z.bytes(n, codecs))
				r.Label(fmt.Sprintf("noise %d", z.Kind%7))
			}
			frames = append(frames, frame(2*i, clk[i].next(RTP{PT: p.Medias[i].PT, Marker: mark(codecs[i], x, c.Marks, count), Ext: -1, Payload: x.b}, len(x.out) > 0).bytes()))
			for _, o := range x.out {
				want = append(want, Item{Ch: 2 * i, Data: o})
			}
			count++
			if count <= c.Early {
				early = len(frames)
			}
		}
	}
	if n > 1 && count > 3 {
		r.NonTrivial()
	}
	r.LabelIf(early > 0, "early data")
	r.LabelIf(len(p.Sizes) > 0, "segmented")
	a := newApp()
	if c.Scribble {
		a.onData = func(d *rtsp.RtspData) {
			all := d.Data[:cap(d.Data)]
			for i := range all {
				all[i] = 0xff
			}
		}
	}
	s := newServer(nil)
	join := func(f [][]byte) (b []byte) {
		for _, x := range f {
			b = append(b, x...)
		}
		return
	}
	s.Handle = func(i int, q *Req) {
		time.Sleep(time.Millisecond)
		b := p.resp(q).bytes(p.Style)
		if q.Method == "PLAY" {
			b = append(join(frames[:early]), b...)
			b = append(b, join(frames[early:])...)
		}
		p.feed(s, b)
	}
	if err := a.play(p, s); err != nil {
		r.Fatalf("the handshake failed: %v", err)
	}
	settle()
	got := a.Datas()
	if c.Scribble {
		for i := range got {
			got[i].Data = got[i].copy
		}
	}
	compareData(r, got, want)
	if !c.Scribble {
		for i := range got {
			if !bytes.Equal(got[i].Data, got[i].copy) {
				r.Fatalf("data %d changed when the application wrote into what it got before", i)
			}
			all := got[i].Data[:cap(got[i].Data)]
			for k := range all {
				all[k] ^= 0xa5
			}
		}
	}
	a.finish(s)
}

// ---- P05 options of the RTP header ----

// Opt are the options of one packet.
type Opt struct {
	CSRC, Ext, Pad int
	Prof           int // of the extension
	Empty          int // padding-only packets in front: 1 no padding, 2 with padding
}

type P05 struct {
	Codec  int
	PT     int
	Marks  []int
	Groups []Group
	Opts   []Opt
	Sizes  []int
	Clock  Clock
}

func runP05(r *kit.R, ci any) {
	c := ci.(*P05)
	codec := mixed[c.Codec%len(mixed)]
	r.Label(codec)
	pt := 96 + c.PT%32
	p := Plan{U: URL{Host: "h", Path: "/x"}, ID: "1", Medias: []Media{{Kind: "video", PT: pt, Codec: codec, Freq: 90000, Control: "t"}}}
	a, s := start(r, &p)
	var want []Item
	clk := c.Clock
	i := 0
	for _, g := range c.Groups {
		for _, k := range g.packets(codec) {
			o := Opt{Ext: -1}
			if len(c.Opts) > 0 {
				o = c.Opts[i%len(c.Opts)]
			}
			if len(k.b) > 63000 { // a frame has up to 65535 bytes
				o.CSRC, o.Ext, o.Pad = min(o.CSRC, 2), min(o.Ext, 20), min(o.Pad, 100)
			}
			r.LabelIf(o.CSRC > 0, "CSRC")
			r.LabelIf(o.Ext >= 0, "extension")
			r.LabelIf(o.Pad > 0, "padding")
			if o.CSRC > 0 || o.Ext >= 0 || o.Pad > 0 {
				r.NonTrivial()
			}
			if o.Empty > 0 {
				r.Label("packet without payload")
				s.C.Feed(frame(0, clk.next(RTP{PT: pt, CSRC: o.CSRC, Ext: o.Ext, Prof: o.Prof, Pad: o.Pad * (o.Empty - 1)}, false).bytes()))
			}
			s.C.Feed(kit.Split(frame(0, clk.next(RTP{PT: pt, Marker: mark(codec, k, c.Marks, i), CSRC: o.CSRC, Ext: o.Ext, Prof: o.Prof, Pad: o.Pad, Payload: k.b}, len(k.out) > 0).bytes()), c.Sizes)...)
			for _, x := range k.out {
				want = append(want, Item{Ch: 0, Data: x})
			}
			i++
		}
	}
	settle()
	compareData(r, a.Datas(), want)
	a.finish(s)
}

func genOpt(t *rapid.T) Opt {
	return Opt{CSRC: max(0, rapid.IntRange(-15, 15).Draw(t, "csrc")), Ext: max(-1, rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2, 20, 100, 300}).Draw(t, "ext")),
		Pad: max(0, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4, 100, 255}).Draw(t, "pad")), Prof: rapid.SampledFrom([]int{0, 0, 0x1000, 0x100f, 1, 0xffff, 0x10000}).Draw(t, "profile"), Empty: max(0, rapid.IntRange(-6, 2).Draw(t, "empty"))}
}

func init() {
	Props = append(Props,
		&kit.Prop{ID: "M01", Rule: "descriptions with 1-12 random medias, rarely up to 128 (static and dynamic formats, fmtp, frame rates, dimensions, further attributes); non-trivial: more than one media",
			Bubble: true,
			Gen: func(t *rapid.T) any {
				c := &M01{P: Plan{U: genURL(t, false), ID: "1"}, Ms: rapid.SliceOfN(rapid.Custom(genMInfo), 1, rapid.SampledFrom([]int{4, 4, 4, 4, 4, 4, 4, 12}).Draw(t, "up to")).Draw(t, "medias")}
				size := 0 // 65535 bytes are allowed
				for i := range c.Ms {
					m := &c.Ms[i]
					size += 500 + m.M.Pad*11/10 + len(m.M.Control)
					if size > 25000 {
						m.M.Pad, m.M.Control = 0, "c"
					}
					for k := range m.Fmtp {
						if size += len(m.Fmtp[k].V); size > 40000 && len(m.Fmtp[k].V) > 64 {
							m.Fmtp[k].V = "1"
						}
					}
				}
				if rapid.IntRange(0, 299).Draw(t, "many medias") == 177 { // rare: every one costs the client 8 MB
					c.Many = rapid.SampledFrom([]int{32, 66, 128}).Draw(t, "many")
				}
				return c
			},
			New: func() any { return &M01{} }, Run: runM01, Fuzz: true, Quick: 9000, Deep: 200000},
		&kit.Prop{ID: "P01", Rule: "random NAL units in random H264 packetisations (single, STAP-A/B, MTAP16/24, FU-A/B); non-trivial: at least two groups",
			Bubble: true, Gen: genCodec, New: func() any { return &PStream{} }, Run: runCodec("P01"), Fuzz: true, Quick: 12000, Deep: 250000},
		&kit.Prop{ID: "P02", Rule: "random NAL units in random H265 packetisations (single, AP, FU); non-trivial: at least two groups",
			Bubble: true, Gen: genCodec, New: func() any { return &PStream{} }, Run: runCodec("P02"), Fuzz: true, Quick: 12000, Deep: 250000},
		&kit.Prop{ID: "P03", Rule: "random payloads of other codecs, and of the one whose frames end with the marker; non-trivial: at least two groups",
			Bubble: true, Gen: genCodec, New: func() any { return &PStream{} }, Run: runCodec("P03"), Fuzz: true, Quick: 12000, Deep: 250000},
		&kit.Prop{ID: "P04", Rule: "packets of 1-4 medias (behind up to 120 idle ones) of different codecs interleaved at random with RTCP, other channels, short, empty frames and responses, cut into reads at random; non-trivial: at least two medias and four packets",
			Bubble: true,
			Gen: func(t *rapid.T) any {
				c := &P04{P: Plan{U: genURL(t, false), ID: "1", Sizes: genSizes(t)}, Codecs: rapid.SliceOfN(rapid.IntRange(0, len(mixed)-1), 1, 4).Draw(t, "codecs"),
					Order: rapid.SliceOfN(rapid.IntRange(0, 3), 0, 12).Draw(t, "order"), Early: max(0, rapid.IntRange(-10, 10).Draw(t, "early")), Scribble: rapid.Bool().Draw(t, "scribble"), Marks: genMarks(t), Clocks: rapid.SliceOfN(rapid.Custom(genClock), 0, 4).Draw(t, "clocks")}
				for range c.Codecs {
					c.Groups = append(c.Groups, rapid.SliceOfN(rapid.Custom(genGroup), 0, 4).Draw(t, "groups"))
				}
				if rapid.IntRange(0, 299).Draw(t, "many medias") == 177 { // rare: every one costs the client 8 MB
					c.Front = rapid.SampledFrom([]int{14, 28, 60, 62, 120}).Draw(t, "front")
				}
				if c.Times = genTimes(t, c.Groups...); c.Times > 3 && len(c.P.Sizes) > 0 {
					c.P.Sizes = append(c.P.Sizes, 1400)
				}
				for n := rapid.IntRange(0, 6).Draw(t, "noise"); n > 0; n-- {
					c.Noise = append(c.Noise, Noise4{At: rapid.IntRange(0, 20).Draw(t, "at"), Kind: rapid.IntRange(0, 6).Draw(t, "kind"), N: rapid.IntRange(0, 300).Draw(t, "n")})
				}
				return c
			},
			New: func() any { return &P04{} }, Run: runP04, Fuzz: true, Quick: 8000, Deep: 150000},
		&kit.Prop{ID: "P05", Rule: "random packets of all codecs with random CSRC lists, header extensions, padding and packets without payload; non-trivial: with an option",
			Bubble: true,
			Gen: func(t *rapid.T) any {
				c := &P05{Codec: rapid.IntRange(0, len(mixed)-1).Draw(t, "codec"), PT: rapid.IntRange(0, 31).Draw(t, "payload type"), Marks: genMarks(t), Groups: rapid.SliceOfN(rapid.Custom(genGroup), 1, 6).Draw(t, "groups"), Opts: rapid.SliceOfN(rapid.Custom(genOpt), 0, 6).Draw(t, "options"), Clock: genClock(t)}
				if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
					c.Sizes = []int{rapid.SampledFrom([]int{7, 100, 1460}).Draw(t, "segment"), 0}
				}
				return c
			},
			New: func() any { return &P05{} }, Run: runP05, Fuzz: true, Quick: 10000, Deep: 200000},
	)
}
