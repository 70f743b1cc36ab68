package sdpcheck

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

func nt(r *kit.R, m *Msg, min int) {
	f := m.features()
	for _, x := range f {
		r.Label(x)
	}
	if len(f) >= min {
		r.NonTrivial()
	}
}

// ---- S01 round trip ----

type S01 struct {
	M        Msg
	Defaults bool // leave network and address types to the encoder
	Addr     int  // origin address when Defaults
}

var originAddrs = []struct{ addr, typ string }{
	{"10.0.0.1", "IP4"}, {"::1", "IP6"}, {"FE80::1:2", "IP6"}, {"example.com", "IP4"}, {"localhost", "IP4"}, {"host.example.com", "IP4"},
	{"::ffff:10.0.0.1", "IP6"}, {"64:ff9b::192.0.2.33", "IP6"}, {"1:2:3:4:5:6:7:8", "IP6"}, {"255.255.255.255", "IP4"}, {"::", "IP6"}, {"0.0.0.0", "IP4"},
}

func runS01(r *kit.R, ci any) {
	c := ci.(*S01)
	nt(r, &c.M, 3)
	want := dump(c.M.api())
	a := c.M.api()
	if c.Defaults {
		r.Label("defaults")
		oa := originAddrs[c.Addr%len(originAddrs)]
		w := c.M.api()
		w.Origin.Address, w.Origin.AddressType = oa.addr, oa.typ
		if c.Addr%3 == 0 {
			a.Name, w.Name = "", " " // must not be empty
		}
		if c.Addr%4 < 2 {
			a.Origin.Username, w.Origin.Username = "", "-"
		}
		want = dump(w)
		a.Origin.Address, a.Origin.AddressType, a.Origin.NetworkType = oa.addr, "", ""
		defaults := func(d *sdp.ConnectionData) {
			d.NetworkType = ""
			// the type of a host name is IP4, unless it is said
			if d.IP != nil || d.AddressType == "IP4" {
				d.AddressType = ""
			}
		}
		defaults(&a.Connection)
		for i := range a.Medias {
			defaults(&a.Medias[i].Connection)
		}
	}
	in := dump(a)
	s := a.Append(nil)
	b := s.AppendTo(nil)
	if d := diff(dump(a), in); d != "" {
		r.Fatalf("encoding changed the message: %s", d)
	}
	got, err := decode(b)
	if err != nil {
		r.Fatalf("the encoder's output is rejected: %v\n%s", err, b)
	}
	if d := diff(dump(got), want); d != "" {
		r.Fatalf("decoded message differs from the encoded one\n%s\ntext:\n%s", d, b)
	}
	// without the text in between
	m2 := &sdp.Message{}
	dec := sdp.NewDecoder(s)
	if err := dec.Decode(m2); err != nil {
		r.Fatalf("the encoder's session is rejected: %v", err)
	}
	if d := diff(dump(m2), want); d != "" {
		r.Fatalf("decoding the session directly differs\n%s", d)
	}
	// and back to the same text
	b2 := got.Append(nil).AppendTo(nil)
	t1, t2 := normal(strings.Split(string(b), "\n")), normal(strings.Split(string(b2), "\n"))
	if d := diff(t2, t1); d != "" {
		r.Fatalf("encoding the decoded message gives another text\n%s", d)
	}
}

// ---- S02 encoder output ----

type Op struct {
	K      string
	S      []string
	N      []int64
	Connct *Conn
	O      *Origin
}

type S02 struct {
	M    Msg
	Ops  []Op
	Pre  string // prefix of the buffer appended to
	Cap  int    // spare capacity of the session
	Junk int    // old lines in the spare capacity
}

var opKinds = []string{"version", "phone", "email", "conn", "connip", "name", "info", "uri", "origin", "timing", "timingntp",
	"attr", "flag", "bw", "repeat", "repeatc", "media", "enc", "key", "method", "tz", "raw", "line"}

func genOp(t *rapid.T) Op {
	o := Op{K: rapid.SampledFrom(opKinds).Draw(t, "op")}
	switch o.K {
	case "version", "bw":
		o.N = []int64{int64(smallInt(t, "n"))}
		if o.K == "version" && rapid.Bool().Draw(t, "negative") {
			o.N[0] = -o.N[0]
		}
	case "phone", "email", "name", "info", "uri", "flag", "method", "raw", "line":
		o.S = []string{text(t, "s", 10)}
	case "attr":
		for n := rapid.IntRange(0, 3).Draw(t, "values"); n >= 0; n-- {
			o.S = append(o.S, text(t, "s", 8))
		}
	case "enc", "key":
		o.S = []string{text(t, "s", 8), optText(t, "key")}
	case "conn", "connip":
		o.Connct = genConn(t)
	case "origin":
		m := genMsg(t)
		o.O = &m.Origin
		if rapid.Bool().Draw(t, "types by default") {
			oa := rapid.SampledFrom(originAddrs).Draw(t, "addr")
			o.O.Addr, o.O.Typ, o.O.Net = oa.addr, oa.typ, "IN"
			o.S = []string{"default"}
		}
	case "timing", "timingntp":
		o.N = []int64{int64(ntp(t, "start")), int64(ntp(t, "end"))}
	case "repeat", "repeatc":
		for n := rapid.IntRange(3, 6).Draw(t, "intervals"); n > 0; n-- {
			o.N = append(o.N, secs(t, "interval", true))
		}
	case "media":
		m := genMedia(t)
		o.S = []string{m.Type, m.Proto, m.Format}
		o.N = []int64{int64(m.Port), int64(m.Ports)}
	case "tz":
		for n := rapid.IntRange(1, 3).Draw(t, "zones"); n > 0; n-- {
			o.N = append(o.N, int64(ntp(t, "at")), secs(t, "offset", true))
		}
	}
	return o
}

func dsec(n int64) time.Duration { return time.Duration(n) * time.Second }

func dsecs(n []int64) []time.Duration {
	var r []time.Duration
	for _, x := range n {
		r = append(r, dsec(x))
	}
	return r
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

func joinSecs(n []int64, f func(int64) string) string {
	var s []string
	for _, x := range n {
		s = append(s, f(x))
	}
	return strings.Join(s, " ")
}

// apply does the operation on the session and gives the line it stands for.
func (o Op) apply(s sdp.Session) (sdp.Session, string) {
	o.S = append([]string(nil), o.S...)
	for i := range o.S {
		o.S[i] = raw(o.S[i])
	}
	switch o.K {
	case "version":
		return s.AddVersion(int(o.N[0])), "v=" + itoa(o.N[0])
	case "phone":
		return s.AddPhone(o.S[0]), "p=" + o.S[0]
	case "email":
		return s.AddEmail(o.S[0]), "e=" + o.S[0]
	case "name":
		return s.AddSessionName(o.S[0]), "s=" + o.S[0]
	case "info":
		return s.AddSessionInfo(o.S[0]), "i=" + o.S[0]
	case "uri":
		return s.AddURI(o.S[0]), "u=" + o.S[0]
	case "flag":
		return s.AddFlag(o.S[0]), "a=" + o.S[0]
	case "method":
		return s.AddEncryptionMethod(o.S[0]), "k=" + o.S[0]
	case "raw":
		return s.AddRaw('я', o.S[0]), "я=" + o.S[0]
	case "line":
		return s.AddLine(sdp.TypeEmail, o.S[0]), "e=" + o.S[0]
	case "attr":
		if len(o.S) == 1 {
			return s.AddAttribute(o.S[0]), "a=" + o.S[0]
		}
		return s.AddAttribute(o.S[0], o.S[1:]...), "a=" + o.S[0] + ":" + strings.Join(o.S[1:], " ")
	case "enc", "key":
		w := "k=" + o.S[0]
		if o.S[1] != "" {
			w += ":" + o.S[1]
		}
		if o.K == "enc" {
			return s.AddEncryption(sdp.Encryption{Method: o.S[0], Key: o.S[1]}), w
		}
		return s.AddEncryptionKey(o.S[0], o.S[1]), w
	case "bw":
		return s.AddBandwidth(sdp.BandwidthConferenceTotal, int(o.N[0])), "b=CT:" + itoa(o.N[0])
	case "conn":
		a := o.Connct.api()
		a.NetworkType = ""
		if a.IP != nil || a.AddressType == "IP4" {
			a.AddressType = ""
		}
		return s.AddConnectionData(a), connText(o.Connct)
	case "connip":
		c := *o.Connct
		c.TTL, c.Num = 0, 0
		if net.ParseIP(c.IP) == nil {
			c.IP, c.Typ = "10.9.8.7", "IP4"
		}
		return s.AddConnectionDataIP(net.ParseIP(c.IP)), connText(&c)
	case "origin":
		m := Msg{Origin: *o.O}
		a := m.api().Origin
		if len(o.S) > 0 {
			a.AddressType, a.NetworkType = "", ""
		}
		return s.AddOrigin(a), m.text(compact)[1]
	case "timing":
		return s.AddTiming(ntpTime(uint64(o.N[0])), ntpTime(uint64(o.N[1]))), "t=" + itoa(o.N[0]) + " " + itoa(o.N[1])
	case "timingntp":
		return s.AddTimingNTP(uint64(o.N[0]), uint64(o.N[1])), "t=" + itoa(o.N[0]) + " " + itoa(o.N[1])
	case "repeat":
		d := dsecs(o.N)
		return s.AddRepeatTimes(d[0], d[1], d[2:]...), "r=" + joinSecs(o.N, itoa)
	case "repeatc":
		d := dsecs(o.N)
		return s.AddRepeatTimesCompact(d[0], d[1], d[2:]...), "r=" + joinSecs(o.N, compact)
	case "media":
		w := "m=" + o.S[0] + " " + itoa(o.N[0])
		if o.N[1] != 0 {
			w += "/" + itoa(o.N[1])
		}
		return s.AddMediaDescription(sdp.MediaDescription{Type: o.S[0], Protocol: o.S[1], Format: o.S[2], Port: int(o.N[0]), PortsNumber: int(o.N[1])}),
			w + " " + o.S[1] + " " + o.S[2]
	case "tz":
		var z []sdp.TimeZone
		w := "z="
		for i := 0; i < len(o.N); i += 2 {
			z = append(z, sdp.TimeZone{Start: ntpTime(uint64(o.N[i])), Offset: dsec(o.N[i+1])})
			if i > 0 {
				w += " "
			}
			w += itoa(o.N[i]) + " " + compact(o.N[i+1])
		}
		return s.AddTimeZones(z...), w
	}
	panic(o.K)
}

// spare makes an empty session with spare capacity that holds old lines.
func spare(capacity, junk int) sdp.Session {
	if capacity == 0 {
		return nil
	}
	s := make(sdp.Session, 0, capacity)
	for i := 0; i < junk && i < capacity; i++ {
		s = append(s, sdp.Line{Type: 'j', Value: []byte(strings.Repeat("junk", i+1))})
	}
	return s[:0]
}

func runS02(r *kit.R, ci any) {
	c := ci.(*S02)
	nt(r, &c.M, 3)
	s := c.M.api().Append(spare(c.Cap, c.Junk))
	b := s.AppendTo([]byte(c.Pre))
	if !strings.HasPrefix(string(b), c.Pre) {
		r.Fatalf("what was in the buffer is changed: %q", b)
	}
	got := normal(strings.Split(string(b[len(c.Pre):]), "\n"))
	if d := diff(got, normal(c.M.text(compact))); d != "" {
		r.Fatalf("the text is not what RFC 4566 prescribes for the message\n%s", d)
	}
	// line by line
	s = spare(c.Cap, c.Junk)
	var want []string
	for _, o := range c.Ops {
		var w string
		s, w = o.apply(s)
		want = append(want, w)
		r.Label("op " + o.K)
	}
	if len(s) != len(want) {
		r.Fatalf("%d lines were added, the session has %d", len(want), len(s))
	}
	for i, l := range s {
		if g := string(l.AppendTo(nil)); g != want[i] {
			r.Fatalf("line %d: got %q want %q", i, g, want[i])
		}
	}
	if g, w := string(s.AppendTo([]byte(c.Pre))), c.Pre+strings.Join(want, "\n"); g != w {
		r.Fatalf("session text: got %q want %q", g, w)
	}
	if len(c.Ops) > 3 {
		r.NonTrivial()
	}
}

// ---- S03 decode what the text says ----

type S03 struct {
	M      Msg
	Iv     []int    // notation of the intervals, in turn
	Fmt    []int    // formatting of the lines, in turn
	Blanks []string // blank lines
	EOL    string
	Last   bool // end of line behind the last line
	Lower  bool // IPv6 addresses in lower case
}

func runS03(r *kit.R, ci any) {
	c := ci.(*S03)
	nt(r, &c.M, 3)
	i := 0
	iv := func(s int64) string {
		st := 0
		if len(c.Iv) > 0 {
			st = c.Iv[i%len(c.Iv)]
		}
		i++
		return intervalText(s, st)
	}
	lines := c.M.text(iv)
	var b bytes.Buffer
	for k, l := range lines {
		f := 0
		if len(c.Fmt) > 0 {
			f = c.Fmt[k%len(c.Fmt)]
		}
		if c.Lower && strings.HasPrefix(l, "c=IN IP6") && strings.Contains(l, ":") {
			l = "c=IN IP6" + strings.ToLower(l[8:])
		}
		switch f {
		case 1:
			l = "  " + l
		case 2:
			l = l + " \t"
		case 3:
			l = "\t" + l + "  "
		case 4:
			if len(c.Blanks) > 0 {
				b.WriteString(c.Blanks[k%len(c.Blanks)] + c.EOL)
			}
		}
		b.WriteString(l)
		if k < len(lines)-1 || c.Last {
			b.WriteString(c.EOL)
		}
	}
	got, err := decode(b.Bytes())
	if err != nil {
		r.Fatalf("well-formed text is rejected: %v\n%s", err, b.String())
	}
	if d := diff(dump(got), dump(c.M.api())); d != "" {
		r.Fatalf("the decoded message is not what the text says\n%s\ntext:\n%s", d, b.String())
	}
	// accessors of the message
	m := c.M
	vals := map[string][]string{}
	for _, a := range m.Attrs {
		vals[a.K] = append(vals[a.K], raw(a.V))
	}
	checkAttrs(r, "session", vals, got.Attribute, got.Flag, got.Attributes)
	for k := range m.Medias {
		vals := map[string][]string{}
		for _, a := range m.Medias[k].Attrs {
			vals[a.K] = append(vals[a.K], raw(a.V))
		}
		md := got.Medias[k]
		checkAttrs(r, "media", vals, md.Attribute, md.Flag, md.Attributes)
	}
	var s0, e0 uint64
	if len(m.Timing) > 0 {
		s0, e0 = m.Timing[0].Start, m.Timing[0].End
	}
	if ntpOf(got.Start()) != s0 || ntpOf(got.End()) != e0 {
		r.Fatalf("Start/End: got %v %v, want NTP %d %d", got.Start(), got.End(), s0, e0)
	}
}

func checkAttrs(r *kit.R, where string, vals map[string][]string, value func(string) string, flag func(string) bool, as sdp.Attributes) {
	for _, k := range append([]string{"absent"}, attrKeys...) {
		w := ""
		if len(vals[k]) > 0 {
			w = vals[k][0]
		}
		if g := value(k); g != w {
			r.Fatalf("%s attribute %q: got %q want %q", where, k, g, w)
		}
		if g := as.Value(k); g != w {
			r.Fatalf("%s attributes, value of %q: got %q want %q", where, k, g, w)
		}
		if g := flag(k); g != (len(vals[k]) > 0) {
			r.Fatalf("%s flag %q: got %v", where, k, g)
		}
		if g := as.Values(k); len(g) != len(vals[k]) || (len(g) > 0 && !reflect.DeepEqual(g, vals[k])) {
			r.Fatalf("%s values of %q: got %q want %q", where, k, g, vals[k])
		}
	}
}

// ---- S04 malformed text ----

type S04 struct {
	M    Msg
	Kind int
	Pos  int
	Var  int
	Bad  string // what is put into a number
	At   int    // where
}

// numbers gives the places of the numbers in a line, intervals included.
func numbers(l string) (at [][2]int, interval []bool) {
	fields := func(from string, keep func(i int) (num, iv bool)) {
		p := strings.Index(l, from) + len(from)
		for i := 0; p <= len(l); i++ {
			e := strings.IndexByte(l[p:], ' ')
			if e < 0 {
				e = len(l) - p
			}
			if n, iv := keep(i); n {
				at, interval = append(at, [2]int{p, p + e}), append(interval, iv)
			}
			p += e + 1
		}
	}
	slashes := func(p, e int) {
		for {
			n := strings.IndexByte(l[p:e], '/')
			if n < 0 {
				break
			}
			at, interval = append(at, [2]int{p, p + n}), append(interval, false)
			p += n + 1
		}
		at, interval = append(at, [2]int{p, e}), append(interval, false)
	}
	switch l[:2] {
	case "v=":
		fields("=", func(i int) (bool, bool) { return true, false })
	case "o=":
		fields("=", func(i int) (bool, bool) { return i == 1 || i == 2, false })
	case "t=":
		fields("=", func(i int) (bool, bool) { return true, false })
	case "r=":
		fields("=", func(i int) (bool, bool) { return true, true })
	case "z=":
		fields("=", func(i int) (bool, bool) { return true, i%2 == 1 })
	case "b=":
		fields(":", func(i int) (bool, bool) { return true, false })
	case "c=":
		if i := strings.IndexByte(l, '/'); i >= 0 {
			slashes(i+1, len(l))
		}
	case "m=":
		f := strings.SplitN(l, " ", 3)
		slashes(len(f[0])+1, len(f[0])+1+len(f[1]))
	}
	return
}

type mutation struct {
	name string
	pre  string // first bytes of the lines to replace; "": insert
	vals []string
}

var mutations = []mutation{
	{"version not a number", "v=", []string{"v=x", "v=0 0", "v=1.0", "v=-", "v=99999999999999999999", "v=0x0", "v=0_0", "v=\x000"}},
	{"origin fields", "o=", []string{"o=-", "o=- 1 2 IN IP4", "o=- 1 2 IN IP4 a b", "o=- 1  2 IN IP4 a", "o= 1 2 IN IP4 a", "o=a 1"}},
	{"origin numbers", "o=", []string{"o=- x 2 IN IP4 a", "o=- 1 y IN IP4 a", "o=- 1 2.5 IN IP4 a", "o=- 1 99999999999999999999 IN IP4 a"}},
	{"connection fields", "c=", []string{"c=IN", "c=IN IP4", "c=IN IP4 1.2.3.4 5", "c= IP4 1.2.3.4", "c=IN  1.2.3.4", "c=IN IP4 ", "c=IN IP4 /127", "c=IN IP4 /127/3", "c=IN IP6 /3"}},
	{"connection ttl", "c=", []string{"c=IN IP4 224.2.1.1/x", "c=IN IP4 224.2.1.1/256", "c=IN IP4 224.2.1.1/-1", "c=IN IP4 224.2.1.1/300",
		"c=IN IP4 224.2.1.1/1000000", "c=IN IP4 224.2.1.1/127/x", "c=IN IP4 224.2.1.1/127/256", "c=IN IP4 224.2.1.1/400/3", "c=IN IP4 224.2.1.1/127/3/1",
		"c=IN IP4 224.2.1.1/", "c=IN IP4 224.2.1.1//", "c=IN IP4 224.2.1.1//3", "c=IN IP4 224.2.1.1/127/", "c=IN IP4 host/127/", "c=IN IP4 host//3", "c=IN IP4 host/x", "c=IN IP4 host/256", "c=IN IP4 224.2.1.1/+5", "c=IN IP4 224.2.1.1/127/+3", "c=IN IP4 224.2.1.1/0x10", "c=IN IP4 224.2.1.1/1_0", "c=IN IP6 FF15::101/+3", "c=IN IP4 host/127/300", "c=IN IP4 host/1/2/3"}},
	{"connection ipv6", "c=", []string{"c=IN IP6 FF15::101/127/3", "c=IN IP6 FF15::101/x", "c=IN IP6 FF15::101/256", "c=IN IP6 FF15::101/-3", "c=IN IP6 FF15::101/", "c=IN IP6 host/127/3", "c=IN IP6 host/"}},
	{"bandwidth", "b=", []string{"b=XX:x", "b=TIAS", "b=AS", "b=AS:", "b=AS:x", "b=:1", "b=CT:1.5", "b=A S:5", "b=A/S:5", "b=é:5", "b=(AS):5", "b=AS=5", "b=\x01:5", "b=TIAS:", "b=[x]:1"}},
	{"timing", "t=", []string{"t=0", "t=0 0 0", "t=x 0", "t=0 x", "t=-1 0", "t=0  0", "t=1.5 0", "t=0 99999999999999999999", "t=+5 0", "t=0 0x10", "t=1_0 0"}},
	{"tab as delimiter of the origin", "o=", []string{"o=-\t1 2 IN IP4 a", "o=- 1\t2 IN IP4 a", "o=- 1 2\tIN IP4 a", "o=- 1 2 IN\tIP4 a", "o=- 1 2 IN IP4\ta", "o=- 1_0 2 IN IP4 a", "o=- 1 0x2 IN IP4 a"}},
	{"tab as delimiter of the connection", "c=", []string{"c=IN\tIP4 1.2.3.4", "c=IN IP4\t1.2.3.4"}},
	{"tab as delimiter of the timing", "t=", []string{"t=0\t0", "t=0\v0", "t=0\u00a00", "t=0,0"}},
	{"tab as delimiter of the repeat times", "r=", []string{"r=7d\t1h 0", "r=7d 1h\t0", "r=7d 1h 0\t25h", "r=7_0 1h 0", "r=0x7 1 0"}},
	{"tab as delimiter of the zones", "z=", []string{"z=1\t1h", "z=1 1h\t2 0", "z=+1 1h", "z=1 1_0"}},
	{"tab as delimiter of the media", "m=", []string{"m=audio\t1 RTP/AVP 0", "m=audio 1\tRTP/AVP 0", "m=audio 1 RTP/AVP\t0", "m=audio 0x1 RTP/AVP 0", "m=audio 1_0 RTP/AVP 0", "m=audio 1/0x2 RTP/AVP 0"}},
	{"repeat", "r=", []string{"r=1", "r=1 2", "r=x 2 3", "r=1 y 3", "r=1 2 z", "r=1 2 3q", "r=d 1 1", "r=1 2 h", "r=1  2 3", "r=1 2 3 x", "r=1d2 1 1"}},
	{"repeat out of range", "r=", []string{"r=106752d 1 0", "r=1 2562048h 0", "r=1 1 153722868m", "r=1 1 0 9223372037s", "r=9223372037 1 0", "r=1 1 -106752d", "r=1 9223372036854775807 0",
		"r=1 1 0 -9223372036854775808d", "r=213504d 1 0", "r=1 18446744074s 0", "r=1 1 99999999999999999999"}},
	{"zones out of range", "z=", []string{"z=1 106752d", "z=1 -2562048h", "z=1 0 2 9223372037", "z=1 -153722868m", "z=1 213504d", "z=99999999999999999999 1h"}},
	{"zones", "z=", []string{"z=1", "z=1 2 3", "z=x 1h", "z=1 x", "z=1 h", "z=1  1h", "z=-1 1h"}},
	{"media fields", "m=", []string{"m=audio", "m=audio 1", "m=audio 1 RTP/AVP", "m=audio  RTP/AVP 0", "m= 1 RTP/AVP 0"}},
	{"media port", "m=", []string{"m=audio x RTP/AVP 0", "m=audio 1/x RTP/AVP 0", "m=audio 1/ RTP/AVP 0", "m=audio 1.5 RTP/AVP 0", "m=audio - RTP/AVP 0", "m=audio 1/2/3 RTP/AVP 0", "m=audio 1/2/ RTP/AVP 0", "m=audio /2 RTP/AVP 0", "m=audio 1//2 RTP/AVP 0", "m=audio / RTP/AVP 0"}},
	{"attribute without value", "a=", []string{"a=rtpmap:", "a=x:"}},
	{"key without value", "k=", []string{"k=clear:"}},
	{"no delimiter", "", []string{"garbage", "v", "-", "m audio 5 RTP/AVP 0"}},
	{"no value", "", []string{"a=", "m=", "i=", "b=", "x="}},
	{"unknown type", "", []string{"x=1", "A=b", "q=1", "M=audio 5 RTP/AVP 0", "0=1", "é=1", "?=?", "w= ", "=1", "==", "=v=0", " =1", "\x80=1"}},
	{"second version, origin or name", "", []string{"v=0", "o=- 1 2 IN IP4 a", "s=again"}},
}

// structural mutations, behind the table
var structural = []string{"version behind origin", "origin behind name", "repeat without timing", "session line in a media",
	"title behind the attributes", "moved line", "number", "number", "number too large", "field less or more"}

func runS04(r *kit.R, ci any) {
	c := ci.(*S04)
	m := c.M
	lines := m.text(func(s int64) string { return intervalText(s, 0) })
	idx := func(pre string) []int {
		var x []int
		for i, l := range lines {
			if strings.HasPrefix(l, pre) {
				x = append(x, i)
			}
		}
		return x
	}
	if _, err := decode([]byte(strings.Join(lines, "\n"))); err != nil {
		r.Fatalf("well-formed text is rejected: %v\n%s", err, strings.Join(lines, "\n"))
	}
	insert := func(at int, l string) {
		lines = append(lines[:at], append([]string{l}, lines[at:]...)...)
	}
	name := ""
	if c.Kind < len(mutations) {
		mu := mutations[c.Kind]
		name = mu.name
		v := mu.vals[c.Var%len(mu.vals)]
		if mu.pre == "" {
			at := c.Pos % (len(lines) + 1)
			if name == "second version, origin or name" {
				at = 3 + c.Pos%(len(lines)-2)
			}
			insert(at, v)
		} else {
			x := idx(mu.pre)
			lines[x[c.Pos%len(x)]] = v
		}
	} else {
		name = structural[c.Kind-len(mutations)]
		first := idx("m=")[0]
		switch name {
		case "version behind origin":
			lines[0], lines[1] = lines[1], lines[0]
		case "origin behind name":
			lines[1], lines[2] = lines[2], lines[1]
		case "repeat without timing":
			var l []string
			for _, x := range lines {
				if !strings.HasPrefix(x, "t=") && !strings.HasPrefix(x, "r=") {
					l = append(l, x)
				}
			}
			lines = l
			insert(3, "r=7d 1h 0")
		case "session line in a media":
			insert(first+1+c.Pos%(len(lines)-first), []string{"u=http://x", "e=x", "p=1", "t=0 0", "r=7d 1h 0", "z=1 1h", "o=- 1 2 IN IP4 a", "v=0", "s=x"}[c.Var%9])
		case "moved line":
			// the places of these lines are fixed, whatever else there is
			var x []int
			for i, l := range lines[:first] {
				if strings.ContainsRune("vosept", rune(l[0])) || (l[0] == 'r' && len(m.Timing) == 1) {
					x = append(x, i)
				}
			}
			from := x[c.Pos%len(x)]
			l := lines[from]
			lines = append(lines[:from:from], lines[from+1:]...)
			to := c.At % len(lines)
			if to >= from {
				to++
			}
			insert(to, l)
			name += " " + l[:1]
		case "number", "number too large":
			var x []int
			for i, l := range lines {
				if at, _ := numbers(l); len(at) > 0 {
					x = append(x, i)
				}
			}
			i := x[c.Pos%len(x)]
			l := lines[i]
			at, iv := numbers(l)
			k := c.Var % len(at)
			p, e := at[k][0], at[k][1]
			digits := e
			if iv[k] && l[e-1] > '9' {
				digits--
			}
			if name == "number too large" {
				// 21 digits more than it has
				lines[i] = l[:digits] + "123456789012345678901" + l[digits:]
				if l[digits-1] == '0' && digits-p == 1 {
					lines[i] = l[:p] + "9" + lines[i][p+1:]
				}
			} else {
				q := p + c.At%(digits-p+1)
				bad := c.Bad
				if q == p && strings.Contains("+-", bad[:1]) {
					q = digits
				}
				if iv[k] && q == digits && strings.Contains("dhms", bad) {
					q = p
				}
				lines[i] = l[:q] + bad + l[q:]
			}
			name += " " + l[:1]
		case "field less or more":
			// of these the number of fields is fixed
			var x []int
			for i, l := range lines {
				if strings.ContainsRune("otc", rune(l[0])) {
					x = append(x, i)
				}
			}
			i := x[c.Pos%len(x)]
			f := strings.Split(lines[i], " ")
			if k := c.At % len(f); c.Var%2 == 0 && len(f) > 1 {
				f = append(f[:k:k], f[k+1:]...)
				if k == 0 {
					f[0] = lines[i][:2] + f[0]
				}
			} else {
				f = append(f[:k+1:k+1], append([]string{"5"}, f[k+1:]...)...)
			}
			name += " " + lines[i][:1]
			lines[i] = strings.Join(f, " ")
		case "title behind the attributes":
			// i u e p c t z are all there: i cannot follow any of them
			insert(4+c.Pos%3, "i=again")
		}
	}
	r.Label(name)
	r.NonTrivial()
	b := strings.Join(lines, "\n")
	got, err := decode([]byte(b))
	if err == nil {
		r.Fatalf("malformed text (%s) is accepted as %v\n%s", name, dump(got), b)
	}
	if err.Error() == "" {
		r.Fatalf("empty error")
	}
}

// full makes sure that every kind of line occurs.
func full(t *rapid.T) Msg {
	m := *genMsg(t)
	m.Info, m.URI, m.Email, m.Phone = "info", "http://x", "e", "p"
	m.Conn = genConn(t)
	m.BW = []BW{{"AS", 5}}
	m.Enc = &KV{"clear", "k"}
	x := genTiming(t)
	x.HasR, x.Rep, x.Active, x.Offs = true, 60, 60, []int64{0, 60}
	m.Timing = []Timing{x}
	if len(m.TZ) == 0 {
		m.TZ = []TZ{{5, 3600}}
	}
	m.Attrs = append(m.Attrs, KV{"tool", "x"})
	md := genMedia(t)
	md.Title, md.Conn, md.BW, md.Enc = "t", genConn(t), []BW{{"CT", 5}}, &KV{"clear", "x"}
	md.Attrs = append(md.Attrs, KV{"x", "y"})
	m.Medias = append(m.Medias, md)
	return m
}

// ---- S05 anything ----

type RawLine struct {
	T int32
	V []byte
}

type S05 struct {
	Raw   []byte
	Lines []RawLine // a session built by hand, when Raw is nil
}

var ugly = []string{"", " ", "  ", "=", ":", "/", "0", "-1", "-", "+", "d", "0d", "99999999999999999999", "9223372036854775807", "-9223372036854775808",
	"\x00", "\xff\xfe", "\r", "é", "a:b", "a:", ":a", "1/2/3/4", "IN IP4 ", "IN IP6 ::1/1", "0 0", "0 0 0", "1h 1h 0", "5d 5d 5d d", "18446744073709551615 0",
	"999999999999d 1 1", "106751d 2562047h 9223372036", "106752d 1 0", "5 -106752d", "5 -106751d", "00000", "18446744013782943616 5", "IN IP4 1.2.3.4/0/3", "IN IP6 ::ffff:1.2.3.4/5", "audio 1/2/3 RTP 0", "IN IP4 host.example.com/5/6", "IN IP6 host/5", "IN IP4 <nil>", "- 1 2 IN IP4 x", "AS:1", "CT:-5", "%", "\u00a0x", "x\u00a0"}

// renumber replaces the first number behind p.
func renumber(t *rapid.T, b []byte, p int) []byte {
	digit := func(i int) bool { return i < len(b) && b[i] >= '0' && b[i] <= '9' }
	for p < len(b) && !digit(p) {
		p++
	}
	for p > 0 && digit(p-1) {
		p--
	}
	e := p
	for digit(e) {
		e++
	}
	n := rapid.SampledFrom([]string{"-5", "-1", "+7", "0", "00", "-0", "007", "255", "256", "65535", "65536", "70000", "2147483648", "4294967296", "9223372036", "9223372037", "9223372036854775807",
		"-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "0x10", "1.5", "1_0", "", "٣"}).Draw(t, "number")
	return append(append(append([]byte{}, b[:p]...), n...), b[e:]...)
}

func genS05(t *rapid.T) any {
	types := "vosiuepcbtrzkam"
	switch rapid.IntRange(0, 4).Draw(t, "form") {
	case 0:
		return &S05{Raw: append([]byte{}, rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")...)}
	case 1: // soup of plausible lines
		var b []byte
		for n := rapid.IntRange(0, 15).Draw(t, "lines"); n > 0; n-- {
			b = append(b, types[rapid.IntRange(0, len(types)-1).Draw(t, "type")])
			b = append(b, '=')
			b = append(b, rapid.SampledFrom(ugly).Draw(t, "value")...)
			b = append(b, '\n')
		}
		return &S05{Raw: append([]byte{}, b...)}
	case 2, 3: // mutated text
		m := genMsg(t)
		style := rapid.IntRange(0, 4).Draw(t, "style")
		l := m.text(func(s int64) string { return intervalText(s, style) })
		b := []byte(strings.Join(l, "\n"))
		for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0; n-- {
			p := rapid.IntRange(0, len(b)).Draw(t, "at")
			switch rapid.IntRange(0, 7).Draw(t, "mutation") {
			case 6, 7: // another number
				b = renumber(t, b, p)
			case 0:
				b = append(b[:p:p], append([]byte(rapid.SampledFrom(ugly).Draw(t, "insert")), b[p:]...)...)
			case 1:
				e := min(len(b), p+rapid.IntRange(1, 12).Draw(t, "delete"))
				b = append(b[:p:p], b[e:]...)
			case 2:
				if p < len(b) {
					b[p] = rapid.Byte().Draw(t, "byte")
				}
			case 3: // cut
				b = b[:p]
			case 4: // double a line
				ls := strings.Split(string(b), "\n")
				i := rapid.IntRange(0, len(ls)-1).Draw(t, "line")
				j := rapid.IntRange(0, len(ls)).Draw(t, "to")
				ls = append(ls[:j:j], append([]string{ls[i]}, ls[j:]...)...)
				b = []byte(strings.Join(ls, "\n"))
			case 5: // swap
				ls := strings.Split(string(b), "\n")
				i := rapid.IntRange(0, len(ls)-1).Draw(t, "line")
				j := rapid.IntRange(0, len(ls)-1).Draw(t, "to")
				ls[i], ls[j] = ls[j], ls[i]
				b = []byte(strings.Join(ls, "\n"))
			}
		}
		return &S05{Raw: append([]byte{}, b...)}
	}
	c := &S05{Lines: []RawLine{}}
	if rapid.Bool().Draw(t, "from a message") {
		// values as they are, also with spaces at their ends
		m := genMsg(t)
		style := rapid.IntRange(0, 4).Draw(t, "style")
		for _, l := range m.text(func(s int64) string { return intervalText(s, style) }) {
			c.Lines = append(c.Lines, RawLine{T: int32(l[0]), V: []byte(l[2:])})
		}
		for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0; n-- {
			l := &c.Lines[rapid.IntRange(0, len(c.Lines)-1).Draw(t, "line")]
			p := rapid.IntRange(0, len(l.V)).Draw(t, "at")
			switch rapid.IntRange(0, 6).Draw(t, "mutation") {
			case 5, 6:
				l.V = renumber(t, l.V, p)
			case 0:
				l.V = append(l.V[:p:p], append([]byte(rapid.SampledFrom(ugly).Draw(t, "insert")), l.V[p:]...)...)
			case 1:
				l.V = l.V[:p]
			case 2:
				l.V = append(l.V, rapid.SampledFrom(ugly).Draw(t, "end")...)
			case 3: // up to a space
				k := bytes.IndexByte(l.V[p:], ' ')
				l.V = l.V[:p+k+1]
			case 4:
				l.V = append([]byte(rapid.SampledFrom(ugly).Draw(t, "front")), l.V...)
			}
		}
		return c
	}
	for n := rapid.IntRange(0, 12).Draw(t, "lines"); n > 0; n-- {
		l := RawLine{T: int32(types[rapid.IntRange(0, len(types)-1).Draw(t, "type")])}
		if rapid.IntRange(0, 9).Draw(t, "odd type") == 0 {
			l.T = rapid.SampledFrom([]int32{0, -1, 'x', 0xfffd, 0x10ffff, 0x7fffffff, ' ', '\n'}).Draw(t, "type")
		}
		l.V = []byte(rapid.SampledFrom(ugly).Draw(t, "value"))
		if len(l.V) == 0 && rapid.Bool().Draw(t, "nil") {
			l.V = nil
		}
		c.Lines = append(c.Lines, l)
	}
	return c
}

func (c *S05) decode(r *kit.R) (*sdp.Message, error) {
	var s sdp.Session
	if c.Lines == nil {
		b := append([]byte{}, c.Raw...)
		var err error
		s, err = sdp.DecodeSession(b, nil)
		if !bytes.Equal(b, c.Raw) {
			r.Fatalf("the input is changed")
		}
		if err != nil {
			return nil, err
		}
	} else {
		for _, l := range c.Lines {
			s = append(s, sdp.Line{Type: sdp.Type(l.T), Value: append([]byte(nil), l.V...)})
		}
	}
	for _, l := range s {
		_ = l.String()
		_ = l.Type.String()
	}
	m := &sdp.Message{}
	d := sdp.NewDecoder(s)
	if err := d.Decode(m); err != nil {
		_ = err.Error()
		return nil, err
	}
	reuse(r, s, m)
	return m, nil
}

// reuse overwrites the lines: what was decoded from them must not change.
func reuse(r *kit.R, s sdp.Session, m *sdp.Message) {
	before := dump(m)
	for _, l := range s {
		v := l.Value[:cap(l.Value)]
		for i := range v {
			v[i] = '!'
		}
	}
	if d := diff(dump(m), before); d != "" {
		r.Fatalf("the message changes when the lines it was decoded from are used again: %s", d)
	}
}

var fuzzSeeds = []string{
	"v=0\no=jdoe 2890844526 2890842807 IN IP4 10.47.16.5\ns=SDP Seminar\ni=A Seminar\nu=http://x/y.ps\ne=j.doe@example.com (Jane Doe)\np=12345\nc=IN IP4 224.2.17.12/127\nb=CT:154\nt=2873397496 2873404696\nr=7d 1h 0 25h\nz=2882844526 -1h 2898848070 0\nk=clear:ab8c4df8b8f4as8v8iuy8re\na=recvonly\nm=audio 49170/2 RTP/AVP 0 96\ni=x\nc=IN IP6 FF15::103/3\nb=AS:66781\nk=prompt\na=rtpmap:96 L8/8000\nm=video 51372 udp 99\na=x\n",
	"v=0\r\no=- 1 1 IN IP6 ::1\r\ns=-\r\nt=0 0\r\n\r\nm=video 0 RTP/AVP 96\r\na=framesize:96 1-2\r\n", "s=x", "v=0\no=a 0 0 IN IP4 x\ns= \nt=1 2\nr=1 1 1\n",
}

func runS05(r *kit.R, ci any) {
	c := ci.(*S05)
	m, err := c.decode(r)
	m2, err2 := c.decode(r)
	if (err == nil) != (err2 == nil) || (err != nil && err.Error() != err2.Error()) {
		r.Fatalf("two decodings differ: %v / %v", err, err2)
	}
	if err != nil {
		r.Label("rejected")
		if len(c.Raw) > 10 || len(c.Lines) > 2 {
			r.NonTrivial()
		}
		return
	}
	r.Label("accepted")
	if len(c.Raw) > 10 || len(c.Lines) > 2 {
		r.NonTrivial()
	}
	if d := diff(dump(m), dump(m2)); d != "" {
		r.Fatalf("two decodings differ: %s", d)
	}
	// a message with the mandatory fields is stable: its text says the same
	o := m.Origin
	if m.Name == "" || o.Username == "" || o.Address == "" || o.NetworkType == "" || o.AddressType == "" || c.Lines != nil {
		return
	}
	r.Label("stability")
	b := m.Append(nil).AppendTo(nil)
	m3, err := decode(b)
	if err != nil {
		r.Fatalf("the text of a decoded message is rejected: %v\nfrom %q\ntext %q", err, c.Raw, b)
	}
	if d := diff(dump(m3), dump(m)); d != "" {
		r.Fatalf("the text of a decoded message says something else\n%s\nfrom %q\ntext %q", d, c.Raw, b)
	}
}

// ---- S06 sessions: text round trip and reuse ----

type S06 struct {
	M    Msg
	A, B []RawLine
	Cap  int
	Drop int // lines of A that stay in front of B when decoding
}

func genLines(t *rapid.T) []RawLine {
	var r []RawLine
	for n := count(t, "lines", 0, 8); n > 0; n-- {
		l := RawLine{T: rapid.SampledFrom([]int32{'v', 'o', 's', 'm', 'a', 'x', 'Z', '0', 'é', '世', '-'}).Draw(t, "type")}
		l.V = []byte(raw(text(t, "value", 12)))
		if rapid.IntRange(0, 5).Draw(t, "lead") == 0 {
			l.V = append([]byte(rapid.SampledFrom([]string{" ", "=", "\t", ":"}).Draw(t, "prefix")), l.V...)
		}
		if rapid.IntRange(0, 9).Draw(t, "binary") == 0 {
			l.V = append(l.V, rapid.SampledFrom([]string{"\xff\x00x", "\x00", "\xff", "x\x00\x00", "\x01", "\x1f", "\x7f", "\ufeff", "\u200b", "\xe2\x80", "\x1a"}).Draw(t, "bytes")...)
		}
		r = append(r, l)
	}
	return r
}

func linesText(l []RawLine) []byte {
	var b []byte
	for i, x := range l {
		if i > 0 {
			b = append(b, '\n')
		}
		b = append(b, string(rune(x.T))...)
		b = append(b, '=')
		b = append(b, x.V...)
	}
	return b
}

func sameLines(s sdp.Session, l []RawLine) string {
	if len(s) != len(l) {
		return fmt.Sprintf("%d lines instead of %d", len(s), len(l))
	}
	for i := range l {
		if int32(s[i].Type) != l[i].T || !bytes.Equal(s[i].Value, l[i].V) {
			return fmt.Sprintf("line %d: got %q=%q want %q=%q", i, rune(s[i].Type), s[i].Value, l[i].T, l[i].V)
		}
	}
	return ""
}

func runS06(r *kit.R, ci any) {
	c := ci.(*S06)
	if len(c.A) > 1 && len(c.B) > 1 {
		r.NonTrivial()
	}
	bufA := linesText(c.A)
	a, err := sdp.DecodeSession(bufA, make(sdp.Session, 0, c.Cap))
	if err != nil {
		r.Fatalf("session A: %v", err)
	}
	for i := range bufA {
		bufA[i] = 'X' // safe to corrupt
	}
	if d := sameLines(a, c.A); d != "" {
		r.Fatalf("session read from text: %s", d)
	}
	for i, l := range a {
		if g := l.String(); g != l.Type.String()+": "+string(c.A[i].V) {
			r.Fatalf("String of line %d: %q", i, g)
		}
	}
	out := a.AppendTo(nil)
	if !bytes.Equal(out, linesText(c.A)) {
		r.Fatalf("text of the session: got %q want %q", out, linesText(c.A))
	}
	// appending to a session keeps what is there
	keep := min(c.Drop, len(a))
	r.LabelIf(keep > 0, "prefix kept")
	var prefix sdp.Session
	for _, l := range a[:keep] {
		prefix = append(prefix, sdp.Line{Type: l.Type, Value: append([]byte{}, l.Value...)})
	}
	// reuse of the lines of a for b, with the text in a buffer that is reused, too
	bufB := append(bufA[:0], linesText(c.B)...)
	b, err := sdp.DecodeSession(bufB, a[:keep])
	if err != nil {
		r.Fatalf("session B: %v", err)
	}
	for i := range bufB {
		bufB[i] = 'Y'
	}
	want := append(append([]RawLine{}, c.A[:keep]...), c.B...)
	if d := sameLines(b, want); d != "" {
		r.Fatalf("session read into a reused one: %s", d)
	}
	r.LabelIf(len(c.A) > len(c.B) && len(c.B) > 0, "old lines reused")
	// building into the reused session
	s := b[:0]
	for _, l := range c.A {
		s = s.AddLine(sdp.Type(l.T), string(l.V))
	}
	if d := sameLines(s, c.A); d != "" {
		r.Fatalf("session built into a reused one: %s", d)
	}
	// a message does not change when the lines it was decoded from are reused
	if c.M.Name != "" {
		md, err := sdp.DecodeSession([]byte(strings.Join(c.M.text(compact), "\n")), s[:0])
		if err != nil {
			r.Fatalf("session of a message: %v", err)
		}
		m := &sdp.Message{}
		dec := sdp.NewDecoder(md)
		if err := dec.Decode(m); err != nil {
			r.Fatalf("message: %v", err)
		}
		before := dump(m)
		if s, err = sdp.DecodeSession(linesText(c.B), md[:0]); err != nil {
			r.Fatalf("session B: %v", err)
		}
		if d := diff(dump(m), before); d != "" {
			r.Fatalf("the message changes when the lines it was decoded from are reused: %s", d)
		}
		reuse(r, md, m)
		s = s[:0]
		for _, l := range c.A {
			s = s.AddLine(sdp.Type(l.T), string(l.V))
		}
	}
	// equality
	e := func(l []RawLine) sdp.Session {
		var s sdp.Session
		for _, x := range l {
			s = append(s, sdp.Line{Type: sdp.Type(x.T), Value: append([]byte{}, x.V...)})
		}
		return s
	}
	same := bytes.Equal(linesText(c.A), linesText(c.B)) && len(c.A) == len(c.B)
	if !e(c.A).Equal(s) || !s.Equal(e(c.A)) || e(c.A).Equal(e(c.B)) != same || e(c.B).Equal(e(c.A)) != same {
		r.Fatalf("Equal of sessions %q and %q", linesText(c.A), linesText(c.B))
	}
	for i := range c.A {
		x := e(c.A)
		x[i].Value = append(x[i].Value, '!')
		if x.Equal(s) || s.Equal(x) || x[i].Equal(s[i]) {
			r.Fatalf("Equal ignores the value of line %d", i)
		}
		if v := c.A[i].V; len(v) > 0 {
			for _, k := range []int{0, len(v) / 2, len(v) * 7 / 8, len(v) - 1} {
				x = e(c.A)
				x[i].Value[k] ^= 1
				if x.Equal(s) || s.Equal(x) || x[i].Equal(s[i]) {
					r.Fatalf("Equal ignores byte %d of the value of line %d", k, i)
				}
			}
		}
		x = e(c.A)
		x[i].Type = 'Q'
		if x.Equal(s) || x[i].Equal(s[i]) {
			r.Fatalf("Equal ignores the type of line %d", i)
		}
		if x[:i].Equal(s) || s.Equal(x[:i]) {
			r.Fatalf("Equal ignores the number of lines")
		}
	}
}

// ---- S07 values ----

type S07 struct {
	NTP  uint64
	Unix int64
	C, D Conn
	O, P Origin
	Flip int
	Nano int
	Zone int
}

func runS07(r *kit.R, ci any) {
	c := ci.(*S07)
	if c.NTP != 0 && c.Unix != 0 {
		r.NonTrivial()
	}
	// NTP
	t := sdp.NTPToTime(c.NTP)
	if g := sdp.TimeToNTP(t); g != c.NTP {
		r.Fatalf("NTP %d -> %v -> %d", c.NTP, t, g)
	}
	if (c.NTP == 0) != t.IsZero() {
		r.Fatalf("NTP %d is %v", c.NTP, t)
	}
	if c.NTP != 0 && t.Unix() != int64(c.NTP)-2208988800 {
		r.Fatalf("NTP %d is %v", c.NTP, t)
	}
	u := time.Unix(c.Unix, int64(c.Nano)).In(time.FixedZone("z", c.Zone))
	if g := sdp.TimeToNTP(u); int64(g) != c.Unix+2208988800 {
		r.Fatalf("%v is NTP %d", u, g)
	}
	if sdp.TimeToNTP(time.Time{}) != 0 {
		r.Fatalf("the zero time is not 0")
	}
	// connection data
	a, b := c.C.api(), c.D.api()
	same := c.C == c.D
	if a.Equal(b) != same || b.Equal(a) != same || !a.Equal(c.C.api()) {
		r.Fatalf("Equal of %v and %v", a, b)
	}
	x := c.C.api()
	switch c.Flip % 5 {
	case 0:
		x.NetworkType += "x"
	case 1:
		x.AddressType += "x"
	case 2:
		if x.IP == nil {
			x.Host += "x"
			break
		}
		x.IP = append(net.IP{}, x.IP...)
		x.IP[len(x.IP)-1] ^= 1
	case 3:
		x.TTL++
	case 4:
		x.Addresses++
	}
	if x.Equal(a) || a.Equal(x) {
		r.Fatalf("%v equals %v", a, x)
	}
	if a.Blank() || !(sdp.ConnectionData{}).Blank() || x.Blank() {
		r.Fatalf("Blank of connection data")
	}
	w := connText(&c.C)[2:]
	if g := a.String(); g != w {
		r.Fatalf("String of connection data: got %q want %q", g, w)
	}
	if g := a.ConnectionAddress(); g != strings.Split(w, " ")[2] {
		r.Fatalf("connection address: got %q want %q", g, w)
	}
	// origin
	mo := func(o Origin) sdp.Origin { m := Msg{Origin: o}; return m.api().Origin }
	o, p := mo(c.O), mo(c.P)
	if o.Equal(p) != (c.O == c.P) || !o.Equal(mo(c.O)) {
		r.Fatalf("Equal of %v and %v", o, p)
	}
	p = o
	switch c.Flip % 6 {
	case 0:
		p.Username += "x"
	case 1:
		p.SessionID++
	case 2:
		p.SessionVersion++
	case 3:
		p.NetworkType += "x"
	case 4:
		p.AddressType += "x"
	case 5:
		p.Address += "x"
	}
	if p.Equal(o) || o.Equal(p) {
		r.Fatalf("%v equals %v", o, p)
	}
	e := sdp.Encryption{Method: c.O.User, Key: c.O.Addr}
	if e.Blank() || !e.Equal(e) || e.Equal(sdp.Encryption{Method: c.O.User}) || !(sdp.Encryption{}).Blank() {
		r.Fatalf("Blank/Equal of %v", e)
	}
}

// Props are the checks of this package.
var Props = []*kit.Prop{
	{ID: "S01", Rule: "random messages with every kind of field (texts over several alphabets, 0-3 time descriptions with repeats, zones, 0-3 medias); non-trivial: at least three optional kinds of lines",
		Gen: func(t *rapid.T) any {
			return &S01{M: *genMsg(t), Defaults: rapid.IntRange(0, 3).Draw(t, "defaults") == 0, Addr: rapid.IntRange(0, len(originAddrs)-1).Draw(t, "addr")}
		},
		New: func() any { return &S01{} }, Run: runS01, Fuzz: true, Quick: 40000, Deep: 1500000},
	{ID: "S02", Rule: "random messages, and random sequences of the line-level calls, encoded into fresh and reused sessions; non-trivial: at least three optional kinds of lines or four calls",
		Gen: func(t *rapid.T) any {
			c := &S02{M: *genMsg(t), Pre: rapid.SampledFrom([]string{"", "", "abc", "v=0\n"}).Draw(t, "prefix"),
				Cap: rapid.SampledFrom([]int{0, 0, 1, 5, 40}).Draw(t, "cap"), Junk: rapid.IntRange(0, 40).Draw(t, "junk")}
			for n := count(t, "ops", 0, 8); n > 0; n-- {
				c.Ops = append(c.Ops, genOp(t))
			}
			return c
		},
		New: func() any { return &S02{} }, Run: runS02, Fuzz: true, Quick: 50000, Deep: 1000000},
	{ID: "S03", Rule: "text written from random messages by the harness, with varying interval notations, line ends, blank lines and surrounding white space; non-trivial: at least three optional kinds of lines",
		Gen: func(t *rapid.T) any {
			return &S03{M: *genMsg(t), Iv: rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(t, "iv"),
				Fmt: rapid.SliceOfN(rapid.IntRange(0, 4), 0, 6).Draw(t, "fmt"), Blanks: rapid.SliceOfN(rapid.SampledFrom([]string{"", " ", "\t", "\r"}), 0, 3).Draw(t, "blanks"),
				EOL: rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(t, "eol"), Last: rapid.Bool().Draw(t, "last"), Lower: rapid.Bool().Draw(t, "lower")}
		},
		New: func() any { return &S03{} }, Run: runS03, Fuzz: true, Quick: 40000, Deep: 1500000},
	{ID: "S04", Rule: "well-formed text of random messages with one defect out of a table of kinds put into it; every case is non-trivial",
		Gen: func(t *rapid.T) any {
			return &S04{M: full(t), Kind: rapid.IntRange(0, len(mutations)+len(structural)-1).Draw(t, "kind"),
				Pos: rapid.IntRange(0, 40).Draw(t, "pos"), Var: rapid.IntRange(0, 20).Draw(t, "variant"),
				Bad: rapid.SampledFrom([]string{"x", "X", ".", ",", "_", "e", "-", "+", "0x", "0x", "0X1", "0b1", "0o7", "d", "h", "m", "s", "D", ":", "\"", "٣", "=", "#", "\x00", "é", "o", "dd", "1d1", "ms"}).Draw(t, "bad"),
				At:  rapid.IntRange(0, 60).Draw(t, "at")}
		},
		New: func() any { return &S04{} }, Run: runS04, Fuzz: true, Quick: 80000, Deep: 1000000},
	{ID: "S05", Rule: "random bytes, soups of plausible lines, mutated text, sessions built by hand; non-trivial: over 10 bytes or 2 lines",
		Gen: genS05, New: func() any { return &S05{} }, Run: runS05, Bytes: func(b []byte) any { return &S05{Raw: b} }, Seeds: fuzzSeeds, Quick: 100000, Deep: 3000000},
	{ID: "S06", Rule: "pairs of random line lists, written, read, read into reused sessions and buffers; non-trivial: both with more than one line",
		Gen: func(t *rapid.T) any {
			c := &S06{M: *genMsg(t), A: genLines(t), B: genLines(t), Cap: rapid.SampledFrom([]int{0, 1, 3, 9, 20}).Draw(t, "cap"), Drop: rapid.IntRange(0, 4).Draw(t, "keep")}
			if rapid.IntRange(0, 9).Draw(t, "same") == 0 {
				c.B = c.A
			}
			return c
		},
		New: func() any { return &S06{} }, Run: runS06, Fuzz: true, Quick: 40000, Deep: 1500000},
	{ID: "S07", Rule: "random NTP and Unix times, pairs of connection data and origins with one field changed; non-trivial: both times non-zero",
		Gen: func(t *rapid.T) any {
			c := &S07{NTP: ntp(t, "ntp"), Unix: rapid.Int64Range(-2208988799, 1<<40).Draw(t, "unix"), C: *genConn(t), D: *genConn(t),
				O: genMsg(t).Origin, P: genMsg(t).Origin, Flip: rapid.IntRange(0, 29).Draw(t, "flip"), Nano: rapid.IntRange(0, 999999999).Draw(t, "nano"),
				Zone: rapid.IntRange(-43200, 43200).Draw(t, "zone")}
			if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
				c.D, c.P = c.C, c.O
			}
			return c
		},
		New: func() any { return &S07{} }, Run: runS07, Fuzz: true, Quick: 80000, Deep: 1000000},
}
