// Package sdpcheck checks the sdp package against a model of RFC 4566.
package sdpcheck

import (
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
	"pgregory.net/rapid"
)

// ---- the model ----

type KV struct{ K, V string }

type BW struct {
	T string
	N int
}

type Conn struct {
	Net, Typ string
	IP       string // or the name of a host
	TTL, Num int
}

type Timing struct {
	Start, End  uint64 // NTP seconds
	HasR        bool
	Rep, Active int64 // seconds
	Offs        []int64
}

type TZ struct {
	At  uint64
	Off int64
}

type Origin struct {
	User     string
	ID, Ver  int
	Net, Typ string
	Addr     string
}

type Media struct {
	Type, Proto, Format string
	Port, Ports         int
	Title               string
	Conn                *Conn
	BW                  []BW
	Enc                 *KV
	Attrs               []KV
}

type Msg struct {
	Version                 int
	Origin                  Origin
	Name                    string
	Info, URI, Email, Phone string
	Conn                    *Conn
	BW                      []BW
	Timing                  []Timing
	TZ                      []TZ
	Enc                     *KV
	Attrs                   []KV
	Medias                  []Media
}

// ---- generators ----

var textAlphabets = []string{
	"abcXYZ 019-._/@+",
	"ab=:;,/ \"'%?*\\$",
	"é世界ñ  ß–💡a\tb",
	"a\uf7e9\uf780\uf785\uf7a0\uf7ff\uf7c3\x01\x7f b\ufeff\u2028", // U+F780-F7FF stand for bytes that are no UTF-8, see raw
}

// raw replaces U+F780 to U+F7FF by the bytes 0x80 to 0xff: texts are bytes in
// RFC 4566, but cases are recorded as JSON, which knows no such strings.
func raw(s string) string {
	if !strings.Contains(s, "\xef\x9e") && !strings.Contains(s, "\xef\x9f") {
		return s
	}
	var b []byte
	for _, r := range s {
		if r >= 0xf780 && r <= 0xf7ff {
			b = append(b, byte(r-0xf700))
		} else {
			b = append(b, string(r)...)
		}
	}
	return string(b)
}

// count draws a number of things, now and then far more than usual.
func count(t *rapid.T, what string, lo, hi int) int {
	if rapid.IntRange(0, 80).Draw(t, "many") == 80 {
		return rapid.IntRange(lo, 12*hi).Draw(t, what)
	}
	return rapid.IntRange(lo, hi).Draw(t, what)
}

func text(t *rapid.T, what string, max int) string {
	al := []rune(textAlphabets[rapid.IntRange(0, len(textAlphabets)-1).Draw(t, "alphabet")])
	n := rapid.IntRange(1, max).Draw(t, what+" length")
	if rapid.IntRange(0, 60).Draw(t, "long") == 60 {
		n *= rapid.SampledFrom([]int{40, 40, 40, 400, 6000}).Draw(t, "times")
	}
	rs := make([]rune, n)
	for i := range rs {
		if i < 40 {
			rs[i] = al[rapid.IntRange(0, len(al)-1).Draw(t, "rune")]
		} else {
			rs[i] = rs[(i*7+i/13)%40]
		}
	}
	s := strings.TrimRightFunc(string(rs), func(r rune) bool { return strings.TrimSpace(string(r)) == "" })
	if s == "" {
		s = "x"
	}
	return s
}

var tokenAlphabet = []rune("abcdefgXYZ0123456789-._/=:;é#")

func token(t *rapid.T, what string) string {
	return string(rapid.SliceOfN(rapid.SampledFrom(tokenAlphabet), 1, 8).Draw(t, what))
}

func optText(t *rapid.T, what string) string {
	if rapid.Bool().Draw(t, "has "+what) {
		return text(t, what, 12)
	}
	return ""
}

func smallInt(t *rapid.T, what string) int {
	switch rapid.IntRange(0, 3).Draw(t, what+" kind") {
	case 0:
		return rapid.IntRange(0, 20).Draw(t, what)
	case 1:
		return rapid.SampledFrom([]int{0, 1, 9, 10, 99, 100, 101, 1000, 65535, 65536, 999999999, 1000000000, 1<<31 - 1, 1 << 31, 1<<53 + 1, 1<<63 - 1}).Draw(t, what)
	default:
		return rapid.IntRange(0, 1<<40).Draw(t, what)
	}
}

func ntp(t *rapid.T, what string) uint64 {
	switch rapid.IntRange(0, 4).Draw(t, what+" kind") {
	case 0:
		return 0
	case 1:
		return rapid.SampledFrom([]uint64{1, 2208988799, 2208988800, 2208988801, 2873397496, 3034423619, 1<<32 - 1, 1 << 32, 1<<32 + 1}).Draw(t, what)
	case 2:
		return rapid.Uint64Range(1, 9999999999).Draw(t, what)
	default:
		return rapid.Uint64Range(2800000000, 3900000000).Draw(t, what)
	}
}

var units = []int64{1, 60, 3600, 86400}

func secs(t *rapid.T, what string, neg bool) int64 {
	u := rapid.SampledFrom(units).Draw(t, what+" unit")
	n := rapid.Int64Range(0, 120).Draw(t, what)
	if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
		n = rapid.Int64Range(0, 3000000).Draw(t, what)
		u = 1
	} else if rapid.IntRange(0, 19).Draw(t, "large") == 0 {
		// up to the largest that fits a duration
		n = rapid.SampledFrom([]int64{106751, 106750, 9223372036 / u, 9223372036/u - 1, 1 << 31 / u}).Draw(t, what)
		n = min(n, 9223372036/u)
	}
	if neg && rapid.Bool().Draw(t, "negative") {
		n = -n
	}
	return n * u
}

func ipString(t *rapid.T) string {
	if rapid.Bool().Draw(t, "v4") {
		b := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 9, 10, 99, 100, 127, 224, 239, 255}), 4, 4).Draw(t, "ip")
		return net.IP(b).String()
	}
	b := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 0xff, 0xab, 0x10}), 16, 16).Draw(t, "ip6")
	ip := net.IP(b)
	if ip.To4() != nil {
		ip[0] = 0xff
	}
	return ip.String()
}

var hostNames = []string{"example.com", "host", "a-b.c.d.example.com", "localhost", "Example.COM", "4.com", "x.4", "fe80.example.com", "abc", "1.2.3", "1.2.3.4.5", "mañana.es"}

// v6 says if the address is one of IPv6.
func (c *Conn) v6() bool { return c.Typ == "IP6" }

func genConn(t *rapid.T) *Conn {
	c := &Conn{Net: "IN", IP: ipString(t), Typ: "IP4"}
	v6 := strings.Contains(c.IP, ":")
	if v6 {
		c.Typ = "IP6"
	}
	if rapid.IntRange(0, 5).Draw(t, "host name") == 5 {
		c.IP = rapid.SampledFrom(hostNames).Draw(t, "host")
	}
	b := []int{1, 2, 9, 10, 99, 100, 127, 199, 200, 254, 255}
	switch rapid.IntRange(0, 3).Draw(t, "conn form") {
	case 1:
		if !v6 {
			c.TTL = rapid.SampledFrom(b).Draw(t, "ttl")
		}
	case 2:
		if !v6 {
			c.TTL = rapid.SampledFrom(append([]int{0}, b...)).Draw(t, "ttl")
		}
		c.Num = rapid.SampledFrom(b).Draw(t, "addresses")
	case 3:
		if v6 {
			c.Num = rapid.IntRange(0, 255).Draw(t, "addresses")
		} else {
			c.TTL = rapid.IntRange(0, 255).Draw(t, "ttl")
			c.Num = rapid.IntRange(0, 255).Draw(t, "addresses")
		}
	}
	return c
}

// types of bandwidths beyond RFC 4566, and what could be one
var bwTypes = []string{"TIAS", "RR", "RS", "X-YZ", "x", "as", "!#$%&'*+-.^_`{|}~09"}

func genBW(t *rapid.T) []BW {
	var r []BW
	for _, k := range []string{"AS", "CT", bwTypes[rapid.IntRange(0, len(bwTypes)-1).Draw(t, "bandwidth type")]} {
		if rapid.IntRange(0, 2).Draw(t, "bandwidth") == 0 {
			r = append(r, BW{k, smallInt(t, "bandwidth")})
		}
	}
	return r
}

func genEnc(t *rapid.T) *KV {
	switch rapid.IntRange(0, 5).Draw(t, "enc") {
	case 0:
		return &KV{rapid.SampledFrom([]string{"prompt", "clear", "x"}).Draw(t, "method"), ""}
	case 1:
		return &KV{rapid.SampledFrom([]string{"clear", "base64", "uri"}).Draw(t, "method"), text(t, "key", 10)}
	}
	return nil
}

var attrKeys = []string{"rtpmap", "fmtp", "control", "recvonly", "sendrecv", "tool", "x", "range", "Framerate", "a=b", "ключ"}

func genAttrs(t *rapid.T) []KV {
	n := count(t, "attributes", 0, 6)
	var r []KV
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(attrKeys).Draw(t, "attribute")
		v := ""
		if rapid.IntRange(0, 3).Draw(t, "flag") != 0 {
			v = rapid.SampledFrom([]string{"", ":", " "}).Draw(t, "prefix") + text(t, "value", 16)
		}
		r = append(r, KV{k, v})
	}
	return r
}

func genTiming(t *rapid.T) Timing {
	x := Timing{Start: ntp(t, "start"), End: ntp(t, "end")}
	if rapid.IntRange(0, 2).Draw(t, "repeat") == 0 {
		x.HasR = true
		x.Rep = secs(t, "interval", false)
		x.Active = secs(t, "active", false)
		n := count(t, "offsets", 1, 4)
		for i := 0; i < n; i++ {
			x.Offs = append(x.Offs, secs(t, "offset", false))
		}
	}
	return x
}

func genMsg(t *rapid.T) *Msg {
	m := &Msg{
		Version: rapid.SampledFrom([]int{0, 0, 0, 1, 7, 10, 123}).Draw(t, "version"),
		Origin: Origin{User: token(t, "user"), ID: smallInt(t, "sess-id"), Ver: smallInt(t, "sess-version"),
			Net: "IN", Typ: rapid.SampledFrom([]string{"IP4", "IP6"}).Draw(t, "addrtype"), Addr: token(t, "address")},
		Name: text(t, "name", 12), Info: optText(t, "info"), URI: optText(t, "uri"),
		Email: optText(t, "email"), Phone: optText(t, "phone"),
		BW: genBW(t), Enc: genEnc(t), Attrs: genAttrs(t),
	}
	if rapid.IntRange(0, 11).Draw(t, "no name") == 11 {
		m.Name = " "
	}
	if rapid.IntRange(0, 23).Draw(t, "blank info") == 23 {
		m.Info = " "
	}
	if rapid.Bool().Draw(t, "has conn") {
		m.Conn = genConn(t)
	}
	for n := count(t, "timings", 0, 3); n > 0; n-- {
		m.Timing = append(m.Timing, genTiming(t))
	}
	if len(m.Timing) > 0 && rapid.IntRange(0, 2).Draw(t, "tz") == 0 {
		for n := count(t, "zones", 1, 3); n > 0; n-- {
			m.TZ = append(m.TZ, TZ{ntp(t, "adjustment"), secs(t, "offset", true)})
		}
	}
	for n := count(t, "medias", 0, 3); n > 0; n-- {
		m.Medias = append(m.Medias, genMedia(t))
	}
	return m
}

func genMedia(t *rapid.T) Media {
	md := Media{
		Type:  rapid.SampledFrom([]string{"audio", "video", "text", "application", "x"}).Draw(t, "media"),
		Port:  rapid.SampledFrom([]int{0, 1, 9, 5004, 49170, 65535}).Draw(t, "port"),
		Proto: rapid.SampledFrom([]string{"RTP/AVP", "udp", "RTP/SAVP"}).Draw(t, "proto"),
		Title: optText(t, "title"), BW: genBW(t), Enc: genEnc(t), Attrs: genAttrs(t),
	}
	if rapid.IntRange(0, 23).Draw(t, "blank title") == 23 {
		md.Title = " "
	}
	if rapid.IntRange(0, 3).Draw(t, "ports") == 0 {
		md.Ports = rapid.SampledFrom([]int{1, 2, 10, 100}).Draw(t, "ports number")
	}
	var fs []string
	for n := count(t, "formats", 1, 3); n > 0; n-- {
		fs = append(fs, rapid.SampledFrom([]string{"0", "8", "96", "97", "127", "wb"}).Draw(t, "format"))
	}
	md.Format = strings.Join(fs, " ")
	if rapid.IntRange(0, 2).Draw(t, "has conn") == 0 {
		md.Conn = genConn(t)
	}
	return md
}

// nontrivial: more than the mandatory lines, in at least three sections of the format.
func (m *Msg) features() []string {
	var f []string
	add := func(c bool, s string) {
		if c {
			f = append(f, s)
		}
	}
	add(m.Conn != nil, "conn")
	add(len(m.BW) > 0, "bandwidth")
	add(len(m.Timing) > 0, "timing")
	add(len(m.Timing) > 1, "several timings")
	rep := false
	for _, x := range m.Timing {
		rep = rep || x.HasR
	}
	add(rep, "repeat")
	add(len(m.TZ) > 0, "zones")
	add(m.Enc != nil, "encryption")
	add(len(m.Attrs) > 0, "attributes")
	add(len(m.Medias) > 0, "media")
	add(len(m.Medias) > 1, "several medias")
	for _, x := range m.Medias {
		if x.Conn != nil {
			f = append(f, "media conn")
			break
		}
	}
	return f
}

// ---- to the API types ----

func ntpTime(v uint64) time.Time {
	if v == 0 {
		return time.Time{}
	}
	return time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(0)).Add(0).AddDate(0, 0, int(v/86400)).Add(time.Duration(v%86400) * time.Second)
}

func ntpOf(t time.Time) uint64 {
	if t.IsZero() {
		return 0
	}
	return uint64(t.Unix() + 2208988800)
}

func (c *Conn) api() sdp.ConnectionData {
	if c == nil {
		return sdp.ConnectionData{}
	}
	r := sdp.ConnectionData{NetworkType: c.Net, AddressType: c.Typ, IP: net.ParseIP(c.IP), TTL: byte(c.TTL), Addresses: byte(c.Num)}
	if r.IP == nil {
		r.Host = c.IP
	}
	return r
}

func apiBW(l []BW) map[sdp.BandwidthType]int {
	if len(l) == 0 {
		return nil
	}
	m := map[sdp.BandwidthType]int{}
	for _, b := range l {
		m[sdp.BandwidthType(b.T)] = b.N
	}
	return m
}

func apiEnc(e *KV) sdp.Encryption {
	if e == nil {
		return sdp.Encryption{}
	}
	return sdp.Encryption{Method: raw(e.K), Key: raw(e.V)}
}

func (m *Msg) api() *sdp.Message {
	o := m.Origin
	a := &sdp.Message{
		Version: m.Version, Name: raw(m.Name), Info: raw(m.Info), Email: raw(m.Email), Phone: raw(m.Phone), URI: raw(m.URI),
		Origin:     sdp.Origin{Username: o.User, SessionID: o.ID, SessionVersion: o.Ver, NetworkType: o.Net, AddressType: o.Typ, Address: o.Addr},
		Connection: m.Conn.api(), Encryption: apiEnc(m.Enc), Bandwidths: apiBW(m.BW),
	}
	for _, x := range m.Timing {
		t := sdp.Timing{Start: ntpTime(x.Start), End: ntpTime(x.End)}
		if x.HasR {
			t.Repeat, t.Active = time.Duration(x.Rep)*time.Second, time.Duration(x.Active)*time.Second
			for _, f := range x.Offs {
				t.Offsets = append(t.Offsets, time.Duration(f)*time.Second)
			}
		}
		a.Timing = append(a.Timing, t)
	}
	for _, z := range m.TZ {
		a.TZAdjustments = append(a.TZAdjustments, sdp.TimeZone{Start: ntpTime(z.At), Offset: time.Duration(z.Off) * time.Second})
	}
	for _, kv := range m.Attrs {
		if kv.V == "" {
			a.AddFlag(kv.K)
		} else {
			a.AddAttribute(kv.K, raw(kv.V))
		}
	}
	for _, x := range m.Medias {
		md := sdp.Media{Title: raw(x.Title), Connection: x.Conn.api(), Encryption: apiEnc(x.Enc), Bandwidths: apiBW(x.BW),
			Description: sdp.MediaDescription{Type: x.Type, Port: x.Port, PortsNumber: x.Ports, Protocol: x.Proto, Format: x.Format}}
		for _, kv := range x.Attrs {
			if kv.V == "" {
				md.AddFlag(kv.K)
			} else {
				md.AddAttribute(kv.K, strings.Split(raw(kv.V), " ")...)
			}
		}
		a.Medias = append(a.Medias, md)
	}
	return a
}

// ---- canonical dump of a decoded message, for comparison ----

func q(s string) string { return strconv.Quote(s) }

func dumpConn(c sdp.ConnectionData) string {
	ip := "none"
	if c.IP != nil {
		ip = c.IP.String()
	}
	if c.Host != "" {
		ip += fmt.Sprintf(" host=%q", c.Host)
	}
	return fmt.Sprintf("net=%q type=%q ip=%s ttl=%d num=%d", c.NetworkType, c.AddressType, ip, c.TTL, c.Addresses)
}

func dumpAttrs(a sdp.Attributes) string {
	var ks []string
	for k, v := range a {
		if len(v) > 0 {
			ks = append(ks, fmt.Sprintf("%q=%q", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func dumpBW(b map[sdp.BandwidthType]int) string {
	var ks []string
	for k, v := range b {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func dumpTime(t time.Time) string {
	if t.IsZero() {
		return "0"
	}
	return strconv.FormatInt(t.Unix(), 10)
}

func dump(m *sdp.Message) []string {
	o := m.Origin
	r := []string{
		fmt.Sprintf("version %d", m.Version),
		fmt.Sprintf("origin %q %d %d %q %q %q", o.Username, o.SessionID, o.SessionVersion, o.NetworkType, o.AddressType, o.Address),
		"name " + q(m.Name), "info " + q(m.Info), "uri " + q(m.URI), "email " + q(m.Email), "phone " + q(m.Phone),
		"connection " + dumpConn(m.Connection), "bandwidth " + dumpBW(m.Bandwidths),
		fmt.Sprintf("encryption %q %q", m.Encryption.Method, m.Encryption.Key), "attributes " + dumpAttrs(m.Attributes),
	}
	for _, t := range m.Timing {
		r = append(r, fmt.Sprintf("timing %s %s repeat %v active %v offsets %v", dumpTime(t.Start), dumpTime(t.End), t.Repeat, t.Active, t.Offsets))
	}
	for _, z := range m.TZAdjustments {
		r = append(r, fmt.Sprintf("zone %s %v", dumpTime(z.Start), z.Offset))
	}
	for _, d := range m.Medias {
		r = append(r, fmt.Sprintf("media %+v title %q connection %s bandwidth %s encryption %q %q attributes %s", d.Description, d.Title,
			dumpConn(d.Connection), dumpBW(d.Bandwidths), d.Encryption.Method, d.Encryption.Key, dumpAttrs(d.Attributes)))
	}
	return r
}

func diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("got  %s\nwant %s", g, w)
		}
	}
	return ""
}

// ---- reference text ----

// Line of the reference text; unordered runs (attributes, bandwidths) carry a group.
type line struct {
	text string
}

func intervalText(s int64, style int) string {
	if s == 0 {
		return []string{"0", "0s", "0m", "0h", "0d"}[style%5]
	}
	switch {
	case style%4 == 1 && s%60 == 0:
		return strconv.FormatInt(s/60, 10) + "m"
	case style%4 == 2 && s%3600 == 0:
		return strconv.FormatInt(s/3600, 10) + "h"
	case style%4 == 3 && s%86400 == 0:
		return strconv.FormatInt(s/86400, 10) + "d"
	case style%2 == 1:
		return strconv.FormatInt(s, 10) + "s"
	}
	return strconv.FormatInt(s, 10)
}

// compact is the notation of the encoder: the largest unit that divides.
func compact(s int64) string {
	switch {
	case s == 0:
		return "0"
	case s%86400 == 0:
		return strconv.FormatInt(s/86400, 10) + "d"
	case s%3600 == 0:
		return strconv.FormatInt(s/3600, 10) + "h"
	case s%60 == 0:
		return strconv.FormatInt(s/60, 10) + "m"
	}
	return strconv.FormatInt(s, 10)
}

func connText(c *Conn) string {
	s := "c=" + c.Net + " " + c.Typ + " " + c.IP
	if net.ParseIP(c.IP) != nil {
		s = strings.ToUpper(s)
		s = "c" + s[1:]
	}
	if c.TTL > 0 || (c.Num > 0 && !c.v6()) {
		s += "/" + strconv.Itoa(c.TTL)
	}
	if c.Num > 0 {
		s += "/" + strconv.Itoa(c.Num)
	}
	return s
}

func encText(e *KV) string {
	if e.V == "" {
		return "k=" + e.K
	}
	return "k=" + e.K + ":" + e.V
}

func attrText(a KV) string {
	if a.V == "" {
		return "a=" + a.K
	}
	return "a=" + a.K + ":" + a.V
}

// text gives the lines of the RFC 4566 text. iv writes an interval.
func (m *Msg) text(iv func(int64) string) []string {
	var l []string
	add := func(s string) { l = append(l, raw(s)) }
	o := m.Origin
	add("v=" + strconv.Itoa(m.Version))
	add(fmt.Sprintf("o=%s %d %d %s %s %s", o.User, o.ID, o.Ver, o.Net, o.Typ, o.Addr))
	add("s=" + m.Name)
	if m.Info != "" {
		add("i=" + m.Info)
	}
	if m.URI != "" {
		add("u=" + m.URI)
	}
	if m.Email != "" {
		add("e=" + m.Email)
	}
	if m.Phone != "" {
		add("p=" + m.Phone)
	}
	if m.Conn != nil {
		add(connText(m.Conn))
	}
	for _, b := range m.BW {
		add(fmt.Sprintf("b=%s:%d", b.T, b.N))
	}
	for _, t := range m.Timing {
		add(fmt.Sprintf("t=%d %d", t.Start, t.End))
		if t.HasR {
			s := "r=" + iv(t.Rep) + " " + iv(t.Active)
			for _, f := range t.Offs {
				s += " " + iv(f)
			}
			add(s)
		}
	}
	if len(m.TZ) > 0 {
		s := "z="
		for i, z := range m.TZ {
			if i > 0 {
				s += " "
			}
			s += strconv.FormatUint(z.At, 10) + " " + iv(z.Off)
		}
		add(s)
	}
	if m.Enc != nil {
		add(encText(m.Enc))
	}
	for _, a := range m.Attrs {
		add(attrText(a))
	}
	for _, d := range m.Medias {
		s := "m=" + d.Type + " " + strconv.Itoa(d.Port)
		if d.Ports != 0 {
			s += "/" + strconv.Itoa(d.Ports)
		}
		add(s + " " + d.Proto + " " + d.Format)
		if d.Title != "" {
			add("i=" + d.Title)
		}
		if d.Conn != nil {
			add(connText(d.Conn))
		}
		for _, b := range d.BW {
			add(fmt.Sprintf("b=%s:%d", b.T, b.N))
		}
		if d.Enc != nil {
			add(encText(d.Enc))
		}
		for _, a := range d.Attrs {
			add(attrText(a))
		}
	}
	return l
}

// normal brings the runs of a= and b= lines into one order that keeps the
// order of the values of each attribute: a message stores attributes by name.
func normal(lines []string) []string {
	r := append([]string(nil), lines...)
	key := func(s string) string {
		if strings.HasPrefix(s, "a=") || strings.HasPrefix(s, "b=") {
			if i := strings.Index(s, ":"); i >= 0 {
				return s[:i]
			}
			return s
		}
		return ""
	}
	for i := 0; i < len(r); {
		j := i
		for j < len(r) && r[j][:1] == r[i][:1] && key(r[j]) != "" {
			j++
		}
		if j == i {
			i++
			continue
		}
		run := r[i:j]
		sort.SliceStable(run, func(a, b int) bool { return key(run[a]) < key(run[b]) })
		i = j
	}
	return r
}

func decode(b []byte) (*sdp.Message, error) {
	s, err := sdp.DecodeSession(b, nil)
	if err != nil {
		return nil, err
	}
	m := &sdp.Message{}
	d := sdp.NewDecoder(s)
	if err := d.Decode(m); err != nil {
		return nil, err
	}
	return m, nil
}
