// Package netcheck checks the framing and the life of tcpnetwork connections.
package netcheck

import (
	"bytes"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// proto is a stream protocol of the test: the header tells everything.
//
//	[0] mode: 'L' length, 'D' delimiter; [1:4] length or number of the delimiter;
//	[4:7] content length; the rest is padding
type proto struct {
	hl    int
	mu    sync.Mutex
	inits int
	send  []byte // header of sent messages: prefix, and their length
}

var delims = []string{"\n", "\r\n", "\r\n\r\n", "END", "aab", "\x00"}

func (p *proto) Init()                { p.mu.Lock(); p.inits++; p.mu.Unlock() }
func (p *proto) GetHeaderLength() int { return p.hl }
func (p *proto) UnserializeHeader(h []byte) (int, []byte) {
	n := int(h[1])<<16 | int(h[2])<<8 | int(h[3])
	if h[0] == 'P' {
		panic("planned: a header nobody expects")
	}
	if h[0] == 'D' {
		return 0, []byte(delims[n%len(delims)])
	}
	if n == 0 {
		return 0, []byte{}
	}
	return n, nil
}
func (p *proto) SerializeHeader(b []byte) []byte {
	if p.send == nil {
		return nil
	}
	return append(append([]byte{}, p.send...), byte(len(b)>>16), byte(len(b)>>8), byte(len(b)))
}
func (p *proto) GetContentLength(b []byte) int {
	if b[0] == 'Q' {
		panic("planned: a packet nobody expects")
	}
	return int(b[4])<<16 | int(b[5])<<8 | int(b[6])
}

// Packet describes one packet.
type Packet struct {
	Delim   int // -1: length
	Body    []byte
	Len     int // body length when Body is nil (a pattern)
	Content int
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func (p Packet) bytes(hl, seed int) []byte {
	h := make([]byte, hl)
	copy(h[7:], pattern(hl-7, seed))
	h[0] = 'L'
	body := p.Body
	if body == nil {
		body = pattern(p.Len, seed)
	}
	n := len(body)
	if p.Delim >= 0 {
		h[0] = 'D'
		n = p.Delim
		d := []byte(delims[p.Delim])
		body = append(append([]byte{}, body...), d...)
		body = body[:bytes.Index(body, d)+len(d)]
	}
	h[1], h[2], h[3] = byte(n>>16), byte(n>>8), byte(n)
	h[4], h[5], h[6] = byte(p.Content>>16), byte(p.Content>>8), byte(p.Content)
	return append(append(h, body...), pattern(p.Content, seed+7)...)
}

func genPacket(t *rapid.T) Packet {
	p := Packet{Delim: -1}
	if rapid.Bool().Draw(t, "delimiter") {
		p.Delim = rapid.IntRange(0, len(delims)-1).Draw(t, "delim")
		p.Body = append([]byte{}, []byte(rapid.StringOfN(rapid.SampledFrom([]rune("abE\r\nND\x00x")), 0, 30, -1).Draw(t, "body"))...)
	} else {
		switch rapid.IntRange(0, 9).Draw(t, "size") {
		case 0, 1:
			p.Len = 0
		case 2:
			p.Len = rapid.SampledFrom([]int{255, 256, 1460, 4095, 4096, 32767, 32768, 65534, 65535}).Draw(t, "len")
		default:
			p.Len = rapid.IntRange(1, 300).Draw(t, "len")
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "content") == 0 {
		p.Content = rapid.IntRange(0, 200).Draw(t, "content length")
		if rapid.IntRange(0, 5).Draw(t, "big content") == 0 {
			room := 65535 - p.Len - len(p.Body) - 8
			if room > 0 {
				p.Content = room
			}
		}
	}
	if p.Delim < 0 && p.Len+p.Content > 65535 {
		p.Content = 65535 - p.Len
	}
	return p
}

func genSizes(t *rapid.T) []int {
	switch rapid.IntRange(0, 4).Draw(t, "segments") {
	case 0:
		return nil // all at once
	case 1:
		return []int{1}
	case 2:
		return []int{rapid.SampledFrom([]int{2, 3, 5, 7, 8, 9, 1460, 65535, 65536}).Draw(t, "segment")}
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 7, 8, 9, 10, 50, 100, 1460, 4096, 0}), 1, 8).Draw(t, "sizes")
}

// ---- recording of events ----

type rec struct {
	mu       sync.Mutex
	events   []int
	datas    [][]byte
	copies   [][]byte
	conns    []*tcpnetwork.Connection
	discAt   time.Time
	status   []int
	onData   func(b []byte)
	scribble bool // overwrite the data (to the end of its capacity)
}

func (e *rec) handle(ev *tcpnetwork.ConnEvent) {
	e.mu.Lock()
	e.events = append(e.events, ev.EventType)
	e.conns = append(e.conns, ev.Conn)
	e.status = append(e.status, ev.Conn.GetStatus())
	if ev.EventType == tcpnetwork.ConnEventData {
		e.datas = append(e.datas, ev.Data)
		e.copies = append(e.copies, append([]byte{}, ev.Data...))
		if e.scribble {
			for i, b := 0, ev.Data[:cap(ev.Data)]; i < len(b); i++ {
				b[i] ^= 0xa5
			}
		}
	}
	if ev.EventType == tcpnetwork.ConnEventDisconnected {
		e.discAt = time.Now()
	}
	f := e.onData
	e.mu.Unlock()
	if f != nil && ev.EventType == tcpnetwork.ConnEventData {
		f(ev.Data)
	}
}

func (e *rec) count(k int) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, x := range e.events {
		if x == k {
			n++
		}
	}
	return n
}

// lifecycle: connected first, data, disconnected last, each but data once.
func (e *rec) lifecycle(r *kit.R, conn *tcpnetwork.Connection, over bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i, x := range e.events {
		ok := false
		switch {
		case i == 0:
			ok = x == tcpnetwork.ConnEventConnected
		case over && i == len(e.events)-1:
			ok = x == tcpnetwork.ConnEventDisconnected
		default:
			ok = x == tcpnetwork.ConnEventData
		}
		if !ok || e.conns[i] != conn {
			r.Fatalf("events %v: number %d is wrong (want connected, data..., disconnected of this connection)", e.events, i)
		}
	}
	if len(e.events) == 0 || (over && len(e.events) < 2) {
		r.Fatalf("events %v: want connected and disconnected", e.events)
	}
}

func (e *rec) intact(r *kit.R) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i := range e.datas {
		if !bytes.Equal(e.datas[i], e.copies[i]) {
			r.Fatalf("the data of packet %d was overwritten after its delivery", i)
		}
		// the application may do what it wants with it
		for b, k := e.datas[i][:cap(e.datas[i])], 0; k < len(b); k++ {
			b[k] ^= 0xa5
		}
	}
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// ---- N01 framing ----

type N01 struct {
	HL    int
	Pkts  []Packet
	Sizes []int
	Cut   int // bytes of one more packet behind them, cut off by the end
	Over  int // then a packet too long: 0 none, 1 body, 2 content, 3 no delimiter in sight
	Reset bool
	Step  bool // feed the segments one by one
	Times int  // the packets come so many times more
	Own   bool // the handler overwrites what it got
	Empty int  // each such read has no bytes
}

func runN01(r *kit.R, ci any) {
	c := ci.(*N01)
	var stream []byte
	var want [][]byte
	all := c.Pkts
	for n := 0; n < c.Times; n++ {
		all = append(all[:len(all):len(all)], c.Pkts...)
	}
	r.LabelIf(len(all) > 100, "more than a hundred packets")
	for i, p := range all {
		b := p.bytes(c.HL, i)
		stream = append(stream, b...)
		want = append(want, b)
		r.LabelIf(p.Delim >= 0, "delimiter")
		r.LabelIf(p.Delim < 0 && p.Len == 0, "empty body")
		r.LabelIf(p.Len >= 65534, "largest body")
		r.LabelIf(p.Content > 0, "content")
	}
	extra := []byte(nil)
	switch c.Over {
	case 1:
		h := make([]byte, c.HL)
		h[0], h[1], h[2], h[3] = 'L', 1, 0, byte(c.Cut)
		extra = append(h, pattern(70000, 3)...)
	case 2:
		p := Packet{Delim: -1, Len: 10}
		extra = p.bytes(c.HL, 99)
		extra[4], extra[5], extra[6] = 1, byte(c.Cut), 2
		extra = append(extra, pattern(70000, 3)...)
	case 3:
		h := make([]byte, c.HL)
		h[0], h[3] = 'D', 3
		extra = append(h, bytes.Repeat([]byte{'a'}, 70000)...)
	default:
		p := Packet{Delim: -1, Len: 40}
		b := p.bytes(c.HL, 77)
		extra = b[:min(c.Cut, len(b)-1)]
	}
	r.LabelIf(c.Over > 0, "too long")
	stream = append(stream, extra...)
	if len(want) > 1 {
		r.NonTrivial()
	}

	nc := kit.NewConn()
	nc.Hollow(c.Empty)
	r.LabelIf(c.Empty > 0, "empty reads")
	e := &rec{scribble: c.Own}
	conn := tcpnetwork.NewConnection(nc, 16, e.handle)
	conn.SetStreamProtocol(&proto{hl: c.HL})
	segs := kit.Split(stream, c.Sizes)
	if len(c.Sizes) == 1 && c.Sizes[0] < 8 && len(stream) > 20000 {
		segs = kit.Split(stream, []int{c.Sizes[0], 1400})
	}
	if c.Step {
		conn.Run()
		for _, s := range segs {
			nc.Feed(s)
			synctest.Wait()
		}
	} else {
		nc.Feed(segs...)
		conn.Run()
	}
	synctest.Wait()
	if c.Over == 0 && e.count(tcpnetwork.ConnEventDisconnected) != 0 {
		r.Fatalf("disconnected although the stream is correct and goes on; %d of %d packets were delivered", len(e.datas), len(want))
	}
	if c.Over > 0 && e.count(tcpnetwork.ConnEventDisconnected) != 1 {
		r.Fatalf("a packet that is too long does not end the connection")
	}
	if !c.Reset || c.Over > 0 {
		nc.End(false)
	} else {
		nc.End(true)
	}
	synctest.Wait()
	e.lifecycle(r, conn, true)
	if !c.Own {
		e.intact(r)
	}
	e.datas = e.copies
	for i := 0; i < len(want) || i < len(e.datas); i++ {
		switch {
		case i >= len(want):
			r.Fatalf("packet %d was delivered but never sent: %s", i, short(e.datas[i]))
		case i >= len(e.datas):
			r.Fatalf("packet %d was not delivered: %s", i, short(want[i]))
		case !bytes.Equal(want[i], e.datas[i]):
			r.Fatalf("packet %d: got %s want %s", i, short(e.datas[i]), short(want[i]))
		}
	}
}

// ---- N02 life of a connection ----

type N02 struct {
	Pkts  int
	How   int // how it ends
	Nil   int // 1: no protocol, 2: no event handler
	Again int // calls after the end
	Delay int // ms before the end
	Sends int
}

var endings = []string{"end of stream", "reset", "Close", "Close twice", "write fails", "too long", "peer does not read, Close", "Close from the handler", "Close right after Run",
	"end while the peer does not read", "panic in the handler", "panic in the protocol", "panic in the protocol behind the header"}

func runN02(r *kit.R, ci any) {
	c := ci.(*N02)
	nc := kit.NewConn()
	e := &rec{}
	h := e.handle
	var conn *tcpnetwork.Connection
	if c.Nil == 2 {
		h = nil
	}
	conn = tcpnetwork.NewConnection(nc, 64, h)
	p := &proto{hl: 7}
	if conn.GetStatus() != tcpnetwork.ConnStatusNone {
		r.Fatalf("status of a new connection: %d", conn.GetStatus())
	}
	conn.Close() // no effect before Run
	conn.Send([]byte("x"), false)
	how := endings[c.How%len(endings)]
	if c.Nil == 1 {
		conn.Run()
		synctest.Wait()
		if e.count(tcpnetwork.ConnEventDisconnected) != 1 || len(e.events) != 1 {
			r.Fatalf("no protocol: events %v", e.events)
		}
		if ok, _ := nc.Closed(); !ok || conn.GetStatus() != tcpnetwork.ConnStatusDisconnected {
			r.Fatalf("no protocol: connection is left open")
		}
		r.Label("no protocol")
		return
	}
	conn.SetStreamProtocol(p)
	if how == "Close from the handler" {
		e.onData = func([]byte) { conn.Close() }
		if c.Nil == 2 || c.Pkts == 0 {
			how = "Close"
		}
	}
	if how == "panic in the handler" && c.Nil == 2 {
		how = "panic in the protocol"
	}
	if c.Nil == 2 {
		r.Label("no handler")
	}
	r.Label(how)
	if c.Pkts > 0 {
		r.NonTrivial()
	}
	conn.Run()
	if s := conn.GetStatus(); s != tcpnetwork.ConnStatusConnected {
		r.Fatalf("status after Run: %d", s)
	}
	if how != "Close right after Run" {
		for i := 0; i < c.Pkts; i++ {
			pk := Packet{Delim: -1, Len: 20 + i}
			nc.Feed(pk.bytes(7, i))
		}
		synctest.Wait()
		if how != "Close from the handler" {
			for i := 0; i < c.Sends; i++ {
				conn.Send([]byte(fmt.Sprintf("message %d", i)), true)
			}
			synctest.Wait()
			if s := conn.GetStatus(); s != tcpnetwork.ConnStatusConnected || e.count(tcpnetwork.ConnEventDisconnected) != 0 {
				r.Fatalf("disconnected for no reason (status %d)", s)
			}
			time.Sleep(time.Duration(c.Delay) * time.Millisecond)
			if ok, _ := nc.Closed(); ok || conn.GetStatus() != tcpnetwork.ConnStatusConnected {
				r.Fatalf("the idle connection was closed after %d ms", c.Delay)
			}
		}
	}
	t0 := time.Now()
	bound := time.Duration(0)
	switch how {
	case "end of stream":
		nc.End(false)
	case "reset":
		nc.End(true)
	case "Close", "Close right after Run":
		conn.Close()
	case "Close twice":
		conn.Close()
		conn.Close()
	case "write fails":
		nc.FailWritesAt(len(nc.Out()) + 3)
		conn.Send([]byte("this cannot be written"), false)
	case "too long":
		nc.Feed([]byte{'L', 9, 0, 0, 0, 0, 0, 1, 2, 3})
	case "peer does not read, Close":
		nc.BlockWrites(true)
		conn.Send([]byte("never read"), false)
		conn.Close()
		bound = 5 * time.Second
	case "panic in the handler":
		e.mu.Lock()
		e.onData = func([]byte) { panic("planned: in the handler") }
		e.mu.Unlock()
		nc.Feed(Packet{Delim: -1, Len: 3}.bytes(7, 0))
		synctest.Wait()
		e.mu.Lock()
		if k := len(e.datas); k > 0 {
			e.datas = e.datas[:k-1]
		}
		e.mu.Unlock()
	case "panic in the protocol":
		nc.Feed([]byte{'P', 0, 0, 1, 0, 0, 0, 'x'})
	case "panic in the protocol behind the header":
		nc.Feed([]byte{'Q', 0, 0, 1, 0, 0, 0, 'x'})
	case "end while the peer does not read":
		nc.BlockWrites(true)
		conn.Send([]byte("never read"), false)
		conn.Send([]byte("never read 2"), false)
		nc.End(false)
	}
	time.Sleep(bound)
	synctest.Wait()
	if ok, _ := nc.Closed(); !ok {
		r.Fatalf("%s: the connection is not closed %v later", how, time.Since(t0))
	}
	if s := conn.GetStatus(); s != tcpnetwork.ConnStatusDisconnected {
		r.Fatalf("%s: status %d", how, s)
	}
	if c.Nil != 2 {
		e.lifecycle(r, conn, true)
		if how != "Close right after Run" && how != "Close from the handler" && len(e.datas) != c.Pkts {
			r.Fatalf("%s: %d of %d packets", how, len(e.datas), c.Pkts)
		}
		for i, s := range e.status {
			if e.events[i] == tcpnetwork.ConnEventDisconnected && s != tcpnetwork.ConnStatusDisconnected {
				r.Fatalf("status during the disconnected event: %d", s)
			}
		}
	}
	n := len(e.events)
	out := len(nc.Out())
	// the connection is over: nothing has an effect, nothing blocks
	t1 := time.Now()
	for i := 0; i < c.Again; i++ {
		switch i % 3 {
		case 0:
			conn.Send([]byte("late"), i%2 == 0)
		case 1:
			conn.Close()
		case 2:
			nc.Feed([]byte{'L', 0, 0, 1, 0, 0, 0, 'x'})
		}
	}
	if d := time.Since(t1); d > 0 {
		r.Fatalf("calls after the end took %v", d)
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	if len(e.events) != n || len(nc.Out()) != out || conn.GetStatus() != tcpnetwork.ConnStatusDisconnected {
		r.Fatalf("something happened after the end: events %v", e.events)
	}
	if p.inits != 1 {
		r.Fatalf("the protocol was initialised %d times", p.inits)
	}
}

// ---- N03 sending ----

type Msg3 struct {
	Len   int
	Copy  bool
	Pause bool // let everything settle first
	Block int  // 1: the peer stops reading before, 2: goes on before
}

type N03 struct {
	Hdr   []byte // nil: no header
	Msgs  []Msg3
	Fail  int // writes fail behind this many bytes; -1 never
	Close bool
	After int // ms behind Close the peer goes on reading; 0: it never stopped, -1: never
	Queue int
	Times int // the messages come so many times more
}

func runN03(r *kit.R, ci any) {
	c := ci.(*N03)
	nc := kit.NewConn()
	e := &rec{}
	conn := tcpnetwork.NewConnection(nc, c.Queue, e.handle)
	p := &proto{hl: 7, send: c.Hdr}
	conn.SetStreamProtocol(p)
	if c.Fail >= 0 {
		nc.FailWritesAt(c.Fail)
		r.Label("write fails")
	}
	conn.Run()
	var want []byte
	var ends []int // message boundaries in want
	blocked := false
	all := c.Msgs
	for n := 0; n < c.Times; n++ {
		all = append(all[:len(all):len(all)], c.Msgs...)
	}
	r.LabelIf(len(all) > 100, "more than a hundred messages")
	for i, m := range all {
		if m.Pause {
			synctest.Wait()
		}
		switch m.Block {
		case 1:
			nc.BlockWrites(true)
			blocked = true
			r.Label("blocked writes")
		case 2:
			nc.BlockWrites(false)
			blocked = false
		}
		if blocked && i%8 == 7 {
			nc.BlockWrites(false)
			blocked = false
		}
		b := pattern(m.Len, i)
		want = append(want, p.SerializeHeader(b)...)
		want = append(want, b...)
		ends = append(ends, len(want))
		if m.Len == 0 && i%2 == 0 {
			b = nil
		}
		conn.Send(b, m.Copy)
		if m.Copy {
			r.Label("copy")
			for k := range b {
				b[k] = '#' // ours again
			}
		}
	}
	if len(c.Msgs) > 2 {
		r.NonTrivial()
	}
	stop := c.Close && c.After != 0
	nc.BlockWrites(stop)
	t0 := time.Now()
	if c.Close {
		r.Label("close")
		conn.Close() // what is in the queue is sent first
		conn.Send([]byte("after Close"), false)
	}
	if stop && c.After > 0 {
		r.Label("goes on reading after Close")
		time.Sleep(t0.Add(time.Duration(c.After) * time.Millisecond).Sub(time.Now()))
		nc.BlockWrites(false)
	}
	synctest.Wait()
	if stop && c.After < 0 && len(want) > 0 && c.Fail < 0 {
		r.Label("never reads again")
		time.Sleep(10*time.Second + time.Millisecond)
		synctest.Wait()
		if !bytes.HasPrefix(want, nc.Out()) {
			r.Fatalf("the peer got %s, which was not sent", short(nc.Out()))
		}
		if ok, _ := nc.Closed(); !ok {
			r.Fatalf("Close with a peer that does not read: still open after 10 s")
		}
		synctest.Wait()
		e.lifecycle(r, conn, true)
		return
	}
	nc.BlockWrites(false)
	synctest.Wait()
	out := nc.Out()
	failed := c.Fail >= 0 && c.Fail < len(want)
	if failed {
		if !bytes.Equal(out, want[:c.Fail]) {
			r.Fatalf("written before the failure: got %s want %s", short(out), short(want[:c.Fail]))
		}
		if ok, _ := nc.Closed(); !ok || e.count(tcpnetwork.ConnEventDisconnected) != 1 {
			r.Fatalf("a failed write does not end the connection")
		}
		return
	}
	if !bytes.Equal(out, want) {
		i := 0
		for i < len(out) && i < len(want) && out[i] == want[i] {
			i++
		}
		k := 0
		for k < len(ends) && ends[k] <= i {
			k++
		}
		r.Fatalf("the peer got %d bytes instead of %d, the first difference is at %d (message %d of %d)", len(out), len(want), i, k, len(ends))
	}
	if ok, _ := nc.Closed(); ok != c.Close {
		r.Fatalf("closed: %v", ok)
	}
	if !c.Close {
		nc.End(false)
	}
	synctest.Wait()
	e.lifecycle(r, conn, true)
}

// ---- N04 time ----

// Step4 is one arrival: bytes of the stream of packets, wherever that cuts them.
type Step4 struct {
	Gap   int // ms of silence before
	Bytes int // bytes that come now (one after the other read, at once in time)
}

// Set4 is a read timeout that the handler sets when it gets its packet No. At
// (0: when it is told that the connection is up).
type Set4 struct{ At, Sec int }

type N04 struct {
	Sec     int // read timeout
	Packets []Packet
	Steps   []Step4
	Sets    []Set4
	Last    int // late by, with Late
	Late    bool
	Peer    bool // instead: the peer does not read, the queue runs full
	Queue   int
	Close   bool // on the full queue
}

// marks are the ends of the parts (header, body, content) of the packets, and
// of the packets.
func (c *N04) marks() (stream []byte, parts, ends []int) {
	for i, p := range c.Packets {
		b := p.bytes(7, i)
		at := len(stream)
		parts = append(parts, at+7)
		if n := len(b) - p.Content; n > 7 {
			parts = append(parts, at+n)
		}
		stream = append(stream, b...)
		if p.Content > 0 {
			parts = append(parts, len(stream))
		}
		ends = append(ends, len(stream))
	}
	return
}

func runN04(r *kit.R, ci any) {
	c := ci.(*N04)
	nc := kit.NewConn()
	e := &rec{}
	if c.Peer {
		// Send on a full queue waits at most 5 s, then the connection is closed
		conn := tcpnetwork.NewConnection(nc, c.Queue, e.handle)
		conn.SetStreamProtocol(&proto{hl: 7})
		conn.Run()
		synctest.Wait()
		nc.BlockWrites(true)
		for i := 0; i <= c.Queue; i++ {
			conn.Send([]byte("fill"), true)
			synctest.Wait()
		}
		r.Label("queue full")
		r.NonTrivial()
		t0 := time.Now()
		if c.Late {
			// the peer goes on reading in time
			go func() { time.Sleep(time.Duration(c.Last) * 100 * time.Millisecond); nc.BlockWrites(false) }()
			if c.Close {
				r.Label("close with a full queue")
				conn.Close()
				time.Sleep(5 * time.Second)
				synctest.Wait()
				if g, w := string(nc.Out()), bytes.Repeat([]byte("fill"), c.Queue+1); g != string(w) {
					r.Fatalf("Close on a full queue, the peer goes on reading after %d00 ms: it got %q", c.Last, g)
				}
				if ok, _ := nc.Closed(); !ok {
					r.Fatalf("Close on a full queue does not close")
				}
				e.lifecycle(r, conn, true)
				return
			}
			conn.Send([]byte("fits"), true)
			if d := time.Since(t0); d != time.Duration(c.Last)*100*time.Millisecond {
				r.Fatalf("Send on a full queue returned after %v, there was room after %d00 ms", d, c.Last)
			}
			synctest.Wait()
			if g, w := string(nc.Out()), bytes.Repeat([]byte("fill"), c.Queue+1); g != string(w)+"fits" {
				r.Fatalf("the peer got %q", g)
			}
			if conn.GetStatus() != tcpnetwork.ConnStatusConnected {
				r.Fatalf("closed although the peer reads again")
			}
			nc.End(false)
			synctest.Wait()
			e.lifecycle(r, conn, true)
			return
		}
		conn.Send([]byte("too much"), true)
		if d := time.Since(t0); d != 5*time.Second {
			r.Fatalf("Send on a full queue returned after %v", d)
		}
		synctest.Wait()
		if ok, _ := nc.Closed(); !ok || e.count(tcpnetwork.ConnEventDisconnected) != 1 {
			r.Fatalf("a peer that does not read for 5 s is not disconnected")
		}
		return
	}
	after := func(n int) (sec int) {
		sec = c.Sec
		for k := 0; k <= n; k++ {
			for _, s := range c.Sets {
				if s.At == k {
					sec = s.Sec
				}
			}
		}
		return
	}
	got := 0
	conn := tcpnetwork.NewConnection(nc, 16, func(ev *tcpnetwork.ConnEvent) {
		e.handle(ev)
		if ev.EventType == tcpnetwork.ConnEventData {
			got++
		}
		if len(c.Sets) > 0 && after(got) != ev.Conn.GetReadTimeoutSec() {
			ev.Conn.SetReadTimeoutSec(after(got))
		}
	})
	conn.SetStreamProtocol(&proto{hl: 7})
	conn.SetReadTimeoutSec(c.Sec)
	if conn.GetReadTimeoutSec() != c.Sec {
		r.Fatalf("GetReadTimeoutSec: %d", conn.GetReadTimeoutSec())
	}
	conn.Run()
	synctest.Wait()
	if len(c.Steps) > 1 {
		r.NonTrivial()
	}
	limit := time.Duration(after(0)) * time.Second
	stream, parts, ends := c.marks()
	passed := func(marks []int, n int) (k int) {
		for k < len(marks) && marks[k] <= n {
			k++
		}
		return
	}
	start := time.Now() // of the time for the part that comes now
	last := start       // a byte came last
	sent := 0
	for _, s := range c.Steps {
		gap := time.Duration(s.Gap) * time.Millisecond
		if limit > 0 {
			// each part is complete within the limit of the part before
			if room := limit - time.Millisecond - time.Since(start); room <= 0 {
				gap = 0
			} else {
				gap = min(gap, room)
			}
		}
		time.Sleep(gap)
		n := min(s.Bytes, len(stream)-sent)
		if n <= 0 {
			break
		}
		nc.Feed(stream[sent : sent+n])
		last = time.Now()
		if passed(parts, sent+n) > passed(parts, sent) {
			start = last
		}
		r.LabelIf(passed(parts, sent+n) > passed(parts, sent)+1 && passed(parts, sent+n-1) == passed(parts, sent+n), "part of a packet together with earlier ones")
		sent += n
		synctest.Wait()
		if w := passed(ends, sent); len(e.datas) != w {
			r.Fatalf("%d packets of %d delivered", len(e.datas), w)
		}
		if e.count(tcpnetwork.ConnEventDisconnected) != 0 {
			r.Fatalf("disconnected although the peer is in time (timeout %v)", limit)
		}
		if l := time.Duration(after(passed(ends, sent))) * time.Second; l != limit {
			r.Label("timeout set by the handler")
			limit = l
		}
	}
	for i, p := range c.Packets[:passed(ends, sent)] {
		if !bytes.Equal(e.datas[i], p.bytes(7, i)) {
			r.Fatalf("packet %d is delivered as %q", i, e.datas[i])
		}
	}
	r.LabelIf(passed(ends, sent) == 0 || ends[passed(ends, sent)-1] != sent, "silence within a packet")
	r.LabelIf(passed(parts, sent) > 0 && parts[passed(parts, sent)-1] == sent && (passed(ends, sent) == 0 || ends[passed(ends, sent)-1] != sent), "silence between the parts of a packet")
	if limit == 0 {
		r.Label("no timeout")
		time.Sleep(time.Hour)
		synctest.Wait()
		if e.count(tcpnetwork.ConnEventDisconnected) != 0 {
			r.Fatalf("disconnected without a timeout")
		}
		nc.End(false)
	} else {
		time.Sleep(time.Until(start.Add(limit)) - time.Nanosecond)
		synctest.Wait()
		if e.count(tcpnetwork.ConnEventDisconnected) != 0 {
			r.Fatalf("disconnected before the timeout of %v", limit)
		}
		// at the latest when nothing came for the whole time
		time.Sleep(time.Until(last.Add(limit)))
		synctest.Wait()
		if e.count(tcpnetwork.ConnEventDisconnected) != 1 {
			r.Fatalf("nothing came for %v (timeout %v) and the connection is not disconnected: %d of %d bytes came", time.Since(last), limit, sent, len(stream))
		}
	}
	synctest.Wait()
	e.lifecycle(r, conn, true)
}

// ---- N05 concurrent use ----

type N05 struct {
	Senders int
	Each    int
	Closers int
	At      []int // ms at which the closers close
	Peer    int   // 0 nothing, 1 EOF, 2 reset, 3 write fails, 4 does not read, 5 does not read for a while
	PeerAt  int   // ms
	Gap     int   // ms between the messages of a sender
	Queue   int
	Pkts    int
}

func runN05(r *kit.R, ci any) {
	c := ci.(*N05)
	nc := kit.NewConn()
	e := &rec{}
	conn := tcpnetwork.NewConnection(nc, c.Queue, e.handle)
	p := &proto{hl: 7, send: []byte("H")}
	conn.SetStreamProtocol(p)
	conn.Run()
	if c.Senders > 1 && (c.Closers > 0 || c.Peer > 0) {
		r.NonTrivial()
	}
	r.Label(fmt.Sprintf("peer %d", c.Peer))
	r.LabelIf(c.Closers > 0, "closers")
	start := time.Now()
	var wg sync.WaitGroup
	msg := func(s, i int) []byte {
		return []byte(fmt.Sprintf("<%d,%d,%s>", s, i, bytes.Repeat([]byte{'x'}, (s+i)%5)))
	}
	for s := 0; s < c.Senders; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.Each; i++ {
				if c.Gap > 0 {
					time.Sleep(time.Duration(c.Gap) * time.Millisecond)
				}
				conn.Send(msg(s, i), i%2 == 0)
				conn.GetStatus()
			}
		}()
	}
	for k := 0; k < c.Closers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(c.At[k%len(c.At)]) * time.Millisecond)
			conn.Close()
			if conn.GetStatus() == tcpnetwork.ConnStatusNone {
				r.Failf("status none after Run")
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < c.Pkts; i++ {
			pk := Packet{Delim: -1, Len: 5}
			nc.Feed(pk.bytes(7, i))
			time.Sleep(time.Millisecond)
		}
	}()
	time.Sleep(time.Duration(c.PeerAt) * time.Millisecond)
	switch c.Peer {
	case 1:
		nc.End(false)
	case 2:
		nc.End(true)
	case 3:
		nc.FailWritesAt(len(nc.Out()) + c.PeerAt)
	case 4:
		nc.BlockWrites(true)
	case 5:
		nc.BlockWrites(true)
		time.Sleep(3 * time.Second)
		nc.BlockWrites(false)
	}
	wg.Wait()
	took := time.Since(start)
	// each call waits 5 s at most
	if limit := time.Duration(c.Each+2)*5*time.Second + time.Duration(c.Each*c.Gap+1000)*time.Millisecond + 3*time.Second; took > limit {
		r.Fatalf("the callers were blocked for %v", took)
	}
	if c.Closers == 0 && (c.Peer == 0 || c.Peer == 5) {
		// every message is there, whole, in the order of its sender
		synctest.Wait()
		if e.count(tcpnetwork.ConnEventDisconnected) != 0 {
			r.Fatalf("disconnected for no reason")
		}
	}
	conn.Close()
	time.Sleep(6 * time.Second)
	synctest.Wait()
	if ok, _ := nc.Closed(); !ok || conn.GetStatus() != tcpnetwork.ConnStatusDisconnected {
		r.Fatalf("still open 6 s after Close")
	}
	e.lifecycle(r, conn, true)
	// what was written: whole messages, each at most once, in the order of each sender
	out := nc.Out()
	next := make([]int, c.Senders)
	for len(out) > 0 {
		if len(out) < 4 {
			break // cut off by the end
		}
		n := int(out[1])<<16 | int(out[2])<<8 | int(out[3])
		if out[0] != 'H' || n > 60 {
			r.Fatalf("messages are mixed up: %s", short(out))
		}
		if len(out) < 4+n {
			break
		}
		m := out[4 : 4+n]
		out = out[4+n:]
		var s, i int
		if k, _ := fmt.Sscanf(string(m), "<%d,%d,", &s, &i); k != 2 || s < 0 || s >= c.Senders || !bytes.Equal(m, msg(s, i)) {
			r.Fatalf("messages are mixed up: %q", m)
		}
		if i != next[s] {
			r.Fatalf("sender %d: message %d comes where %d is due", s, i, next[s])
		}
		next[s]++
	}
	if c.Closers == 0 && (c.Peer == 0 || c.Peer == 5) {
		for s, n := range next {
			if n != c.Each {
				r.Fatalf("%d of %d messages of sender %d were written", n, c.Each, s)
			}
		}
	}
}

// Props are the checks of this package.
var Props = []*kit.Prop{
	{ID: "N01", Rule: "random packet sequences (lengths 0-65535, delimiters, content behind), cut into reads at random, with a cut-off or oversized packet behind; non-trivial: at least two packets",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &N01{HL: rapid.IntRange(7, 12).Draw(t, "header"), Pkts: rapid.SliceOfN(rapid.Custom(genPacket), 0, 8).Draw(t, "packets"),
				Sizes: genSizes(t), Cut: rapid.IntRange(0, 40).Draw(t, "cut"), Over: max(0, rapid.IntRange(-5, 3).Draw(t, "too long")),
				Reset: rapid.IntRange(0, 3).Draw(t, "reset") == 0, Step: rapid.IntRange(0, 3).Draw(t, "step") == 0}
			if size := 0; rapid.IntRange(0, 11).Draw(t, "many") == 7 {
				for _, p := range c.Pkts {
					size += p.Len + len(p.Body) + p.Content + 16
				}
				c.Times = min(rapid.SampledFrom([]int{3, 10, 40, 300}).Draw(t, "times"), 200000/max(1, size))
				if c.Times > 10 && len(c.Sizes) == 1 && c.Sizes[0] < 8 {
					c.Sizes = nil
				}
			}
			c.Own = rapid.IntRange(0, 2).Draw(t, "own") == 0
			if rapid.IntRange(0, 3).Draw(t, "empty reads") == 0 {
				c.Empty = rapid.IntRange(2, 5).Draw(t, "empty")
			}
			return c
		},
		New: func() any { return &N01{} }, Run: runN01, Fuzz: true, Quick: 27000, Deep: 250000},
	{ID: "N02", Rule: "connections that end in each way (also by a panic of the handler or the protocol) at random points; non-trivial: with packets before the end",
		Bubble: true, Leak: true,
		Gen: func(t *rapid.T) any {
			return &N02{Pkts: rapid.IntRange(0, 5).Draw(t, "packets"), How: rapid.IntRange(0, len(endings)-1).Draw(t, "how"), Nil: max(0, rapid.IntRange(-8, 2).Draw(t, "nil")),
				Again: rapid.IntRange(0, 6).Draw(t, "again"), Delay: rapid.SampledFrom([]int{0, 1, 1000, 60000, 3600000, 100000000}).Draw(t, "delay"), Sends: rapid.IntRange(0, 3).Draw(t, "sends")}
		},
		New: func() any { return &N02{} }, Run: runN02, Fuzz: true, Quick: 27000, Deep: 250000},
	{ID: "N03", Rule: "random message sequences (0-200000 bytes, copied or not, peer pausing), with write failures and Close; non-trivial: at least three messages",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &N03{Fail: -1, Close: rapid.Bool().Draw(t, "close"), After: max(-1, rapid.IntRange(-2000, 4900).Draw(t, "reads after")) * rapid.IntRange(0, 1).Draw(t, "slow"), Queue: rapid.SampledFrom([]int{64, 4095}).Draw(t, "queue")}
			if rapid.Bool().Draw(t, "header") {
				c.Hdr = []byte(rapid.SampledFrom([]string{"", "H", "HDR:"}).Draw(t, "hdr"))
			}
			if rapid.IntRange(0, 3).Draw(t, "fail") == 0 {
				c.Fail = rapid.IntRange(0, 400).Draw(t, "fail at")
			}
			for n := rapid.IntRange(0, 20).Draw(t, "messages"); n > 0; n-- {
				m := Msg3{Len: rapid.IntRange(0, 100).Draw(t, "len"), Copy: rapid.Bool().Draw(t, "copy"), Pause: rapid.IntRange(0, 2).Draw(t, "pause") == 0,
					Block: max(0, rapid.IntRange(-4, 2).Draw(t, "block"))}
				if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
					m.Len = rapid.SampledFrom([]int{4096, 65534, 65535, 65536, 70000, 200000}).Draw(t, "len")
				}
				c.Msgs = append(c.Msgs, m)
			}
			if size := 0; rapid.IntRange(0, 11).Draw(t, "many") == 7 {
				for _, m := range c.Msgs {
					size += m.Len + 8
				}
				c.Times, c.Queue = min(rapid.SampledFrom([]int{3, 10, 40, 100}).Draw(t, "times"), 400000/max(1, size)), 4095
				if c.Fail >= 0 {
					c.Fail *= rapid.SampledFrom([]int{1, 10, 100}).Draw(t, "later")
				}
			}
			return c
		},
		New: func() any { return &N03{} }, Run: runN03, Fuzz: true, Quick: 27000, Deep: 250000},
	{ID: "N04", Rule: "a stream of packets with length, delimiter and content whose bytes arrive in random groups, anywhere within and across packets, each part within the read timeout; then silence; full send queues; non-trivial: at least two arrivals, or a full queue",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &N04{Sec: rapid.SampledFrom([]int{0, 1, 2, 5, 30}).Draw(t, "timeout"),
				Peer: rapid.IntRange(0, 4).Draw(t, "peer") == 0, Queue: rapid.IntRange(1, 8).Draw(t, "queue"), Late: rapid.Bool().Draw(t, "late")}
			if c.Peer {
				c.Last = rapid.IntRange(1, 49).Draw(t, "late by")
				c.Close = rapid.Bool().Draw(t, "close")
				return c
			}
			for n := rapid.IntRange(0, 6).Draw(t, "packets"); n > 0; n-- {
				p := Packet{Delim: rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 3}).Draw(t, "delim"), Content: max(0, rapid.IntRange(-20, 20).Draw(t, "content"))}
				p.Len = rapid.IntRange(0, 40).Draw(t, "len")
				c.Packets = append(c.Packets, p)
			}
			for n := rapid.IntRange(-4, 3).Draw(t, "sets"); n > 0; n-- {
				c.Sets = append(c.Sets, Set4{At: rapid.IntRange(0, len(c.Packets)).Draw(t, "at"), Sec: rapid.SampledFrom([]int{0, 0, 1, 2, 5, 30}).Draw(t, "sec")})
			}
			_, parts, _ := c.marks()
			sent, full := 0, 0
			if len(parts) > 0 {
				full = parts[len(parts)-1]
			}
			for n := rapid.IntRange(0, 16).Draw(t, "steps"); n > 0 && sent < full; n-- {
				s := Step4{Gap: rapid.IntRange(0, 35000).Draw(t, "gap")}
				if rapid.Bool().Draw(t, "to a part") {
					// up to the end of a part, or around it
					i := 0
					for parts[i] <= sent {
						i++
					}
					i = min(len(parts)-1, i+rapid.IntRange(0, 3).Draw(t, "parts"))
					s.Bytes = max(1, parts[i]-sent+rapid.IntRange(-1, 3).Draw(t, "more"))
				} else {
					s.Bytes = rapid.IntRange(1, 60).Draw(t, "bytes")
				}
				sent += s.Bytes
				c.Steps = append(c.Steps, s)
			}
			return c
		},
		New: func() any { return &N04{} }, Run: runN04, Fuzz: true, Quick: 36000, Deep: 300000},
	{ID: "N05", Rule: "concurrent senders, closers and peer faults at random fake times, under the race detector with 1-8 processors; non-trivial: two senders and an end",
		Bubble: true, Leak: true,
		Gen: func(t *rapid.T) any {
			return &N05{Senders: rapid.IntRange(1, 5).Draw(t, "senders"), Each: rapid.IntRange(1, 8).Draw(t, "each"), Closers: max(0, rapid.IntRange(-2, 3).Draw(t, "closers")),
				At: rapid.SliceOfN(rapid.IntRange(0, 8), 1, 3).Draw(t, "at"), Peer: rapid.IntRange(0, 5).Draw(t, "peer"), PeerAt: rapid.IntRange(0, 8).Draw(t, "peer at"),
				Gap: rapid.IntRange(0, 2).Draw(t, "gap"), Queue: rapid.SampledFrom([]int{1, 2, 8, 4095}).Draw(t, "queue"), Pkts: rapid.IntRange(0, 4).Draw(t, "packets")}
		},
		New: func() any { return &N05{} }, Run: runN05, Quick: 6000, Deep: 150000},
}
