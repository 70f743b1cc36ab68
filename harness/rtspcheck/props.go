package rtspcheck

import (
	"fmt"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

func genR10(t *rapid.T) any {
	c := &R10{P: genPlan(t), From: rapid.IntRange(0, 8).Draw(t, "from"), Each: rapid.IntRange(0, 2).Draw(t, "each"), End: rapid.IntRange(0, 2).Draw(t, "end")}
	c.P.Lat = nil
	if rapid.IntRange(0, 3).Draw(t, "auth") == 0 {
		c.P.U.User, c.P.U.Pass, c.P.U.HasPass = "u", "p", true
		c.P.Auth = genAuth(t)
		if !contains2(c.P.Auth.Kinds) {
			c.P.Auth.Kinds = []string{"Digest"}
		}
	}
	c.P.Sizes = genSizes(t)
	for n := rapid.IntRange(1, 12).Draw(t, "bites"); n > 0; n-- {
		b := Bite{K: rapid.IntRange(0, 7).Draw(t, "kind"), N: rapid.IntRange(0, 1000).Draw(t, "n"), M: rapid.IntRange(0, 100).Draw(t, "m"), Wait: max(0, rapid.IntRange(-50, 500).Draw(t, "wait"))}
		if b.K != 1 && b.K != 5 && b.K != 7 {
			b.Raw = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "raw")
		}
		c.Bites = append(c.Bites, b)
	}
	return c
}

func contains2(k []string) bool {
	for _, x := range k {
		if x == "Digest" || x == "Basic" {
			return true
		}
	}
	return false
}

func genAuthPlan(t *rapid.T) Plan {
	p := genPlan(t)
	p.U.User, p.U.Pass, p.U.HasPass = genCred(t, "user"), genCred(t, "password"), true
	p.Auth = genAuth(t)
	return p
}

// half of the plans come with authentication
func genAnyPlan(t *rapid.T) Plan {
	if rapid.IntRange(0, 3).Draw(t, "auth") == 0 {
		return genAuthPlan(t)
	}
	return genPlan(t)
}

// Props are the checks of this package.
var Props = []*kit.Prop{
	{ID: "R01", Rule: "random servers (1-4 medias, absolute and relative control URLs, latencies, with and without authentication) with a fault of one of 11 kinds at a random request or none; non-trivial: more than one media",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			return &R01{P: genAnyPlan(t), F: genFault(t, 9)}
		},
		New: func() any { return &R01{} }, Run: runR01, Fuzz: true, Quick: 9000, Deep: 200000},
	{ID: "R02", Rule: "random servers and URLs, a random sequence of control requests behind the handshake, then Close; non-trivial: more than one control request",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &R02{P: genAnyPlan(t), Ctls: rapid.SliceOfN(rapid.Custom(genCtl), 0, 6).Draw(t, "requests")}
			if rapid.IntRange(0, 299).Draw(t, "many medias") == 177 { // rare: every one costs the client 8 MB
				for n := rapid.SampledFrom([]int{17, 40, 66, 100}).Draw(t, "many"); len(c.P.Medias) < n; {
					c.P.Medias = append(c.P.Medias, Media{Kind: "audio", PT: 0, Control: fmt.Sprint("m", len(c.P.Medias))})
				}
			}
			return c
		},
		New: func() any { return &R02{} }, Run: runR02, Fuzz: true, Quick: 9000, Deep: 200000},
	{ID: "R03", Rule: "random challenges (digest, basic, both, others; quoting, order, spacing, further parameters, odd realms and nonces) and credentials (also percent-encoded, missing, rejected); non-trivial: with credentials",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			return &R03{P: genAuthPlan(t), Creds: max(0, rapid.IntRange(-6, 3).Draw(t, "creds")), Reject: rapid.IntRange(0, 6).Draw(t, "reject") == 0, Ctls: rapid.SliceOfN(rapid.Custom(genCtl), 0, 4).Draw(t, "requests")}
		},
		New: func() any { return &R03{} }, Run: runR03, Fuzz: true, Quick: 9000, Deep: 200000},
	{ID: "R04", Rule: "handshakes with responses in random styles (case, order, spacing, further headers, reasons, parameters), bodies, segmentations, frames in between and data right behind; non-trivial: with frames",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &R04{P: genAnyPlan(t), Styles: rapid.SliceOfN(rapid.Custom(genStyle), 1, 4).Draw(t, "styles"), Tail: rapid.IntRange(0, 11).Draw(t, "tail"),
				Body: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 2, 20, 20, 500, 500, 4000, 9000, 60000}), 0, 4).Draw(t, "bodies"), Frames: rapid.IntRange(0, 6).Draw(t, "frames"), Direct: rapid.IntRange(100, 999).Draw(t, "status")}
			if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
				c.Tail += 12
			}
			for n := rapid.IntRange(0, 4).Draw(t, "noise"); n > 0; n-- {
				c.Noise = append(c.Noise, Noise{Before: rapid.Bool().Draw(t, "before"), Len: rapid.SampledFrom([]int{0, 1, 4, 12, 26, 300, 65535}).Draw(t, "len"), Kind: rapid.IntRange(0, 3).Draw(t, "kind")})
			}
			c.P.Sizes = genSizes(t)
			return c
		},
		New: func() any { return &R04{} }, Run: runR04, Fuzz: true, Quick: 8000, Deep: 150000},
	{ID: "R05", Rule: "random requests (of the handshake or after it) answered late, in pieces, with malformed responses or never, with other data coming in, or with a peer that does not read; fake clock; non-trivial: not the first request",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			return &R05{P: genAnyPlan(t), At: rapid.IntRange(0, 8).Draw(t, "at"), Late: rapid.SampledFrom([]int{-1, -1, 0, 500, 1500, 1999, 2001, 2500, 10000}).Draw(t, "late"), Part: max(0, rapid.IntRange(-60, 60).Draw(t, "part")),
				Noise: max(0, rapid.IntRange(-900, 900).Draw(t, "noise")), Block: rapid.IntRange(0, 5).Draw(t, "block") == 0, Ctl: genCtl(t),
				Bad: max(0, rapid.IntRange(-12, 3).Draw(t, "malformed"))}
		},
		New: func() any { return &R05{} }, Run: runR05, Fuzz: true, Quick: 9000, Deep: 200000},
	{ID: "R06", Rule: "random handshakes, successful or not, data, then one of 12 kinds of ends with different answers to TEARDOWN, then more calls; non-trivial: with data or calls behind the end",
		Bubble: true, Leak: true,
		Gen: func(t *rapid.T) any {
			c := &R06{P: genAnyPlan(t), How: rapid.IntRange(0, len(ends)-1).Draw(t, "how"), Data: rapid.IntRange(0, 5).Draw(t, "data"), Fail: max(-1, rapid.IntRange(-12, 6).Draw(t, "fail")),
				Delay: rapid.SampledFrom([]int{0, 1, 1999, 60000, 3600000, 100000000}).Draw(t, "delay"), Again: rapid.IntRange(0, 7).Draw(t, "again"), Answer: rapid.IntRange(0, 3).Draw(t, "answer")}
			return c
		},
		New: func() any { return &R06{} }, Run: runR06, Fuzz: true, Quick: 9000, Deep: 200000},
	{ID: "R07", Rule: "random histories of requests, waits, responses (asked for or not) and data on a session that is playing; non-trivial: with a response nobody asked for, a request while one is pending, or a slow handler of the end",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &R07{P: genAnyPlan(t), End: rapid.IntRange(0, 2).Draw(t, "end")}
			for n := rapid.IntRange(0, 14).Draw(t, "steps"); n > 0; n-- {
				c.Steps = append(c.Steps, Step7{K: rapid.SampledFrom([]int{0, 1, 3, 4, 6, 7, 7, 8, 8, 9, 10, 11}).Draw(t, "step"), C: genCtl(t), Status: rapid.IntRange(100, 999).Draw(t, "status"), N: rapid.IntRange(0, 1999).Draw(t, "n")})
			}
			return c
		},
		New: func() any { return &R07{} }, Run: runR07, Fuzz: true, Quick: 9000, Deep: 200000},
	{ID: "R08", Rule: "two to four different streams played one after the other with one session, with faults and different ends, compared with new sessions; non-trivial: at least two",
		Bubble: true,
		Gen: func(t *rapid.T) any {
			c := &R08{}
			for n := rapid.IntRange(1, 4).Draw(t, "rounds"); n > 0; n-- {
				x := Round{P: genAnyPlan(t), F: genFault(t, 9), Data: rapid.IntRange(0, 14).Draw(t, "data"), How: rapid.IntRange(0, 2).Draw(t, "how"), Part: rapid.Bool().Draw(t, "part")}
				if rapid.IntRange(0, 1).Draw(t, "fine") == 0 {
					x.F.At = 99
				}
				x.Open = max(0, rapid.IntRange(-10, 10).Draw(t, "open request"))
				if k := len(c.Rounds); k > 0 {
					// the same server, user or stream again
					y := c.Rounds[k-1]
					if rapid.IntRange(0, 2).Draw(t, "same url") == 0 {
						x.P.U = y.P.U
					}
					if rapid.IntRange(0, 2).Draw(t, "same challenge") == 0 {
						x.P.Auth = y.P.Auth
					}
					if rapid.IntRange(0, 2).Draw(t, "same medias") == 0 {
						x.P.Medias = y.P.Medias
					}
					if rapid.IntRange(0, 2).Draw(t, "same session") == 0 {
						x.P.ID = y.P.ID
					}
				}
				c.Rounds = append(c.Rounds, x)
			}
			return c
		},
		New: func() any { return &R08{} }, Run: runR08, Fuzz: true, Quick: 4000, Deep: 80000},
	{ID: "R10", Rule: "servers that send nasty, damaged or random responses, descriptions and RTP packets from a random request on; non-trivial: at least two such pieces",
		Bubble: true,
		Gen:    genR10, New: func() any { return &R10{} }, Run: runR10, Fuzz: true, Quick: 20000, Deep: 600000},
}
