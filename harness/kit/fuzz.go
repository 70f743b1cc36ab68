package kit

import (
	"encoding/json"
	"io"
	"log"
	"math/rand"
	"os"
	"testing"

	"pgregory.net/rapid"
)

// Fuzz is the entry point of coverage-guided fuzzing (thorough tier): the fuzzer
// of the go command changes the bytes the generator draws from, or, for a property
// with Bytes, the input itself. What it finds is made a case again (MODE=case)
// and judged as all others.
func Fuzz(f *testing.F, props []*Prop) {
	for _, p := range props {
		if p.ID == env("PROP") && (p.Fuzz || p.Bytes != nil) {
			p.fuzz(f)
			return
		}
	}
	f.Skip("run through check.py")
}

func (p *Prop) fuzz(f *testing.F) {
	log.SetOutput(io.Discard)
	rnd := rand.New(rand.NewSource(1))
	if p.Bytes != nil {
		for _, b := range p.Seeds {
			f.Add([]byte(b))
		}
	} else {
		for i := 0; i < 64; i++ {
			b := make([]byte, 64<<(i%8))
			rnd.Read(b)
			f.Add(b)
		}
	}
	one := func(t *testing.T, c any, fatal func(string)) {
		raw, err := json.Marshal(c)
		if err != nil {
			return
		}
		if env("MODE") == "case" {
			os.WriteFile(env("OUT"), raw, 0o644)
			return
		}
		if res := runCase(t, p, raw); res.Fail != "" {
			fatal(res.Fail)
		}
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if p.Bytes != nil {
			one(t, p.Bytes(b), func(s string) { t.Fatal(s) })
			return
		}
		rapid.MakeFuzz(func(rt *rapid.T) {
			one(t, p.Gen(rt), func(s string) { rt.Fatalf("%s", s) })
		})(t, b)
	})
}
