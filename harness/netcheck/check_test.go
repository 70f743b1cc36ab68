package netcheck

import (
	"testing"

	"verif/harness/kit"
)

func TestCheck(t *testing.T) { kit.Main(t, Props) }

func FuzzCheck(f *testing.F) { kit.Fuzz(f, Props) }
