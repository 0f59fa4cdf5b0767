package props

import (
	"os"
	"testing"

	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_LIST") != "" {
		hx.List()
		os.Exit(0)
	}
	if id := os.Getenv("VERIF_KNOWN"); id != "" {
		hx.RunKnown(id)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestSub(t *testing.T) { hx.Run(t) }
