// Package conccheck decides C40: what is independent may be used at the same
// time. It is built with the race detector.
package conccheck

import (
	"os"
	"testing"

	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func TestMain(m *testing.M) {
	// All of a message has to fit into a datagram.
	gen.LongText, gen.LongList = 300, 12
	hx.Main(m)
}

// repeat is how often the schedule of a case is left to chance.
func repeat() int {
	if os.Getenv("HX_REPLAY") == "1" {
		return 50
	}
	return 1
}

// watch fails the case if the race detector finds something new in f.
func watch(t *rapid.T, f func()) {
	if !detecting {
		hx.Inconclusive("built without the race detector")
	}
	before := races()
	f()
	if n := races() - before; n > 0 {
		t.Fatalf("the race detector reports %d data races", n)
	}
}
