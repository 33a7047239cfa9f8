package sdpcheck

import (
	"strings"
	"testing"

	"github.com/jart/gosip/sdp"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// The target of the coverage-guided search, which the thorough tier runs.

func FuzzC14SDP(f *testing.F) {
	for i := 0; i < 300; i++ {
		f.Add(rapid.Custom(func(t *rapid.T) string {
			return gen.SDP(gen.SDPOptions{}).Draw(t, "sdp").String()
		}).Example(i))
	}
	f.Fuzz(func(t *testing.T, s string) {
		same(t, &hx.Case{}, s)
		got, err := sdp.Parse(s)
		if err != nil {
			return
		}
		for _, a := range got.Attrs {
			if a[1] == "" && strings.Contains(s, "a="+a[0]+":") {
				return // The colon is lost, which may make it another attribute.
			}
		}
		text := got.String()
		again, err := sdp.Parse(text)
		if err != nil {
			t.Fatalf("%q is accepted, but not when formatted as %q: %v", s, text, err)
		}
		if second := again.String(); second != text {
			t.Fatalf("formatting is not stable\ninput: %q\nfirst:  %q\nsecond: %q", s, text, second)
		}
	})
}
