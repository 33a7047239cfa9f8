package sipcheck

import (
	"testing"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// The targets of the coverage-guided search, which the thorough tier runs.
// They have the oracles of the generated cases.

func FuzzC03Msg(f *testing.F) {
	for i := 0; i < 300; i++ {
		w := rapid.Custom(func(t *rapid.T) []byte {
			w := gen.Wire{T: t}
			return w.Msg(gen.Msg(gen.MsgOptions{Small: i%2 == 0, MinVias: 1}).Draw(t, "msg"))
		}).Example(i)
		f.Add(w)
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if !total(t, "message", b, parseMsgAny) {
			return
		}
		m, _ := sip.ParseMsg(append([]byte{}, b...))
		first := m.String()
		if !complete(m) {
			return
		}
		if d, ok := m.Payload.(*sdp.SDP); ok {
			if _, err := sdp.Parse(d.String()); err != nil {
				t.Fatalf("accepted, but not when formatted: %v: %q\n%q", err, b, first)
			}
			m.Payload = nil
		}
		stable(t, &hx.Case{}, b, m)
	})
}

func FuzzC08URI(f *testing.F) {
	for i := 0; i < 300; i++ {
		f.Add(rapid.Custom(func(t *rapid.T) []byte {
			w := gen.Wire{T: t}
			return []byte(w.URI(gen.URI().Draw(t, "uri")))
		}).Example(i))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		total(t, "URI", b, parseURIAny)
		sameURI(t, &hx.Case{}, string(b))
		if u, err := sip.ParseURI(b); err == nil {
			again, err := sip.ParseURI([]byte(u.String()))
			if err != nil {
				t.Fatalf("%q is accepted, but not when formatted as %q: %v", b, u, err)
			}
			if d := gen.Diff(u, again); d != "" {
				t.Fatalf("%q formatted as %q:\n%s", b, u, d)
			}
		}
	})
}
