package sipcheck

import (
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

func uriParts(u *sip.URI) int {
	n := 0
	for _, b := range []bool{u.User != "", u.Pass != "", u.Port != 0, u.Param != nil, u.Header != nil} {
		if b {
			n++
		}
	}
	return n
}

func TestC07RoundTrip(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 600000, Thorough: 10000000},
		"URIs with any bytes in user, password, parameters and headers, formatted and parsed; non-trivial: at least 3 of the optional parts",
		func(t *rapid.T, c *hx.Case) {
			u := gen.URI().Draw(t, "uri")
			s := u.String()
			if uriParts(u) >= 3 {
				c.NonTrivial(s)
				c.Samplef("%q", s)
			}
			if !gen.Is(s, gen.URIC) {
				t.Fatalf("not URI characters: %q", s)
			}
			got, err := sip.ParseURI([]byte(s))
			if err != nil {
				t.Fatalf("%q: %v", s, err)
			}
			if d := gen.Diff(u, got); d != "" {
				t.Fatalf("changed:\n%s\ntext: %q", d, s)
			}
			if r, ok := ref.URI(s); !ok {
				t.Fatalf("formatted as %q, which is not a URI", s)
			} else if d := gen.Diff(u, r); d != "" {
				t.Fatalf("formatted as %q, which means something else:\n%s", s, d)
			}
			if err := ref.PlainURI(s); err != nil {
				t.Fatalf("formatted as %q: %v", s, err)
			}
		})
}

func TestC07Spellings(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 320000, Thorough: 6000000},
		"URIs spelled with random percent escapes and letter case; all spellings parse to the URI; non-trivial: at least 3 unusual choices",
		func(t *rapid.T, c *hx.Case) {
			u := gen.URI().Draw(t, "uri")
			w := gen.Wire{T: t}
			s := w.URI(u)
			n := 0
			for _, v := range w.Used {
				n += v
			}
			if n >= 3 {
				c.NonTrivial(s)
				c.Samplef("%q", s)
			}
			got, err := sip.ParseURI([]byte(s))
			if err != nil {
				t.Fatalf("%q: %v", s, err)
			}
			if d := gen.Diff(u, got); d != "" {
				t.Fatalf("%q means something else:\n%s", s, d)
			}
		})
}

// A URI of each byte in each part.
func TestC07Bytes(t *testing.T) {
	hx.Exhaustive(t, "each of the 256 bytes, alone and between letters, as user, password, parameter and header name and value", func(count func(string)) {
		for c := 0; c < 256; c++ {
			for _, s := range []string{string([]byte{byte(c)}), string([]byte{'a', byte(c), 'b'})} {
				for i, u := range []*sip.URI{
					{Scheme: "sip", User: s, Host: "h"},
					{Scheme: "sip", User: "u", Pass: s, Host: "h"},
					{Scheme: "sip", Host: "h", Param: &sip.URIParam{Name: s}},
					{Scheme: "sip", Host: "h", Param: &sip.URIParam{Name: "n", Value: s}},
					{Scheme: "sip", Host: "h", Header: &sip.URIHeader{Name: s, Value: "x", Next: &sip.URIHeader{Name: "y"}}},
					{Scheme: "sip", Host: "h", Header: &sip.URIHeader{Name: "n", Value: s, Next: &sip.URIHeader{Name: s, Value: s}}},
				} {
					count(itoa(i) + s)
					text := u.String()
					got, err := sip.ParseURI([]byte(text))
					if err != nil {
						hx.Failf(t, "%q: %v", text, err)
					}
					if d := gen.Diff(u, got); d != "" {
						hx.Failf(t, "%q:\n%s", text, d)
					}
					if !gen.Is(text, gen.URIC) {
						hx.Failf(t, "not URI characters: %q", text)
					}
				}
			}
		}
	})
}
