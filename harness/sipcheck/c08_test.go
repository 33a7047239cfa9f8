package sipcheck

import (
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

func sameURI(t hx.Failer, c *hx.Case, s string) {
	want, ok := ref.URI(s)
	got, err := sip.ParseURI([]byte(s))
	if ok {
		c.Class("valid")
	} else {
		c.Class("invalid")
	}
	if ok != (err == nil) {
		t.Fatalf("%q: by the grammar %v, but the parser says %v", s, ok, err)
	}
	if !ok {
		return
	}
	if d := gen.Diff(want, got); d != "" {
		t.Fatalf("%q:\n%s", s, d)
	}
	// The parts are found by name.
	for p := want.Param; p != nil; p = p.Next {
		if first := want.Param.Get(p.Name); got.Param.Get(p.Name) == nil || got.Param.Get(strings.ToUpper(p.Name)).Value != first.Value {
			t.Fatalf("%q: parameter %q not found", s, p.Name)
		}
	}
	for h := want.Header; h != nil; h = h.Next {
		if first := want.Header.Get(h.Name); got.Header.Get(h.Name) == nil || got.Header.Get(strings.ToUpper(h.Name)).Value != first.Value {
			t.Fatalf("%q: header %q not found", s, h.Name)
		}
	}
}

func TestC08Texts(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 1500000, Thorough: 10000000},
		"texts made of URI fragments in and out of place, compared with a recursive-descent reference parser; non-trivial: at least 4 fragments",
		func(t *rapid.T, c *hx.Case) {
			var b strings.Builder
			n := rapid.IntRange(0, 12).Draw(t, "n")
			if rapid.IntRange(0, 9).Draw(t, "scheme") > 0 {
				b.WriteString(gen.Pick(t, "s", "sip:", "sips:", "SIP:", "tel:", "a+-.9:", "1:", ":", "sip"))
			}
			for i := 0; i < n; i++ {
				b.WriteString(gen.Pick(t, "frag", "a", "user", "host.example", "1.2.3.4", "[::1]", "[", "]", "[]", "[g]", ":", ":5060", ":0", ":65535", ":65536", ":00080", "@", ";", ";lr", ";a=b", ";a=", ";=b", "=", ";a=b=c",
					"?", "?a=b", "&", "&c=d", "?a", "&=", "%", "%4", "%41", "%zz", "%00", "%+1", "%c3%a9", "/", "+", "-", "$", ",", "*", "~", "(", ")", "'", "!", "_", "\"", "<", ">", " ", "#", "\\", "|", "é", "\x00", "A", "Z"))
			}
			s := b.String()
			if n >= 4 {
				c.NonTrivial(s)
				c.Samplef("%q", s)
			}
			sameURI(t, c, s)
		})
}

func TestC08Edited(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 800000, Thorough: 6000000},
		"URIs in random spellings with up to 5 edits, compared with the reference parser; non-trivial: at least 6 bytes",
		func(t *rapid.T, c *hx.Case) {
			w := gen.Wire{T: t}
			s := []byte(w.URI(gen.URI().Draw(t, "uri")))
			if rapid.Bool().Draw(t, "byte") {
				i := rapid.IntRange(0, len(s)).Draw(t, "at")
				s = append(s[:i:i], append([]byte{gen.URIC[rapid.IntRange(0, len(gen.URIC)-1).Draw(t, "c")]}, s[i:]...)...)
			} else {
				s = gen.MutateBytes(t, s)
			}
			if len(s) >= 6 {
				c.NonTrivial(string(s))
				c.Samplef("%q", s)
			}
			sameURI(t, c, string(s))
		})
}

// All short texts over an alphabet with every kind of character.
func TestC08Short(t *testing.T) {
	const alphabet = "a1-+:@;=?&%[].A /"
	n := 4
	if hx.Tier == "thorough" {
		n = 5
	}
	hx.Exhaustive(t, "all texts of up to 4 (thorough: 5) characters over "+alphabet+" after sip:, and of up to 3 without", func(count func(string)) {
		var buf []byte
		try := func(s string) {
			count("")
			want, ok := ref.URI(s)
			got, err := sip.ParseURI([]byte(s))
			if ok != (err == nil) {
				hx.Failf(t, "%q: by the grammar %v, but the parser says %v", s, ok, err)
			}
			if ok {
				count(s)
				if *got != *want && gen.Diff(want, got) != "" {
					hx.Failf(t, "%q:\n%s", s, gen.Diff(want, got))
				}
			}
		}
		var walk func(prefix string, n int)
		walk = func(prefix string, n int) {
			try(prefix + string(buf))
			if n == 0 {
				return
			}
			for i := 0; i < len(alphabet); i++ {
				buf = append(buf, alphabet[i])
				walk(prefix, n-1)
				buf = buf[:len(buf)-1]
			}
		}
		walk("sip:", n)
		walk("", 3)
		// Every byte in every place of a URI with all parts.
		full := "sip:u:p@h.x:5060;n=v;m?a=b&c"
		for i := 0; i <= len(full); i++ {
			for c := 0; c < 256; c++ {
				try(full[:i] + string([]byte{byte(c)}) + full[i:])
				if i < len(full) {
					try(full[:i] + string([]byte{byte(c)}) + full[i+1:])
				}
			}
		}
		full = "sip:[a::1]:9;%41=%5b?x=%26"
		for i := 0; i <= len(full); i++ {
			for c := 0; c < 256; c++ {
				try(full[:i] + string([]byte{byte(c)}) + full[i:])
			}
		}
	})
}
