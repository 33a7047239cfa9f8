package sipcheck

import (
	"bytes"
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

// unbroken tells if a header has no line break but folds.
func unbroken(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			return false
		case '\r':
			if i+2 >= len(s) || s[i+1] != '\n' || s[i+2] != ' ' && s[i+2] != '\t' {
				return false
			}
			i++
		}
	}
	return true
}

// faithful tells if text has to come back as it is: no control characters, and
// UTF-8.
func faithful(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] == 0x7f {
			return false
		}
	}
	return gen.ValidUTF8(s)
}

func nasty(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+"kind") {
	case 0:
		return gen.Text(0, 12).Draw(t, label)
	case 1:
		var b strings.Builder
		for n := rapid.IntRange(1, 5).Draw(t, label+"n"); n > 0; n-- {
			b.WriteString(gen.Pick(t, label, "\r\n", "\r\n ", "\r", "\n", "\"", "\\", "\\\"", "\x00", "\x7f", "\x80", "\xff", "\xc3", "é", ",", ";tag=x", "<sip:evil@x>", ">", " ", "\t",
				"\r\nVia: SIP/2.0/UDP evil", "\r\n\r\n", "a", "%0d%0a", "\v", "\xf0\x9f\x98", "😀", "\xfc\x80\x80\x80\x80\x80", "\\\r\n x"))
		}
		return b.String()
	case 2:
		return gen.Quotable().Draw(t, label)
	case 3:
		s := gen.Pick(t, label+"before", "", "a", "\"", " ") + gen.Multibyte().Draw(t, label)
		if rapid.Bool().Draw(t, label+"two") {
			s += gen.Multibyte().Draw(t, label)
		}
		return s + gen.Pick(t, label+"after", "", "b", "\"", " ")
	default:
		return gen.Bytes(0, 14).Draw(t, label)
	}
}

// sameText checks what became of text.
func sameText(t *rapid.T, what, in, out, wire string) {
	if faithful(in) && in != out {
		t.Fatalf("%s %q came back as %q from %q", what, in, out, wire)
	}
	if !strings.HasPrefix(in, out) {
		t.Fatalf("%s %q came back as %q, which is not what it starts with, from %q", what, in, out, wire)
	}
}

// asRead has an independent reader look at formatted addresses and Vias. What
// is left of truncated text may be in quotes that it does not need.
func asRead(t *rapid.T, addrs, want *sip.Addr, vias, wantVias *sip.Via) {
	text := addrs.String()
	r, err := ref.Addrs(text)
	if err != nil && strings.Contains(err.Error(), "needless quotes") && gen.Diff(addrs, want) != "" {
		r, err = want, nil
	}
	if err != nil {
		t.Fatalf("badly written: %v\n%q", err, text)
	}
	if d := gen.Diff(want, r); d != "" {
		t.Fatalf("means something else to another reader:\n%s\n%q", d, text)
	}
	for v, w := vias, wantVias; v != nil && w != nil; v, w = v.Next, w.Next {
		var b bytes.Buffer
		v.Append(&b)
		one := *w
		one.Next = nil
		r, err := ref.Vias(b.String())
		if err != nil && strings.Contains(err.Error(), "needless quotes") && gen.Diff(v.Param, w.Param) != "" {
			r, err = &one, nil
		}
		if err != nil {
			t.Fatalf("badly written: %v\n%q", err, b.String())
		}
		if d := gen.Diff(&one, r); d != "" {
			t.Fatalf("means something else to another reader:\n%s\n%q", d, b.String())
		}
	}
}

func TestC09Breakout(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 320000, Thorough: 6000000},
		"address lists and Vias of up to 3 with any bytes as display names and parameter values, in a message; non-trivial: some text has a "+
			"control character, quote, backslash or byte above 127",
		func(t *rapid.T, c *hx.Case) {
			special := false
			text := func(label string) string {
				s := nasty(t, label)
				for i := 0; i < len(s); i++ {
					special = special || s[i] < ' ' || s[i] >= 0x7f || s[i] == '"' || s[i] == '\\'
				}
				return s
			}
			params := func() *sip.Param {
				var p *sip.Param
				for n := rapid.IntRange(0, 2).Draw(t, "params"); n > 0; n-- {
					p = &sip.Param{Name: gen.Token().Draw(t, "name"), Next: p}
					if rapid.Bool().Draw(t, "has") {
						p.Value = text("value")
					}
				}
				return p
			}
			var addrs *sip.Addr
			for n := rapid.IntRange(1, 3).Draw(t, "addrs"); n > 0; n-- {
				addrs = &sip.Addr{Uri: gen.URI().Draw(t, "uri"), Param: params(), Next: addrs}
				if rapid.Bool().Draw(t, "hasdisplay") {
					addrs.Display = text("display")
				}
			}
			var vias *sip.Via
			for n := rapid.IntRange(1, 2).Draw(t, "vias"); n > 0; n-- {
				vias = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Port: uint16(n), Param: params(), Next: vias}
			}
			u := &sip.URI{Scheme: "sip", Host: "x"}
			m := &sip.Msg{VersionMajor: 2, Method: "X", CSeqMethod: "X", Request: u, From: &sip.Addr{Uri: u}, To: &sip.Addr{Uri: u}, CallID: "a",
				Via: vias, MaxForwards: 1, Subject: "s", XHeader: &sip.XHeader{Name: "X-Last", Value: []byte("l")}}
			header := gen.Pick(t, "header", "From", "To", "Contact", "Route", "RecordRoute", "PAssertedIdentity", "RemotePartyID")
			gen.SetAddr(m, header, addrs)
			if !unbroken(addrs.String()) {
				t.Fatalf("line break in address %q", addrs.String())
			}
			for v := vias; v != nil; v = v.Next {
				var b bytes.Buffer
				v.Append(&b)
				if !unbroken(b.String()) {
					t.Fatalf("line break in Via %q", b.String())
				}
			}
			wire := string(gen.Format(m))
			if special {
				c.NonTrivial(wire)
				c.Samplef("%q", wire)
			}
			got, err := parse([]byte(wire))
			if err != nil {
				t.Fatalf("does not parse: %v\n%q", err, wire)
			}
			asRead(t, addrs, gen.GetAddr(got, header), vias, got.Via)
			sameParams := func(p, q *sip.Param) {
				for ; p != nil && q != nil; p, q = p.Next, q.Next {
					if p.Name != q.Name {
						t.Fatalf("parameter %q became %q in %q", p.Name, q.Name, wire)
					}
					sameText(t, "parameter value", p.Value, q.Value, wire)
					q.Value = p.Value
				}
				if p != nil || q != nil {
					t.Fatalf("number of parameters changed in %q", wire)
				}
			}
			a, b := addrs, gen.GetAddr(got, header)
			for ; a != nil && b != nil; a, b = a.Next, b.Next {
				sameText(t, "display name", a.Display, b.Display, wire)
				b.Display = a.Display
				sameParams(a.Param, b.Param)
			}
			if a != nil || b != nil {
				t.Fatalf("number of addresses changed in %q", wire)
			}
			v, w := vias, got.Via
			for ; v != nil && w != nil; v, w = v.Next, w.Next {
				sameParams(v.Param, w.Param)
			}
			if v != nil || w != nil {
				t.Fatalf("number of Vias changed in %q", wire)
			}
			// With the texts put back, nothing else has changed.
			if d := gen.Diff(m, got); d != "" {
				t.Fatalf("other parts of the message changed:\n%s\n%q", d, wire)
			}
		})
}

// Every byte in every position of a display name and parameter value.
func TestC09Bytes(t *testing.T) {
	hx.Exhaustive(t, "each pair of bytes, alone and between letters, as display name and parameter value of the middle one of three addresses", func(count func(string)) {
		u := &sip.URI{Scheme: "sip", Host: "h"}
		try := func(s string) {
			count(s)
			a := &sip.Addr{Uri: u, Display: "x", Next: &sip.Addr{Uri: u, Display: s, Param: &sip.Param{Name: "p", Value: s, Next: &sip.Param{Name: "q"}}, Next: &sip.Addr{Uri: u, Display: "y"}}}
			text := a.String()
			if !unbroken(text) {
				hx.Failf(t, "line break in %q", text)
			}
			m, err := sip.ParseMsg([]byte("SIP/2.0 200 OK\r\nContact: " + text + "\r\nSubject: z\r\n\r\n"))
			if err != nil {
				hx.Failf(t, "%q: %v", text, err)
			}
			b := m.Contact
			if b.Len() != 3 || m.Subject != "z" || m.XHeader != nil || b.Display != "x" || b.Next.Next.Display != "y" {
				hx.Failf(t, "breaks out: %q", text)
			}
			b = b.Next
			if b.Param == nil || b.Param.Name != "p" || b.Param.Next == nil || b.Param.Next.Name != "q" || b.Param.Next.Next != nil || b.Param.Next.Value != "" {
				hx.Failf(t, "parameters changed: %q", text)
			}
			for _, out := range []string{b.Display, b.Param.Value} {
				if !strings.HasPrefix(s, out) || faithful(s) && s != out {
					hx.Failf(t, "%q came back as %q from %q", s, out, text)
				}
			}
		}
		for x := 0; x < 256; x++ {
			try(string([]byte{byte(x)}))
			try(string([]byte{'a', byte(x), 'b'}))
			for y := 0; y < 256; y++ {
				try(string([]byte{byte(x), byte(y)}))
				try(string([]byte{'a', byte(x), byte(y), 'b'}))
			}
		}
	})
}
