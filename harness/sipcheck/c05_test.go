package sipcheck

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func TestC05Framing(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 240000, Thorough: 4000000},
		"a message of random headers with any bytes as body and a Content-Length that is right, off by a little or a lot, zero, absent or repeated; "+
			"non-trivial: the body is not empty and holds bytes special to SIP, or the length is wrong",
		func(t *rapid.T, c *hx.Case) {
			m := gen.Msg(gen.MsgOptions{Small: true, NoSDP: true}).Draw(t, "msg")
			if m.Status > 0 && m.Phrase == "" {
				m.Phrase = "x"
			}
			m.Payload = nil
			w := gen.Wire{T: t, Plain: true}
			head := w.Msg(m)
			head = bytes.TrimSuffix(head, []byte("Content-Length: 0\r\n\r\n"))
			var body []byte
			if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
				body = []byte(gen.Pick(t, "special", " ", "\t", "\r\n", "\r\n\r\n", " x", "\r\n ", "\n", "\r", "Content-Length: 0\r\n\r\n", "\x00", string(head)))
			} else {
				body = []byte(gen.Bytes(0, 60).Draw(t, "body"))
			}
			typ := gen.Pick(t, "type", "text/plain", "a/b", "application/x-sdp", "message/sip")
			clen := len(body)
			lie := rapid.IntRange(0, 5).Draw(t, "lie")
			absent := false
			switch lie {
			case 0:
				clen += rapid.IntRange(-3, 3).Draw(t, "off")
			case 1:
				clen = gen.Number(1<<31-1).Draw(t, "clen")
			case 2:
				clen = 0
			case 3:
				absent = true
			}
			if clen < 0 {
				clen = 0
			}
			var b bytes.Buffer
			b.Write(head)
			lines := []string{gen.Pick(t, "ct", "Content-Type: ", "c:") + typ}
			if !absent {
				zeros := gen.Pick(t, "zeros", "", "", "0", "0000000")
				lines = append(lines, fmt.Sprintf("%s%s%d", gen.Pick(t, "cl", "Content-Length: ", "l:", "l :  "), zeros, clen))
			}
			if rapid.Bool().Draw(t, "swap") && len(lines) == 2 {
				lines[0], lines[1] = lines[1], lines[0]
			}
			for _, l := range lines {
				b.WriteString(l + "\r\n")
			}
			b.WriteString("\r\n")
			blank := b.Len()
			b.Write(body)
			wire := b.Bytes()
			if len(body) > 0 && (clen != len(body) || bytes.ContainsAny(body, " \t\r\n\x00")) {
				c.NonTrivial(string(wire))
			}
			c.Samplef("Content-Length %d, body of %d bytes: %q", clen, len(body), body)
			got, err := parse(wire)
			switch {
			case absent:
				// Whether there is a body is up to the transport.
				c.Class("absent")
				if err == nil && got.Payload != nil && !bytes.Equal(got.Payload.Data(), body) {
					t.Fatalf("body %q, not %q, without Content-Length", got.Payload.Data(), body)
				}
			case clen == 0:
				c.Class("zero")
				if err != nil {
					t.Fatalf("Content-Length 0 rejected: %v\n%q", err, wire)
				}
				if got.Payload != nil {
					t.Fatalf("Content-Length 0, but has body %q\n%q", got.Payload.Data(), wire)
				}
			case clen != len(body):
				c.Class("wrong")
				if err == nil {
					t.Fatalf("Content-Length %d accepted with a body of %d bytes\n%q", clen, len(body), wire)
				}
			default:
				c.Class("right")
				if err != nil {
					t.Fatalf("rejected: %v\n%q", err, wire)
				}
				want := gen.Clone(m)
				want.Payload = &sip.MiscPayload{T: typ, D: body}
				if d := gen.Diff(want, got); d != "" {
					t.Fatalf("body changes message:\n%s\n%q", d, wire)
				}
				f := gen.Format(got)
				i := bytes.Index(f, []byte("\r\n\r\n"))
				if !bytes.Equal(f[i+4:], body) {
					t.Fatalf("formatted with body %q, not %q", f[i+4:], body)
				}
				if want := fmt.Sprintf("\r\nContent-Length: %d\r\n", len(body)); bytes.Count(f[:i+2], []byte(want)) != 1 {
					t.Fatalf("formatted without %q: %q", want, f)
				}
			}
			// A message cut before the blank line ends is incomplete.
			cut := rapid.IntRange(0, blank-1).Draw(t, "cut")
			got, err = parse(wire[:cut])
			if _, ok := err.(sip.MsgIncompleteError); !ok || got != nil {
				t.Fatalf("message cut to %d bytes gives %v, error %T %v\n%q", cut, got != nil, err, err, wire[:cut])
			}
		})
}

func TestC05Formatted(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 80000, Thorough: 1000000},
		"well-formed messages with any body, formatted; the text after the blank line is the body and the one Content-Length is its size; non-trivial: has a body",
		func(t *rapid.T, c *hx.Case) {
			m := gen.Msg(gen.MsgOptions{Small: true}).Draw(t, "msg")
			var body []byte
			if m.Payload != nil {
				body = append(body, m.Payload.Data()...)
			}
			wire := gen.Format(m)
			if len(body) > 0 {
				c.NonTrivial(string(wire))
				c.Samplef("%q", wire)
			}
			i := bytes.Index(wire, []byte("\r\n\r\n"))
			if i < 0 {
				t.Fatalf("no blank line in %q", wire)
			}
			if !bytes.Equal(wire[i+4:], body) {
				t.Fatalf("body %q formatted as %q", body, wire[i+4:])
			}
			n := 0
			for _, l := range bytes.Split(wire[:i], []byte("\r\n")) {
				if v, ok := bytes.CutPrefix(l, []byte("Content-Length: ")); ok {
					n++
					if string(v) != itoa(len(body)) {
						t.Fatalf("Content-Length %s for %d bytes", v, len(body))
					}
				}
			}
			if n != 1 {
				t.Fatalf("%d Content-Length headers in %q", n, wire)
			}
		})
}
