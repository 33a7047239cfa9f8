package sipcheck

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func itoa(n int) string { return strconv.Itoa(n) }

// checkError formats an error and, if it names a place in the input, checks
// that the place exists.
func checkError(t hx.Failer, data []byte, err error) {
	s := err.Error()
	if s == "" {
		t.Fatalf("empty error for %q", data)
	}
	if e, ok := err.(sip.MsgParseError); ok {
		if e.Offset < 0 || e.Offset > len(data) {
			t.Fatalf("error at offset %d of %d bytes: %q", e.Offset, len(data), data)
		}
		if !bytes.Equal(e.Msg, data) {
			t.Fatalf("error has message %q, not %q", e.Msg, data)
		}
		// Find the line by the book: a line includes the break that ends it.
		line, col := 1, 0
		for i := 0; i < e.Offset; i++ {
			col++
			if i >= 1 && data[i-1] == '\r' && data[i] == '\n' {
				line, col = line+1, 0
			}
		}
		want := fmt.Sprintf("line %d offset %d", line, col)
		got, shown, _ := strings.Cut(s, "\n")
		if !strings.Contains(got, want+":") {
			t.Fatalf("error says %q, byte %d is at %s in %q", got, e.Offset, want, data)
		}
		// The message follows, with a mark below the line.
		var lines []string
		for i, l := range strings.Split(string(data), "\r\n") {
			if lines = append(lines, l); i+1 == line {
				lines = append(lines, strings.Repeat(" ", col)+"^")
			}
		}
		if want := strings.Join(lines, "\n"); shown != want {
			t.Fatalf("error shows %q\nwant %q", shown, want)
		}
	}
}

// checkIncomplete sees that the error of an incomplete message shows it.
func checkIncomplete(t hx.Failer, data []byte, err error) {
	if e, ok := err.(sip.MsgIncompleteError); ok && (!bytes.Equal(e.Msg, data) || !strings.HasSuffix(e.Error(), "\n"+string(data))) {
		t.Fatalf("error %q with message %q for %q", e.Error(), e.Msg, data)
	}
}

func total(t hx.Failer, kind string, data []byte, parse func([]byte) (any, bool, error)) bool {
	in := append(make([]byte, 0, len(data)+8), data...)
	v, have, err := parse(in)
	if !bytes.Equal(in, data) {
		t.Fatalf("parsing %s changed its input %q to %q", kind, data, in)
	}
	if have == (err != nil) {
		t.Fatalf("parsing %s %q gives value %v and error %v", kind, data, v, err)
	}
	v2, have2, err2 := parse(append([]byte{}, data...))
	if have != have2 || gen.Dump(v) != gen.Dump(v2) || fmt.Sprint(err) != fmt.Sprint(err2) {
		t.Fatalf("parsing %s %q twice gives different results", kind, data)
	}
	if err != nil {
		checkError(t, data, err)
		checkIncomplete(t, data, err)
	}
	return err == nil
}

func parseMsgAny(b []byte) (any, bool, error) { m, err := sip.ParseMsg(b); return m, m != nil, err }
func parseURIAny(b []byte) (any, bool, error) { u, err := sip.ParseURI(b); return u, u != nil, err }
func parseSDPAny(b []byte) (any, bool, error) {
	s, err := sdp.Parse(string(b))
	return s, s != nil, err
}

func TestC04Messages(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 200000, Thorough: 5000000},
		"random bytes, random SIP fragments, and messages with up to 5 edits, parsed as a message; non-trivial: longer than a start line",
		func(t *rapid.T, c *hx.Case) {
			var data []byte
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0:
				data = []byte(gen.Bytes(0, 60).Draw(t, "bytes"))
			case 1, 2:
				data = []byte(gen.Pick(t, "start", "INVITE sip:a@b SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", ""))
				for n := rapid.IntRange(0, 8).Draw(t, "n"); n > 0; n-- {
					data = append(data, gen.Pick(t, "frag", "From", "To: ", "Via: ", "v:", "SIP/2.0/UDP ", "Contact:", "<", ">", "sip:", "sip:a@b", "\"", "\\", "\r\n", "\r", "\n", " ", "\t", ";", "=", ",",
						"a", "\x00", "\xff", "\xc3", "é", "CSeq: 1 ", "Content-Length: 5", "c: a/b", ":", "[::1]", "%", "Call-ID: ", "Expires:", "1", "999999999999999999999", "X", "Subject: ", "*")...)
				}
			default:
				m := gen.Msg(gen.MsgOptions{Small: true}).Draw(t, "msg")
				w := gen.Wire{T: t, Plain: rapid.Bool().Draw(t, "plain")}
				data = gen.MutateBytes(t, w.Msg(m))
			}
			if len(data) > 40 {
				c.NonTrivial(string(data))
				c.Samplef("%q", data)
			}
			if total(t, "message", data, parseMsgAny) {
				c.Class("accepted")
				m, _ := sip.ParseMsg(data)
				_ = m.String() // whatever was accepted can be formatted
			} else {
				c.Class("rejected")
			}
		})
}

func TestC04URIs(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 4000000},
		"random bytes, and URIs in random spellings with up to 5 edits, parsed as a URI; non-trivial: at least 6 bytes",
		func(t *rapid.T, c *hx.Case) {
			var data []byte
			if gen.Chance(t, "bytes", 4) {
				data = []byte(gen.Bytes(0, 20).Draw(t, "bytes"))
			} else {
				w := gen.Wire{T: t}
				data = gen.MutateBytes(t, []byte(w.URI(gen.URI().Draw(t, "uri"))))
			}
			if len(data) >= 6 {
				c.NonTrivial(string(data))
				c.Samplef("%q", data)
			}
			if total(t, "URI", data, parseURIAny) {
				c.Class("accepted")
			} else {
				c.Class("rejected")
			}
		})
}

func TestC04SDPs(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 4000000},
		"random bytes, random SDP lines, and session descriptions with up to 5 edits, parsed as one; non-trivial: starts with v=0",
		func(t *rapid.T, c *hx.Case) {
			var data []byte
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				data = []byte(gen.Bytes(0, 40).Draw(t, "bytes"))
			case 1, 2:
				data = []byte("v=0\r\n")
				for n := rapid.IntRange(0, 8).Draw(t, "n"); n > 0; n-- {
					data = append(data, gen.Pick(t, "line", "o=- 1 1 IN IP4 1.2.3.4", "c=IN IP4 1.2.3.4", "m=audio 1 RTP/AVP 0", "m=audio 1 RTP/AVP", "m=audio ", "m=video 70000 x 1 2", "m=video 9 x 99",
						"a=rtpmap:99 x/1", "a=rtpmap:99 x", "a=rtpmap:", "a=fmtp:", "a=:", "a=", "=", "==", "===", "m=", "c=", "o=", "s=", "a=ptime:", "a=ptime:x", "m=audio 1/2 x 0",
						"m=audio / x 0", "m=audio 1 x -1", "m=audio 1 x 256", "m=audio 1 x  ", "o= ", "c=IN IP4 a/1", "x", "b=y")...)
					data = append(data, gen.Pick(t, "eol", "\r\n", "\r\n", "\r\n", "\n", "")...)
				}
			default:
				data = gen.MutateBytes(t, gen.SDP(gen.SDPOptions{}).Draw(t, "sdp").Data())
			}
			if bytes.HasPrefix(data, []byte("v=0")) {
				c.NonTrivial(string(data))
				c.Samplef("%q", data)
			}
			if total(t, "session description", data, parseSDPAny) {
				c.Class("accepted")
				s, _ := sdp.Parse(string(data))
				_ = s.String()
			} else {
				c.Class("rejected")
			}
		})
}
