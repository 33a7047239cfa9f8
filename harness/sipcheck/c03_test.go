package sipcheck

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// complete tells if a message has all headers that a SIP message must have.
func complete(m *sip.Msg) bool {
	return m.From != nil && m.To != nil && m.Via != nil && m.CallID != "" && m.CSeqMethod != ""
}

// normal is what a parsed message is expected to be after formatting and
// parsing it again.
func normal(m *sip.Msg) *sip.Msg {
	m = gen.Clone(m)
	if m.VersionMajor == 0 {
		m.VersionMajor, m.VersionMinor = 2, 0
	}
	if m.Status > 0 {
		m.MaxForwards = 0
	} else if m.MaxForwards == 0 {
		m.MaxForwards = 70
	}
	return m
}

// blankLine tells if some header value begins with an empty folded line, the
// only text that may be dropped: it is white space between colon and value.
func blankLine(m *sip.Msg) bool {
	for _, h := range gen.StringHeaders {
		if v := gen.GetString(m, h.Field); v != "" && strings.IndexByte(" \t\r\n", v[0]) >= 0 {
			return true
		}
	}
	for x := m.XHeader; x != nil; x = x.Next {
		if len(x.Value) > 0 && strings.IndexByte(" \t\r\n", x.Value[0]) >= 0 {
			return true
		}
	}
	return false
}

func stable(t hx.Failer, c *hx.Case, wire []byte, m *sip.Msg) {
	if blankLine(m) {
		c.Class("blank line skipped")
		return
	}
	want := gen.Dump(normal(m))
	first := gen.Format(m)
	again, err := parse(first)
	if err != nil {
		t.Fatalf("formatting an accepted message gives one that is not: %v\ninput:     %q\nformatted: %q", err, wire, first)
	}
	if d := gen.DiffText(want, gen.Dump(again)); d != "" {
		t.Fatalf("accepted message changed by formatting:\n%s\ninput:     %q\nformatted: %q", d, wire, first)
	}
	asWritten(t, again, first)
	if second := gen.Format(again); string(second) != string(first) {
		t.Fatalf("formatting is not stable\ninput: %q\nfirst:  %q\nsecond: %q", wire, first, second)
	}
}

func TestC03Accepted(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 240000, Thorough: 6000000},
		"random wire forms of well-formed messages with up to 5 random edits; non-trivial: the edited bytes are accepted as a complete message "+
			"other than the original",
		func(t *rapid.T, c *hx.Case) {
			m := gen.Msg(gen.MsgOptions{Small: true, MinVias: 1}).Draw(t, "msg")
			w := gen.Wire{T: t, Plain: rapid.Bool().Draw(t, "plain")}
			wire := w.Msg(m)
			if rapid.IntRange(0, 9).Draw(t, "edit") > 0 {
				wire = gen.MutateBytes(t, wire)
			}
			got, err := parse(wire)
			if err != nil {
				c.Class("rejected")
				return
			}
			if !complete(got) {
				c.Class("incomplete")
				return
			}
			c.Class("accepted")
			if gen.Dump(got) != gen.Dump(m) {
				c.NonTrivial(string(wire))
				c.Samplef("%q", wire)
			}
			if _, ok := got.Payload.(*sdp.SDP); ok && gen.Diff(m.Payload, got.Payload) != "" {
				// The edits hit a session description: those have a
				// property of their own.
				c.Class("session description edited")
				got.Payload = nil
			}
			stable(t, c, wire, got)
		})
}

// Text that is decoded from some quoted, escaped or folded spelling.
func TestC03Decoded(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 2000000},
		"messages whose display names, parameter values, URI parts, reason phrase, header values and body are spelled from random fragments of "+
			"quoted pairs, escapes, folds, separators and UTF-8; non-trivial: accepted and some fragment was special",
		func(t *rapid.T, c *hx.Case) {
			frag := func(label string, fs ...string) string {
				s := ""
				for n := rapid.IntRange(0, 4).Draw(t, label); n > 0; n-- {
					s += gen.Pick(t, label, fs...)
				}
				return s
			}
			multibyte := func(label string) string {
				if !gen.Chance(t, label+"m", 6) {
					return ""
				}
				return gen.Multibyte().Draw(t, label+"m")
			}
			quoted := func(label string) string {
				return "\"" + frag(label, "a", " ", "\t", "\\\"", "\\\\", "\\a", "\\\t", "\\\x01", "\\\x00", "\\\x7f", "\r\n ", "\r\n\t", ",", ";", "<", ">", "@",
					"é", "\xf8\x80\x80\x80\x80", "\xc0\x80", "%41", "'", "=", "\\\v", "😀") + multibyte(label) + "\""
			}
			display := func(label string) string {
				if rapid.Bool().Draw(t, label+"q") {
					return quoted(label) + gen.Pick(t, "sp", " ", "", "\r\n ")
				}
				return frag(label, "a ", "b\t", "c  ", "d\r\n ", "e\t\t", "%", "f.! ", "g\r\n\t ")
			}
			uri := func(label string) string {
				s := gen.Pick(t, label, "sip:", "SIPS:", "tel:")
				if rapid.Bool().Draw(t, label+"u") {
					s += "u" + frag(label+"user", "a", "%40", "%3a", "%00", "%ff", "%2F", ";", "?", "&", "%C3%A9", "%20", "%25", "/") + gen.Pick(t, "pw", "", ":p%3A", ":%40") + "@"
				}
				s += gen.Pick(t, label+"h", "h", "H.Example", "[::1]", "[FE80::A]", "1.2.3.4", "+1-2") + gen.Pick(t, label+"p", "", ":5", ":0", ":05060", ":65535")
				s += frag(label+"par", ";lr", ";a=b", ";%61=%62", ";x=%3b", ";y=%26&", ";z=[::1]:/")
				s += gen.Pick(t, label+"hd", "", "", "?a=b", "?a=%26&b", "?x%3dy=%3f?", "?a&b=c&a=d")
				return s
			}
			params := func(label string) string {
				s := ""
				for n := rapid.IntRange(0, 2).Draw(t, label); n > 0; n-- {
					s += gen.Pick(t, "sem", ";", " ; ", ";\r\n ") + gen.Pick(t, label, "a", "tag", "LR", "x.y", "%")
					switch rapid.IntRange(0, 3).Draw(t, label+"v") {
					case 1:
						s += "=" + quoted(label)
					case 2:
						s += " = " + gen.Pick(t, label, "v", "[::1]", "[::1]:5", "a:b", "%41", "1.5", "]", ":")
					}
				}
				return s
			}
			addr := func(label string) string { return display(label+"d") + "<" + uri(label+"u") + ">" + params(label+"p") }
			start := "INVITE " + uri("req") + " SIP/2.0"
			if rapid.Bool().Draw(t, "response") {
				start = "SIP/2.0 " + gen.Pick(t, "status", "100", "200", "487", "999") + " " +
					"x" + frag("reason", "a", " ", "%0d", "%0D%0A", "%25", "%41", "%e9", "é", "\t", "%c3%a9", "%00", "%", "(", "'", "%22", "\"") + multibyte("reason")
				if gen.Chance(t, "escapedreason", 4) {
					for _, b := range []byte(gen.Multibyte().Draw(t, "escaped")) {
						start += fmt.Sprintf("%%%02X", b)
					}
				}
			}
			wire := start + "\r\nFrom: " + addr("from") + "\r\nTo: " + addr("to")
			for n := rapid.IntRange(0, 2).Draw(t, "contacts"); n > 0; n-- {
				wire += "\r\nm: " + addr("c1")
				if rapid.Bool().Draw(t, "two") {
					wire += gen.Pick(t, "comma", ",", " , ", ",\r\n ") + gen.Pick(t, "unangled", "sip:x@y", "sip:z", "tel:+1") + params("cp")
				}
			}
			wire += "\r\nVia: SIP/2.0/UDP " + gen.Pick(t, "viahost", "h", "H.x", "[::1]", "[A::b]", "1.2.3.4") +
				gen.Pick(t, "viaport", "", ":5060", " : 1", ":0", ":00080", ":65535") + params("via")
			wire += "\r\nCall-ID: " + gen.Pick(t, "cid", "a", "a@b", "<x>@[::1]", "\"q\"", "\\", "a:b/c") + "\r\nCSeq: 1 INVITE"
			for n := rapid.IntRange(0, 2).Draw(t, "texts"); n > 0; n-- {
				wire += "\r\n" + gen.Pick(t, "name", "Subject", "X-Y", "s", "Warning", "P", "Contactx") + gen.Pick(t, "colon", ":", ": ", " : ", ":\r\n ") +
					frag("value", "a", " ", "\t", "\r\n ", "\r\n\t", "\"", ",", ";", ":", "\x7f", "é", "\xfc\x80\x80\x80\x80\x80", "b", "\\")
			}
			body := frag("body", "x", "\r\n", " ", "\x00", "\xff", "\t")
			if body != "" {
				wire += "\r\n" + gen.Pick(t, "ct", "c: text/x", "Content-Type: a/b;c=\"d\\\"\"") + "\r\nl: " + gen.Pick(t, "zero", "", "0", "000") + itoa(len(body))
			}
			wire += "\r\n\r\n" + body
			got, err := parse([]byte(wire))
			if err != nil {
				c.Class("rejected")
				return
			}
			c.Class("accepted")
			c.NonTrivial(wire)
			c.Samplef("%q", wire)
			stable(t, c, []byte(wire), got)
		})
}
