package sipcheck

import (
	"bytes"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

// parse parses a copy, so that nothing the test keeps can be aliased.
func parse(b []byte) (*sip.Msg, error) { return sip.ParseMsg(append([]byte{}, b...)) }

// asWritten has an independent reader look at a formatted message.
func asWritten(t hx.Failer, want *sip.Msg, wire []byte) {
	got, err := ref.Msg(string(wire))
	if err != nil {
		t.Fatalf("badly written: %v\nwire: %q", err, wire)
	}
	if want.Payload != nil {
		want = gen.Clone(want)
		want.Payload = &sip.MiscPayload{T: want.Payload.ContentType(), D: want.Payload.Data()}
	}
	if d := gen.Diff(want, got); d != "" {
		t.Fatalf("means something else to another reader:\n%s\nwire: %q", d, wire)
	}
}

func TestC01RoundTrip(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 4000000},
		"structured well-formed messages (all header fields, URIs with arbitrary bytes, SDP and opaque bodies), formatted, parsed and "+
			"compared field by field; non-trivial: at least 4 optional parts",
		func(t *rapid.T, c *hx.Case) {
			m := gen.Msg(gen.MsgOptions{}).Draw(t, "msg")
			want := gen.Clone(m)
			if want.Status > 0 && want.Phrase == "" {
				want.Phrase = sip.Phrase(want.Status)
			}
			wire := gen.Format(m)
			c.Samplef("%q", wire)
			if n := gen.NonDefault(want); n >= 4 {
				c.NonTrivial(string(wire))
			}
			if want.Status > 0 {
				c.Class("response")
			} else {
				c.Class("request")
			}
			got, err := parse(wire)
			if err != nil {
				t.Fatalf("does not parse: %v\n%q", err, wire)
			}
			if d := gen.Diff(want, got); d != "" {
				t.Fatalf("changed by formatting and parsing:\n%s\nwire: %q", d, wire)
			}
			asWritten(t, want, wire)
			if s := m.String(); s != string(wire) {
				t.Fatalf("String gives %q\nAppend %q", s, wire)
			}
			// So do the parts.
			part(t, "From", m.From)
			part(t, "To", m.To)
			if m.Contact != nil {
				part(t, "Contact", m.Contact)
			}
			if m.Request != nil {
				part(t, "Request-URI", m.Request)
			}
			if m.XHeader != nil {
				part(t, "headers", m.XHeader)
			}
		})
}

// part compares the two ways to format a part of a message.
func part(t *rapid.T, name string, p interface {
	Append(*bytes.Buffer)
	String() string
}) {
	var b bytes.Buffer
	b.WriteString("before")
	p.Append(&b)
	if s := p.String(); "before"+s != b.String() {
		t.Fatalf("%s: String gives %q, Append after %q gives %q", name, s, "before", b.String())
	}
}

// Fields left empty get the documented defaults and nothing else changes.
func TestC01Defaults(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 32000, Thorough: 400000},
		"messages with some of version, method, Max-Forwards, phrase, URI scheme, Via protocol/version/transport left empty; non-trivial: at least 2 of them",
		func(t *rapid.T, c *hx.Case) {
			m := gen.Msg(gen.MsgOptions{Small: true, MinVias: 1}).Draw(t, "msg")
			want := gen.Clone(m)
			n := 0
			blank := func(name string) bool {
				if rapid.Bool().Draw(t, name) {
					n++
					return true
				}
				return false
			}
			if blank("version") {
				m.VersionMajor, m.VersionMinor = 0, 0
				want.VersionMajor, want.VersionMinor = 2, 0
			}
			if m.Status == 0 {
				if blank("method") {
					m.Method = ""
					want.Method = "INVITE"
				}
				if blank("maxforwards") {
					m.MaxForwards, want.MaxForwards = 0, 70
				}
				if blank("scheme") {
					m.Request.Scheme, want.Request.Scheme = "", "sip"
				}
			} else {
				if blank("phrase") {
					m.Phrase, want.Phrase = "", sip.Phrase(m.Status)
				}
				if blank("maxforwards") {
					// Only requests have one.
					m.MaxForwards, want.MaxForwards = 0, 0
				}
			}
			if blank("fromscheme") {
				m.From.Uri.Scheme, want.From.Uri.Scheme = "", "sip"
			}
			for v, w := m.Via, want.Via; v != nil; v, w = v.Next, w.Next {
				if blank("protocol") {
					v.Protocol, w.Protocol = "", "SIP"
				}
				if blank("viaversion") {
					v.Version, w.Version = "", "2.0"
				}
				if blank("transport") {
					v.Transport, w.Transport = "", "UDP"
				}
			}
			wire := gen.Format(m)
			if n >= 2 {
				c.NonTrivial(string(wire))
			}
			c.Samplef("%q", wire)
			got, err := parse(wire)
			if err != nil {
				t.Fatalf("does not parse: %v\n%q", err, wire)
			}
			if d := gen.Diff(want, got); d != "" {
				t.Fatalf("defaults:\n%s\nwire: %q", d, wire)
			}
			asWritten(t, want, wire)
		})
}
