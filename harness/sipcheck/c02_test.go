package sipcheck

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func TestC02WireForms(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 120000, Thorough: 3000000},
		"a well-formed message written in a random wire form (header case, compact names, whitespace, folds, comma-joined or repeated, "+
			"order, quoting, escapes, unangled addresses); it must parse to the message itself; non-trivial: at least 3 unusual choices of 2 kinds",
		func(t *rapid.T, c *hx.Case) {
			m := gen.Msg(gen.MsgOptions{Small: true}).Draw(t, "msg")
			want := gen.Clone(m)
			w := gen.Wire{T: t}
			wire := w.Msg(m)
			if m.Status > 0 && m.Phrase == "" {
				return
			}
			n := 0
			var used []string
			for k, v := range w.Used {
				n += v
				used = append(used, k)
			}
			sort.Strings(used)
			c.Class(used...)
			if n >= 3 && len(used) >= 2 {
				c.NonTrivial(string(wire))
			}
			c.Samplef("%q", wire)
			got, err := parse(wire)
			if err != nil {
				t.Fatalf("does not parse: %v\n%q", err, wire)
			}
			if d := gen.Diff(want, got); d != "" {
				t.Fatalf("parses to something else:\n%s\nwire: %q", d, wire)
			}
		})
}

// Every header name, in every form, sets its own field and no other.
func TestC02HeaderNames(t *testing.T) {
	base := "SIP/2.0 200 OK\r\nFrom: <sip:a@b>\r\nTo: <sip:c@d>\r\nCSeq: 7 OPTIONS\r\nCall-ID: z\r\n"
	plain, err := parse([]byte(base + "\r\n"))
	if err != nil {
		hx.Failf(t, "%v", err)
	}
	type form struct {
		name, value string
		set         func(*sip.Msg)
	}
	uri := func() *sip.Addr { return &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "x", Host: "y"}} }
	var forms []form
	for _, h := range gen.StringHeaders {
		for _, n := range []string{h.Name, h.Compact} {
			forms = append(forms, form{n, "some value", func(m *sip.Msg) { gen.SetString(m, h.Field, "some value") }})
		}
	}
	for _, h := range gen.AddrHeaders {
		for _, n := range []string{h.Name, h.Compact} {
			forms = append(forms, form{n, "<sip:x@y>", func(m *sip.Msg) {
				a := uri()
				if !h.List {
					// A second address of a single-valued header is appended.
					first := gen.GetAddr(m, h.Field)
					first.Next = a
					a = first
				}
				gen.SetAddr(m, h.Field, a)
			}})
		}
	}
	for _, n := range []string{"Via", "v"} {
		forms = append(forms, form{n, "SIP/2.0/UDP h:9", func(m *sip.Msg) {
			m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Port: 9}
		}})
	}
	for _, n := range []string{"Call-ID", "i"} {
		forms = append(forms, form{n, "w@x", func(m *sip.Msg) { m.CallID = "w@x" }})
	}
	forms = append(forms,
		form{"CSeq", "9 BYE", func(m *sip.Msg) { m.CSeq, m.CSeqMethod = 9, "BYE" }},
		form{"Expires", "9", func(m *sip.Msg) { m.Expires = 9 }},
		form{"Max-Forwards", "9", func(m *sip.Msg) { m.MaxForwards = 9 }},
		form{"Min-Expires", "9", func(m *sip.Msg) { m.MinExpires = 9 }},
		form{"Content-Length", "0", func(m *sip.Msg) {}},
		form{"l", "0", func(m *sip.Msg) {}},
		form{"Content-Type", "a/b", func(m *sip.Msg) {}},
		form{"c", "a/b", func(m *sip.Msg) {}},
	)
	hx.Exhaustive(t, "every standard header name, long and compact, in 6 spellings, and every strict prefix and extension of each name as an extension header",
		func(count func(string)) {
			try := func(name, value string, set func(*sip.Msg)) {
				for _, sep := range []string{": ", ":", " :\r\n "} {
					wire := base + name + sep + value + "\r\n\r\n"
					count(wire)
					want := gen.Clone(plain)
					set(want)
					got, err := parse([]byte(wire))
					if err != nil {
						hx.Failf(t, "%q: %v", wire, err)
					}
					if d := gen.Diff(want, got); d != "" {
						hx.Failf(t, "%q:\n%s", wire, d)
					}
				}
			}
			for _, f := range forms {
				if f.name == "" {
					continue
				}
				mixed := ""
				for i, r := range f.name {
					if i%2 == 0 {
						mixed += strings.ToUpper(string(r))
					} else {
						mixed += strings.ToLower(string(r))
					}
				}
				for _, n := range []string{f.name, strings.ToUpper(f.name), strings.ToLower(f.name), mixed} {
					try(n, f.value, f.set)
				}
				var ext []string
				for i := 1; i < len(f.name); i++ {
					ext = append(ext, f.name[:i])
				}
				for _, s := range []string{"x", "-", "1", "s", f.name[len(f.name)-1:], "-Info"} {
					ext = append(ext, f.name+s)
				}
				for _, n := range ext {
					if gen.IsKnown(n) {
						continue
					}
					try(n, f.value, func(m *sip.Msg) {
						m.XHeader = &sip.XHeader{Name: n, Value: []byte(f.value), Next: m.XHeader}
					})
				}
			}
			// Content-Type and Content-Length in all forms frame a body.
			for _, ct := range []string{"Content-Type", "c", "C", "CONTENT-TYPE", "content-type"} {
				for _, cl := range []string{"Content-Length", "l", "L", "CONTENT-LENGTH", "content-length"} {
					wire := fmt.Sprintf("%s%s: text/x\r\n%s: 5\r\n\r\nhello", base, ct, cl)
					count(wire)
					got, err := parse([]byte(wire))
					if err != nil {
						hx.Failf(t, "%q: %v", wire, err)
					}
					want := gen.Clone(plain)
					want.Payload = &sip.MiscPayload{T: "text/x", D: []byte("hello")}
					if d := gen.Diff(want, got); d != "" {
						hx.Failf(t, "%q:\n%s", wire, d)
					}
				}
			}
		})
}
