package sdpcheck

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
	"testing"

	"github.com/jart/gosip/sdp"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func TestC13RoundTrip(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 150000, Thorough: 10000000},
		"well-formed session descriptions with every field generated; non-trivial: at least 2 codecs, or a codec and an attribute or unknown line",
		func(t *rapid.T, c *hx.Case) {
			s := gen.SDP(gen.SDPOptions{}).Draw(t, "sdp")
			n := len(s.Attrs) + len(s.Other)
			for _, m := range []*sdp.Media{s.Audio, s.Video} {
				if m != nil {
					n += len(m.Codecs)
				}
			}
			text := s.String()
			if n >= 2 {
				c.NonTrivial(text)
			}
			c.Samplef("%q", text)
			switch {
			case s.Audio != nil && s.Video != nil:
				c.Class("audio+video")
			case s.Audio != nil:
				c.Class("audio")
			default:
				c.Class("video")
			}
			before := gen.Dump(s)
			if d := s.Data(); string(d) != text {
				t.Fatalf("Data is not String:\n%q\n%q", d, text)
			}
			if s.ContentType() != "application/sdp" {
				t.Fatalf("content type %q", s.ContentType())
			}
			if gen.Dump(s) != before {
				t.Fatalf("formatting changed the description:\n%s", gen.DiffText(before, gen.Dump(s)))
			}
			var b bytes.Buffer
			b.WriteString("before")
			s.Append(&b)
			if b.String() != "before"+text {
				t.Fatalf("Append wrote something else than String: %q", b.String())
			}
			got, err := sdp.Parse(text)
			if err != nil {
				t.Fatalf("%v\nin %q", err, text)
			}
			if d := gen.Diff(s, got); d != "" {
				t.Fatalf("%s\nin %q", d, text)
			}
			if again := got.String(); again != text {
				t.Fatalf("second time:\n%q\nfirst time:\n%q", again, text)
			}
			for _, l := range []struct{ key, addr string }{{"\r\nc=IN IP%s %s\r\n", s.Addr}, {" IN IP%s %s\r\n", s.Origin.Addr}} {
				v := "4"
				if strings.Contains(l.addr, ":") {
					v = "6"
				}
				if want := fmt.Sprintf(l.key, v, l.addr); !strings.Contains(text, want) {
					t.Fatalf("no %q in %q", want, text)
				}
			}
		})
}

// The text has only the lines it should have, each in its place.
func TestC13Lines(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 60000, Thorough: 3000000},
		"well-formed session descriptions, the lines of whose text are compared with the order RFC 4566 asks for; non-trivial: any",
		func(t *rapid.T, c *hx.Case) {
			s := gen.SDP(gen.SDPOptions{}).Draw(t, "sdp")
			text := s.String()
			c.NonTrivial(text)
			c.Samplef("%q", text)
			if !strings.HasSuffix(text, "\r\n") {
				t.Fatalf("the last line has no end: %q", text)
			}
			lines := strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n")
			count := map[string]int{}
			media := ""
			owner := map[string]string{}
			for _, k := range []struct {
				name string
				m    *sdp.Media
			}{{"audio", s.Audio}, {"video", s.Video}} {
				if k.m != nil {
					for _, cd := range k.m.Codecs {
						owner[fmt.Sprint(cd.PT)] = k.name
					}
				}
			}
			for i, l := range lines {
				if len(l) < 3 || l[1] != '=' {
					t.Fatalf("line %q in %q", l, text)
				}
				if i == 0 && l != "v=0" || i == 1 && l[0] != 'o' || i == 2 && l[0] != 's' {
					t.Fatalf("line %d is %q in %q", i, l, text)
				}
				count[l[:1]]++
				if l[0] == 'm' {
					media, _, _ = strings.Cut(l[2:], " ")
				}
				for _, p := range []string{"a=rtpmap:", "a=fmtp:"} {
					if rest, ok := strings.CutPrefix(l, p); ok {
						pt, _, _ := strings.Cut(rest, " ")
						if owner[pt] != media {
							t.Fatalf("line %q follows m=%s in %q", l, media, text)
						}
						count[p]++
					}
				}
			}
			nm, nr, nf, no := 0, 0, 0, map[string]int{}
			for _, m := range []*sdp.Media{s.Audio, s.Video} {
				if m != nil {
					nm++
					for _, cd := range m.Codecs {
						nr++
						if cd.Fmtp != "" {
							nf++
						}
					}
				}
			}
			for _, o := range s.Other {
				no[o[0]]++
			}
			want := map[string]int{"v": 1, "o": 1, "s": 1, "c": 1, "t": 1, "m": nm, "a=rtpmap:": nr, "a=fmtp:": nf}
			for k, n := range no {
				want[k] += n
			}
			for k, n := range want {
				if count[k] != n {
					t.Fatalf("%d lines %s, not %d in %q", count[k], k, n, text)
				}
			}
			// Every attribute is written as it is, and nothing else.
			var attrs, got []string
			for _, m := range []*sdp.Media{s.Audio, s.Video} {
				if m != nil {
					for _, cd := range m.Codecs {
						l := fmt.Sprintf("a=rtpmap:%d %s/%d", cd.PT, cd.Name, cd.Rate)
						if cd.Param != "" {
							l += "/" + cd.Param
						}
						attrs = append(attrs, l)
						if cd.Fmtp != "" {
							attrs = append(attrs, fmt.Sprintf("a=fmtp:%d %s", cd.PT, cd.Fmtp))
						}
					}
				}
			}
			for _, a := range s.Attrs {
				l := "a=" + a[0]
				if a[1] != "" {
					l += ":" + a[1]
				}
				attrs = append(attrs, l)
			}
			if s.Ptime != 0 {
				attrs = append(attrs, fmt.Sprintf("a=ptime:%d", s.Ptime))
			}
			switch {
			case s.SendOnly:
				attrs = append(attrs, "a=sendonly")
			case s.RecvOnly:
				attrs = append(attrs, "a=recvonly")
			}
			for _, l := range lines {
				if l[0] == 'a' && l != "a=sendrecv" {
					got = append(got, l)
				}
			}
			for _, o := range s.Other {
				if o[0] == "a" {
					attrs = append(attrs, "a="+o[1])
				}
			}
			sort.Strings(attrs)
			sort.Strings(got)
			if strings.Join(attrs, "\n") != strings.Join(got, "\n") {
				t.Fatalf("the attributes are\n%q, not\n%q, in %q", got, attrs, text)
			}
		})
}

// What is left empty gets a default that parses; nothing else changes.
func TestC13Defaults(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 60000, Thorough: 3000000},
		"descriptions made by New for a random address and codecs, and generated ones with random fields cleared; non-trivial: at least 2 codecs or 2 cleared fields",
		func(t *rapid.T, c *hx.Case) {
			var s *sdp.SDP
			cleared := 0
			if rapid.Bool().Draw(t, "new") {
				c.Class("New")
				ip := net.IP(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip4"))
				if rapid.Bool().Draw(t, "v6") {
					ip = net.IP(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "ip6"))
					ip[0] = 0x20
				}
				addr := &net.UDPAddr{IP: ip, Port: rapid.IntRange(0, 65535).Draw(t, "port")}
				var codecs []sdp.Codec
				for _, pt := range gen.PTs(t, 1, 5) {
					codecs = append(codecs, gen.Codec(t, pt))
				}
				s = sdp.New(addr, codecs...)
				if s.Addr != ip.String() || s.Origin.Addr != ip.String() || s.Origin.ID == "" || s.Origin.Version == "" ||
					s.Audio == nil || s.Audio.Proto != "RTP/AVP" || s.Audio.Port != uint16(addr.Port) || s.Video != nil {
					t.Fatalf("New(%v) = %s", addr, gen.Dump(s))
				}
				if d := gen.Diff(codecs, s.Audio.Codecs); d != "" {
					t.Fatalf("New changed the codecs: %s", d)
				}
				// The caller may use its list again.
				before := gen.Dump(s)
				for i := range codecs {
					codecs[i] = sdp.Codec{PT: 99, Name: "changed"}
				}
				if gen.Dump(s) != before {
					t.Fatalf("the description changes with the list given to New:\n%s", gen.DiffText(before, gen.Dump(s)))
				}
				cleared = len(codecs)
			} else {
				s = gen.SDP(gen.SDPOptions{}).Draw(t, "sdp")
				maybe := func(p *string) {
					if rapid.Bool().Draw(t, "clear") {
						*p = ""
						cleared++
					}
				}
				maybe(&s.Session)
				maybe(&s.Time)
				maybe(&s.Origin.User)
				maybe(&s.Origin.Version)
				maybe(&s.Origin.ID)
				for _, m := range []*sdp.Media{s.Audio, s.Video} {
					if m != nil {
						maybe(&m.Proto)
					}
				}
			}
			text := s.String()
			if cleared >= 2 {
				c.NonTrivial(text)
			}
			c.Samplef("%q", text)
			got, err := sdp.Parse(text)
			if err != nil {
				t.Fatalf("%v\nin %q", err, text)
			}
			check := func(what string, in *string, out string, def string) {
				if *in != "" {
					return
				}
				if out == "" || def != "" && out != def {
					t.Fatalf("%s is %q by default in %q", what, out, text)
				}
				*in = out
			}
			check("session", &s.Session, got.Session, "")
			check("time", &s.Time, got.Time, "0 0")
			check("user", &s.Origin.User, got.Origin.User, "")
			check("id", &s.Origin.ID, got.Origin.ID, "")
			check("version", &s.Origin.Version, got.Origin.Version, "")
			for _, m := range [][2]*sdp.Media{{s.Audio, got.Audio}, {s.Video, got.Video}} {
				if m[0] != nil && m[1] != nil {
					check("proto", &m[0].Proto, m[1].Proto, "RTP/AVP")
				}
			}
			if d := gen.Diff(s, got); d != "" {
				t.Fatalf("%s\nin %q", d, text)
			}
			if again := got.String(); again != text && s.Origin.ID == got.Origin.ID {
				t.Fatalf("second time:\n%q\nfirst time:\n%q", again, text)
			}
		})
}
