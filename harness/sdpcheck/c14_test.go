package sdpcheck

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jart/gosip/sdp"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

// same compares the parser with the reference reader on a text.
func same(t hx.Failer, c *hx.Case, text string) ref.Verdict {
	want, free, v := ref.SDP(text)
	got, err := sdp.Parse(text)
	if (got == nil) != (err != nil) {
		t.Fatalf("both or neither: %v, %v\nin %q", got, err, text)
	}
	switch v {
	case ref.Unspecified:
		c.Class("unspecified")
		return v
	case ref.Reject:
		c.Class("invalid")
		if err == nil {
			t.Fatalf("accepted %q", text)
		}
		return v
	}
	c.Class("valid")
	if err != nil {
		t.Fatalf("%v\nin %q", err, text)
	}
	cp := *got
	if free.Origin {
		cp.Origin = want.Origin
	}
	if free.Session {
		cp.Session = want.Session
	}
	if free.Time {
		cp.Time = want.Time
	}
	if d := gen.Diff(want, &cp); d != "" {
		t.Fatalf("%s\nin %q", d, text)
	}
	return v
}

func anyPT(t *rapid.T) string {
	return gen.Pick(t, "pt", "0", "8", "3", "18", "9", "101", "96", "111", "10", "1", "100", "34", "13", "95", "127", "31", "2", "11", "110")
}

// aLine makes a line of any kind, mostly well-formed.
func aLine(t *rapid.T, kind string) string {
	switch kind {
	case "o":
		return gen.Pick(t, "o", "o=root 31589 31589 IN IP4 10.0.0.38", "o=- 1 2 IN IP6 ::1", "o=a b c IN IP4 x", "o=root 31589 IN IP4 10.0.0.38", "o=root 1 1 IN IP5 1.2.3.4",
			"o=root 1 1 in IP4 1.2.3.4", "o=root 1 1 IN IP4 1.2.3.4/8", "o=root 1 1 IN IP4 1.2.3.4 x", "o=", "o=é é é IN IP4 é", "o=  1 IN IP4 1.2.3.4")
	case "c":
		return gen.Pick(t, "c", "c=IN IP4 10.0.0.38", "c=IN IP6 dead:beef::666", "c=IN IP4 host.example", "c=IN IP4 1.1.1.1", "c=IN IP4 2.2.2.2", "c=IN IP4", "c=IN IP4 1.1.1.1 2", "c=IN IP4 224.2.1.1/127", "c=OUT IP4 1.1.1.1", "c=IN IP7 1.1.1.1", "c=")
	case "s":
		return gen.Pick(t, "s", "s=-", "s=session", "s= ", "s=", "s=a=b c", "s=é")
	case "t":
		return gen.Pick(t, "t", "t=0 0", "t=1 2", "t=", "t=x")
	case "m":
		var b strings.Builder
		b.WriteString("m=" + gen.Pick(t, "kind", "audio", "audio", "audio", "video", "video", "application", "audiox", "AUDIO"))
		b.WriteString(" " + gen.Pick(t, "port", "30126", "0", "65535", "65536", "30126/2", "1", "-1", "x", "", "/2", "99999999999999999999", "16384"))
		b.WriteString(" " + gen.Pick(t, "proto", "RTP/AVP", "RTP/AVP", "UDP", "TCP/IP", "x"))
		for n := rapid.IntRange(0, 5).Draw(t, "npt"); n > 0; n-- {
			b.WriteString(" " + anyPT(t))
		}
		if gen.Chance(t, "oddpt", 6) {
			b.WriteString(gen.Pick(t, "oddpt", " ", " x", " 256", " 300", " -1", " 128", " 1000", " 0x1"))
		}
		return b.String()
	case "rtpmap":
		return "a=rtpmap:" + anyPT(t) + gen.Pick(t, "rsep", " ", " ", " ", " ", "", "  ", ":") +
			gen.Pick(t, "map", "PCMU/8000", "opus/48000/2", "telephone-event/8000", "H264/90000", "x/1", "x", "x/", "x/y", "x/8000/", "x/8000/6/7", "/8000", "x/99999999999999999999", "x/-1", "é/1/é", "")
	case "fmtp":
		return "a=fmtp:" + anyPT(t) + gen.Pick(t, "fsep", " ", " ", " ", "", ":") + gen.Pick(t, "fmtp", "0-16", "mode=20", "profile-level-id=42;x=1", "", " ", "é")
	case "ptime":
		return "a=ptime:" + gen.Pick(t, "ptime", "20", "30", "1", "0", "-1", "x", "", "20x", "2147483647", "99999999999999999999", "10")
	case "dir":
		return "a=" + gen.Pick(t, "dir", "sendrecv", "sendonly", "recvonly", "inactive", "sendonly:x", "Sendonly", "recvonly ")
	case "attr":
		return "a=" + gen.Attr().Draw(t, "attr") + gen.Pick(t, "value", "", ":", ":x", ":a:b", ": ", "=x", " x")
	case "other":
		return gen.Other().Draw(t, "key") + "=" + gen.Pick(t, "value", "x", "AS:64", "a=b", " ", "", "é")
	default:
		return gen.Pick(t, "junk", "", "x", "xx", "xxx", "=", "==", "==x", "a", "a=", "v=0", "v=1", "a=:x", "a=:", "audio", "m=audio ", "m=audio", "m=", " o=x", "\x00=\x00", "é=x", "\t", "a=rtpmap:", "a=fmtp:", "a=ptime:", "c", "a=x\ny", "s=\r")
	}
}

var kinds = []string{"o", "c", "s", "t", "m", "m", "rtpmap", "rtpmap", "rtpmap", "fmtp", "fmtp", "ptime", "dir", "attr", "other", "junk"}

func TestC14Lines(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 250000, Thorough: 20000000},
		"descriptions put together from lines of every kind, well-formed and not, omitted, repeated and in any order, compared with the reference reader; non-trivial: accepted or rejected by the reference for another reason than a missing line",
		func(t *rapid.T, c *hx.Case) {
			var lines []string
			if gen.Chance(t, "free", 4) {
				for n := rapid.IntRange(0, 12).Draw(t, "n"); n > 0; n-- {
					lines = append(lines, aLine(t, kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "k")]))
				}
			} else {
				// A valid frame around them.
				lines = append(lines, "o=root 31589 31589 IN IP4 10.0.0.38", "c=IN IP4 10.0.0.38", "m=audio 30126 RTP/AVP 0 101", "a=rtpmap:101 telephone-event/8000")
				for n := rapid.IntRange(1, 8).Draw(t, "n"); n > 0; n-- {
					l := aLine(t, kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "k")])
					i := rapid.IntRange(0, len(lines)).Draw(t, "at")
					if i < len(lines) && gen.Chance(t, "replace", 3) {
						lines[i] = l
					} else {
						lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
					}
				}
			}
			text := "v=0\r\n" + strings.Join(lines, "\r\n")
			if rapid.IntRange(0, 9).Draw(t, "end") > 0 {
				text += "\r\n"
			}
			if gen.Chance(t, "start", 30) {
				text = gen.Pick(t, "wrong", "", "v=1\r\n", "\r\nv=0\r\n", "v=0\n", "V=0\r\n", " v=0\r\n") + text[5:]
			}
			c.Samplef("%q", text)
			if v := same(t, c, text); v == ref.Accept || v == ref.Reject && strings.Contains(text, "\r\no=") && strings.Contains(text, "\r\nc=") && strings.Contains(text, "\r\nm=") {
				c.NonTrivial(text)
			}
		})
}

// A valid description in any order of its attribute lines, with static codecs
// left undescribed.
func TestC14Orders(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 120000, Thorough: 10000000},
		"well-formed descriptions whose lines are written in random order, with some static payload types left without rtpmap, unused rtpmaps and unknown lines put in between, and a few byte edits in one of five; non-trivial: accepted",
		func(t *rapid.T, c *hx.Case) {
			s := gen.SDP(gen.SDPOptions{}).Draw(t, "sdp")
			for _, m := range []*sdp.Media{s.Audio, s.Video} {
				if m == nil {
					continue
				}
				used := map[uint8]bool{}
				for _, k := range []*sdp.Media{s.Audio, s.Video} {
					if k != nil {
						for i := range k.Codecs {
							used[k.Codecs[i].PT] = true
						}
					}
				}
				for i := range m.Codecs {
					if gen.Chance(t, "static", 2) {
						pts := []uint8{0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 25, 26, 28, 31, 32, 33, 34}
						pt := pts[rapid.IntRange(0, len(pts)-1).Draw(t, "pt")]
						if used[pt] {
							continue
						}
						used[pt] = true
						m.Codecs[i] = sdp.Codec{PT: pt}
					}
				}
			}
			text := s.String()
			var lines []string
			for _, l := range strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n")[1:] {
				if strings.HasPrefix(l, "a=rtpmap:") && strings.HasSuffix(l, " /0") {
					continue // a codec left to the table
				}
				lines = append(lines, l)
			}
			// Attributes keep their order among themselves so that the
			// expected lists are what was generated.
			for n := rapid.IntRange(0, 3).Draw(t, "extra"); n > 0; n-- {
				l := gen.Pick(t, "extra", "a=rtpmap:200 x/1", "a=rtpmap:1000 x", "a=fmtp:1000 x", "m=application 9 DTLS/SCTP 5000", "zz", "a=ptime:0", "a=ptime:x", "a=sendrecv", "", "a", "x=", "c=IN IP4 99.99.99.99", "c=bad")
				i := rapid.IntRange(0, len(lines)).Draw(t, "at")
				if strings.HasPrefix(l, "c=") {
					i = len(lines)
				}
				lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
			}
			plain := !gen.Chance(t, "order", 2)
			if !plain {
				lines = rapid.Permutation(lines).Draw(t, "lines")
			}
			text = "v=0\r\n" + strings.Join(lines, "\r\n") + "\r\n"
			if gen.Chance(t, "edit", 5) {
				plain = false
				text = string(gen.MutateBytes(t, []byte(text)))
			}
			c.Samplef("%q", text)
			if same(t, c, text) == ref.Accept {
				c.NonTrivial(text)
			}
			if !plain {
				return
			}
			// Independent of the reader: it is what was generated.
			got, err := sdp.Parse(text)
			if err != nil {
				t.Fatalf("%v\nin %q", err, text)
			}
			for _, m := range []*sdp.Media{s.Audio, s.Video} {
				if m == nil {
					continue
				}
				for i := range m.Codecs {
					if k := &m.Codecs[i]; k.Name == "" {
						p := strings.Split(ref.Static[int(k.PT)]+"/", "/")
						k.Name, k.Param = p[0], p[2]
						fmt.Sscan(p[1], &k.Rate)
					}
				}
			}
			if d := gen.Diff(s, got); d != "" {
				t.Fatalf("%s\nin %q", d, text)
			}
		})
}

// Every payload type, described and not.
func TestC14Table(t *testing.T) {
	hx.Exhaustive(t, "all payload types 0-127, as audio and video, alone and after another, with and without an rtpmap and an fmtp, against the IANA table", func(count func(string)) {
		for pt := 0; pt < 128; pt++ {
			for _, kind := range []string{"audio", "video"} {
				for _, others := range []string{"", "96 ", "0 "} {
					for _, maps := range []string{"", fmt.Sprintf("a=rtpmap:%d name/1234/5\r\n", pt), fmt.Sprintf("a=rtpmap:%d1 name/1234/5\r\n", pt), fmt.Sprintf("a=rtpmap:%d name\r\n", pt)} {
						for _, fmtp := range []string{"", fmt.Sprintf("a=fmtp:%d x\r\n", pt), fmt.Sprintf("a=fmtp:1%d x\r\n", pt)} {
							text := fmt.Sprintf("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=%s 5000 RTP/AVP %s%d\r\na=rtpmap:96 a/1\r\n%s%s", kind, others, pt, maps, fmtp)
							count(text)
							want, _, v := ref.SDP(text)
							got, err := sdp.Parse(text)
							if v == ref.Unspecified {
								continue
							}
							if (v == ref.Accept) != (err == nil) {
								hx.Failf(t, "%v, but should be valid: %v\nin %q", err, v == ref.Accept, text)
							}
							if v == ref.Accept && gen.Diff(want, got) != "" {
								hx.Failf(t, "%s\nin %q", gen.Diff(want, got), text)
							}
						}
					}
				}
			}
		}
		// The exported table is the registry.
		if len(sdp.StandardCodecs) != len(ref.Static) {
			hx.Failf(t, "%d static payload types, not %d", len(sdp.StandardCodecs), len(ref.Static))
		}
		// The codecs that have names are what their lines would say.
		for _, k := range []struct {
			codec sdp.Codec
			pt    int
			lines string
		}{
			{sdp.ULAWCodec, 0, ""},
			{sdp.DTMFCodec, 101, "a=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\n"},
			{sdp.Opus, 111, "a=rtpmap:111 opus/48000/2\r\n"},
		} {
			text := fmt.Sprintf("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 5000 RTP/AVP %d\r\n%s", k.pt, k.lines)
			count(text)
			got, err := sdp.Parse(text)
			if err != nil {
				hx.Failf(t, "%v in %q", err, text)
			}
			if d := gen.Diff([]sdp.Codec{k.codec}, got.Audio.Codecs); d != "" {
				hx.Failf(t, "%s\nin %q", d, text)
			}
		}
	})
}
