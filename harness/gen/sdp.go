package gen

import (
	"strings"

	"github.com/jart/gosip/sdp"
	"pgregory.net/rapid"
)

// line makes non-empty text for the value of an SDP line.
func line() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 2).Draw(t, "line") {
		case 0:
			return Lengthen(t, Of(Alnum+"-._:/=; ", 1, 12).Draw(t, "plain"))
		case 1:
			return Pick(t, "odd", "0-16", "mode=20", " ", "a=b", "profile-level-id=42e01f;packetization-mode=1", "1 ufrag/x:y", "=", "é", ":", "a=sendonly", "m=audio")
		default:
			return Lengthen(t, Text(1, 10).Draw(t, "text"))
		}
	})
}

var codecNames = []string{"PCMU", "PCMA", "GSM", "telephone-event", "opus", "G729", "VP8", "H264", "x-custom", "L16", "é", "a b", "speex"}
var rates = []int{8000, 16000, 44100, 48000, 90000, 1, 2147483647}

// Codec makes codecs that differ from the static assignment of their number.
func Codec(t *rapid.T, pt uint8) sdp.Codec {
	c := sdp.Codec{PT: pt}
	c.Name = codecNames[rapid.IntRange(0, len(codecNames)-1).Draw(t, "name")]
	c.Rate = rates[rapid.IntRange(0, len(rates)-1).Draw(t, "rate")]
	if Chance(t, "hasparam", 3) {
		c.Param = Pick(t, "param", "1", "2", "6", "x", "channels 2")
	}
	if Chance(t, "hasfmtp", 2) {
		c.Fmtp = line().Draw(t, "fmtp")
	}
	return c
}

// PTs makes distinct payload types; prefixes of one another are common.
func PTs(t *rapid.T, min, max int) []uint8 {
	return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) uint8 {
		if rapid.Bool().Draw(t, "edge") {
			e := []uint8{0, 1, 10, 100, 11, 110, 111, 101, 8, 9, 96, 127, 12, 120, 95, 35, 34, 3}
			return e[rapid.IntRange(0, len(e)-1).Draw(t, "e")]
		}
		return rapid.Uint8Range(0, 127).Draw(t, "pt")
	}), min, max, rapid.ID[uint8]).Draw(t, "pts")
}

// SDPOptions restricts SDP.
type SDPOptions struct {
	NeedAudio bool
	Simple    bool // small
}

// SDP makes well-formed session descriptions.
func SDP(o SDPOptions) *rapid.Generator[*sdp.SDP] {
	return rapid.Custom(func(t *rapid.T) *sdp.SDP {
		s := &sdp.SDP{}
		s.Origin.User = Pick(t, "user", "-", "root", "jart", "o=x", "é")
		s.Origin.ID = Lengthen(t, Of(Digits, 1, 10).Draw(t, "id"))
		s.Origin.Version = Lengthen(t, Of(Digits, 1, 10).Draw(t, "version"))
		s.Origin.Addr = AnyHost().Draw(t, "oaddr")
		s.Addr = AnyHost().Draw(t, "caddr")
		s.Session = line().Draw(t, "session")
		s.Time = Pick(t, "time", "0 0", "0 1", "2873397496 2873404696", "x")
		kind := rapid.IntRange(0, 3).Draw(t, "media")
		max := 6
		if o.Simple {
			max = 3
		}
		min := 2
		if n := Count(t, "codecs", min, max); n > max {
			min, max = n, n
		}
		pts := PTs(t, min, max)
		na := rapid.IntRange(1, len(pts)-1).Draw(t, "na")
		media := func(pts []uint8) *sdp.Media {
			m := &sdp.Media{}
			m.Port = Port().Draw(t, "mport")
			m.Proto = Pick(t, "proto", "RTP/AVP", "RTP/SAVPF", "UDP", "TCP/IP", "x")
			for _, pt := range pts {
				m.Codecs = append(m.Codecs, Codec(t, pt))
			}
			return m
		}
		switch {
		case kind <= 1:
			s.Audio = media(pts[:na])
		case kind == 2 && !o.NeedAudio:
			s.Video = media(pts[na:])
		default:
			s.Audio = media(pts[:na])
			s.Video = media(pts[na:])
		}
		if rapid.Bool().Draw(t, "hasptime") {
			s.Ptime = []int{1, 20, 30, 10, 2147483647}[rapid.IntRange(0, 4).Draw(t, "ptime")]
		}
		switch rapid.IntRange(0, 2).Draw(t, "dir") {
		case 1:
			s.SendOnly = true
		case 2:
			s.RecvOnly = true
		}
		for n := Count(t, "attrs", 0, 3); n > 0; n-- {
			a := [2]string{Attr().Draw(t, "attr"), ""}
			if rapid.Bool().Draw(t, "hasvalue") {
				a[1] = line().Draw(t, "value")
			}
			s.Attrs = append(s.Attrs, a)
		}
		for n := Count(t, "others", 0, 2); n > 0; n-- {
			s.Other = append(s.Other, [2]string{Other().Draw(t, "key"), line().Draw(t, "other")})
		}
		return s
	})
}

// Attr makes names of attributes that mean nothing to SDP itself.
func Attr() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		s := Pick(t, "attrname", "silenceSupp", "x", "inactive", "maxptime", "rtcp", "candidate", "rtpmapx", "fmtpx", "ptimes", "sendrecvx",
			"xsendonly", "recvonly2", "Sendonly", "RTPMAP", "crypto", "é")
		if Chance(t, "anyattr", 4) {
			s = Token().Draw(t, "attrtoken")
		}
		switch s {
		case "rtpmap", "fmtp", "ptime", "sendrecv", "sendonly", "recvonly":
			s += "x"
		}
		return s
	})
}

// Other makes types of lines other than v o s c t m a.
func Other() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return Pick(t, "type", strings.Split("b,k,e,p,u,i,r,z,x,B,S,0", ",")...)
	})
}
