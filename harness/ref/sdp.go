package ref

import (
	"fmt"
	"strings"

	"github.com/jart/gosip/sdp"
)

// Verdict on a text.
type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unspecified // the property does not say what it means
)

// Free says which fields of an accepted description the property leaves open.
type Free struct {
	Origin, Session, Time bool
}

// Static is the IANA table of static payload types, RFC 3551.
var Static = map[int]string{
	0: "PCMU/8000", 3: "GSM/8000", 4: "G723/8000", 5: "DVI4/8000", 6: "DVI4/16000", 7: "LPC/8000", 8: "PCMA/8000",
	9: "G722/8000", 10: "L16/44100/2", 11: "L16/44100", 12: "QCELP/8000", 13: "CN/8000", 14: "MPA/90000",
	15: "G728/8000", 16: "DVI4/11025", 17: "DVI4/22050", 18: "G729/8000", 25: "CelB/90000", 26: "JPEG/90000",
	28: "nv/90000", 31: "H261/90000", 32: "MPV/90000", 33: "MP2T/90000", 34: "H263/90000",
}

// decimal reads a canonical decimal number up to max.
func decimal(s string, max int) (n int, ok, odd bool) {
	if s == "" {
		return 0, false, false
	}
	if s[0] == '+' || s[0] == '-' {
		return 0, false, true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, false
		}
		n = n*10 + int(s[i]-'0')
		if n > max {
			return 0, false, false
		}
	}
	return n, true, len(s) > 1 && s[0] == '0'
}

// codec reads NAME/RATE[/PARAM].
func codec(s string) (c sdp.Codec, v Verdict) {
	parts := strings.SplitN(s, "/", 4)
	if len(parts) < 2 {
		return c, Reject
	}
	if parts[0] == "" || len(parts) == 4 {
		return c, Unspecified
	}
	n, ok, odd := decimal(parts[1], 1<<31-1)
	switch {
	case len(parts[1]) > 9 && !ok:
		return c, Unspecified
	case odd:
		return c, Unspecified
	case !ok:
		return c, Reject
	}
	c.Name, c.Rate = parts[0], n
	if len(parts) == 3 {
		c.Param = parts[2]
	}
	return c, Accept
}

func network(f []string) bool {
	return f[0] == "IN" && (f[1] == "IP4" || f[1] == "IP6") && strings.IndexByte(f[2], '/') < 0
}

// SDP reads a session description, line by line.
func SDP(s string) (d *sdp.SDP, free Free, v Verdict) {
	unspecified := false
	defer func() {
		if unspecified && v == Accept {
			v = Unspecified
		}
	}()
	d = &sdp.SDP{Time: "0 0"}
	free.Session = true
	var lines []string // well-formed ones
	first := true
	for {
		i := strings.Index(s, "\r\n")
		l := s
		if i >= 0 {
			l = s[:i]
		}
		if first && (l != "v=0" || i < 0) {
			return nil, free, Reject
		}
		if !first && len(l) >= 3 && l[1] == '=' {
			lines = append(lines, l)
		}
		first = false
		if i < 0 {
			break
		}
		s = s[i+2:]
	}
	find := func(prefix string) (all []string) {
		for _, l := range lines {
			if strings.HasPrefix(l, prefix) {
				all = append(all, l[len(prefix):])
			}
		}
		return all
	}
	// o= and c=
	os, cs := find("o="), find("c=")
	if len(os) == 0 || len(cs) == 0 {
		return nil, free, Reject
	}
	for _, o := range os {
		f := strings.Split(o, " ")
		if len(f) != 6 || !network(f[3:]) {
			if len(os) > 1 {
				return nil, free, Unspecified
			}
			return nil, free, Reject
		}
		d.Origin = sdp.Origin{User: f[0], ID: f[1], Version: f[2], Addr: f[5]}
	}
	free.Origin = len(os) > 1
	f := strings.Split(cs[0], " ")
	if len(f) != 3 || !network(f) {
		return nil, free, Reject
	}
	d.Addr = f[2]
	if l := find("s="); len(l) > 0 {
		d.Session = l[0]
		free.Session = len(l) > 1
	}
	if l := find("t="); len(l) > 0 {
		d.Time = l[0]
		free.Time = len(l) > 1
	}
	// Attributes
	for _, a := range find("a=") {
		name, value, colon := strings.Cut(a, ":")
		switch {
		case name == "":
		case colon && (name == "rtpmap" || name == "fmtp"):
		case colon && name == "ptime":
			n, ok, odd := decimal(value, 1<<31-1)
			if odd || (len(value) > 9 && !ok) {
				unspecified = true
			}
			if ok && n > 0 {
				d.Ptime = n
			}
		case a == "sendonly":
			d.SendOnly = true
		case a == "recvonly":
			d.RecvOnly = true
		case a == "sendrecv":
		default:
			d.Attrs = append(d.Attrs, [2]string{name, value})
		}
	}
	for _, l := range lines {
		if !strings.ContainsRune("mstcoa=", rune(l[0])) {
			d.Other = append(d.Other, [2]string{l[:1], l[2:]})
		}
	}
	// Media
	lookup := func(list []string, pt int) (string, bool) {
		for _, l := range list {
			if num, rest, sp := strings.Cut(l, " "); sp && num == fmt.Sprint(pt) {
				return rest, true
			}
		}
		return "", false
	}
	rtpmaps, fmtps := find("a=rtpmap:"), find("a=fmtp:")
	media := func(kind string) (*sdp.Media, Verdict) {
		all := find("m=" + kind + " ")
		if len(all) == 0 {
			return nil, Accept
		}
		if len(all) > 1 {
			return nil, Unspecified
		}
		f := strings.Split(all[0], " ")
		if all[0] == "" {
			return nil, Accept
		}
		if len(f) < 3 {
			return nil, Reject
		}
		m := &sdp.Media{Proto: f[1]}
		num, count, slash := strings.Cut(f[0], "/")
		if slash {
			if _, ok, odd := decimal(count, 1<<30); !ok || odd {
				return nil, Unspecified
			}
		}
		port, ok, odd := decimal(num, 65535)
		if odd && ok {
			unspecified = true
		}
		if !ok {
			return nil, Reject
		}
		m.Port = uint16(port)
		seen := map[int]bool{}
		for _, p := range f[2:] {
			pt, ok, odd := decimal(p, 255)
			if !ok {
				return nil, Reject
			}
			if odd || pt > 127 {
				return nil, Unspecified
			}
			if seen[pt] {
				unspecified = true
			}
			seen[pt] = true
			var c sdp.Codec
			if l, has := lookup(rtpmaps, pt); has {
				var v Verdict
				if c, v = codec(l); v != Accept {
					return nil, v
				}
			} else if l, has := Static[pt]; has {
				c, _ = codec(l)
			} else {
				return nil, Reject
			}
			c.PT = uint8(pt)
			c.Fmtp, _ = lookup(fmtps, pt)
			m.Codecs = append(m.Codecs, c)
		}
		return m, Accept
	}
	// Either one being wrong is an error, but one we cannot judge hides it.
	a, va := media("audio")
	b, vb := media("video")
	if va == Reject || vb == Reject {
		if va == Unspecified || vb == Unspecified {
			return nil, free, Unspecified
		}
		return nil, free, Reject
	}
	if va == Unspecified || vb == Unspecified {
		return nil, free, Unspecified
	}
	d.Audio, d.Video = a, b
	if a == nil && b == nil {
		return nil, free, Reject
	}
	return d, free, Accept
}
