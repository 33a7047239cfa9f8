// Package ref has reference models of parts of SIP, SDP, RTP and G.711. They
// are written from the standards, in a different style from the code under
// test: recursive descent and tables where that has state machines and assembly.
package ref

import (
	"strconv"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/gen"
)

// unescape decodes text made of plain characters and percent escapes. It
// reports false for any other text, and for none at all.
func unescape(s, plain string) (string, bool) {
	if s == "" {
		return "", false
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			if strings.IndexByte(plain, s[i]) < 0 {
				return "", false
			}
			b = append(b, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		v, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
		if err != nil || strings.ContainsAny(s[i+1:i+3], "+-_") {
			return "", false
		}
		b = append(b, byte(v))
		i += 2
	}
	return string(b), true
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// pair decodes name[=value].
func pair(s, plain string) (name, value string, ok bool) {
	i := strings.IndexByte(s, '=')
	if i < 0 {
		name, ok = unescape(s, plain)
		return name, "", ok
	}
	if name, ok = unescape(s[:i], plain); !ok {
		return "", "", false
	}
	value, ok = unescape(s[i+1:], plain)
	return name, value, ok
}

// URI parses scheme:[user[:password]@]host[:port](;n[=v])*[?n[=v](&n[=v])*].
func URI(s string) (*sip.URI, bool) {
	u := &sip.URI{}
	i := strings.IndexByte(s, ':')
	if i < 1 || !gen.Is(s[:1], gen.Alpha) || !gen.Is(s[:i], gen.SchemeC) {
		return nil, false
	}
	u.Scheme = lower(s[:i])
	s = s[i+1:]
	if i := strings.IndexByte(s, '@'); i >= 0 {
		user := s[:i]
		s = s[i+1:]
		var ok bool
		if j := strings.IndexByte(user, ':'); j >= 0 {
			if u.Pass, ok = unescape(user[j+1:], gen.PassC); !ok {
				return nil, false
			}
			user = user[:j]
		}
		if u.User, ok = unescape(user, gen.UserC); !ok {
			return nil, false
		}
	}
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		if i < 2 || !gen.Is(s[1:i], gen.Digits+"abcdefABCDEF.:") {
			return nil, false
		}
		u.Host = lower(s[1:i])
		s = s[i+1:]
	} else {
		i := 0
		for i < len(s) && strings.IndexByte(gen.HostC+"+", s[i]) >= 0 {
			i++
		}
		if i == 0 {
			return nil, false
		}
		u.Host = lower(s[:i])
		s = s[i:]
	}
	if strings.HasPrefix(s, ":") {
		i := 1
		for i < len(s) && '0' <= s[i] && s[i] <= '9' {
			i++
		}
		p, err := strconv.ParseUint(s[1:i], 10, 16)
		if err != nil {
			return nil, false
		}
		u.Port = uint16(p)
		s = s[i:]
	}
	headers, hasHeaders := "", false
	if i := strings.IndexByte(s, '?'); i >= 0 {
		s, headers, hasHeaders = s[:i], s[i+1:], true
	}
	if s != "" {
		if s[0] != ';' {
			return nil, false
		}
		for _, p := range strings.Split(s[1:], ";") {
			n, v, ok := pair(p, gen.ParamC)
			if !ok {
				return nil, false
			}
			u.Param = &sip.URIParam{Name: n, Value: v, Next: u.Param}
		}
	}
	if hasHeaders {
		for _, h := range strings.Split(headers, "&") {
			n, v, ok := pair(h, gen.HeaderC)
			if !ok {
				return nil, false
			}
			u.Header = &sip.URIHeader{Name: n, Value: v, Next: u.Header}
		}
	}
	return u, true
}
