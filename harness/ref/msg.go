package ref

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/jart/gosip/sip"

	"verif/gen"
)

// Header is a header line as it stands in a message.
type Header struct{ Name, Value string }

// Raw takes a message apart into its lines and its body.
func Raw(wire string) (start string, hs []Header, body string, err error) {
	i := strings.Index(wire, "\r\n\r\n")
	if i < 0 {
		return "", nil, "", fmt.Errorf("no blank line")
	}
	head, body := wire[:i+2], wire[i+4:]
	next := func() string {
		for i := 0; ; {
			j := strings.Index(head[i:], "\r\n") + i
			if j+2 == len(head) || head[j+2] != ' ' && head[j+2] != '\t' {
				l := head[:j]
				head = head[j+2:]
				return l
			}
			i = j + 2
		}
	}
	start = next()
	for head != "" {
		l := next()
		c := strings.IndexByte(l, ':')
		if c < 1 {
			return "", nil, "", fmt.Errorf("no header: %q", l)
		}
		hs = append(hs, Header{l[:c], strings.TrimLeft(l[c+1:], " \t")})
	}
	return start, hs, body, nil
}

// number reads a decimal number.
func number(s string) (int, error) {
	if s == "" || strings.Trim(s, gen.Digits) != "" {
		return 0, fmt.Errorf("no number: %q", s)
	}
	return strconv.Atoi(s)
}

// version reads x.y.
func version(m *sip.Msg, s string) error {
	a, b, ok := strings.Cut(s, ".")
	x, err1 := number(a)
	y, err2 := number(b)
	if !ok || err1 != nil || err2 != nil || x > 255 || y > 255 {
		return fmt.Errorf("no version: %q", s)
	}
	m.VersionMajor, m.VersionMinor = uint8(x), uint8(y)
	return nil
}

// split cuts at a separator outside of quotes and angle brackets.
func split(s string, sep byte) []string {
	var out []string
	quoted, angle, from := false, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case quoted && c == '\\':
			i++
		case c == '"':
			quoted = !quoted
		case quoted:
		case c == '<':
			angle = true
		case c == '>':
			angle = false
		case c == sep && !angle:
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return append(out, s[from:])
}

// unquote decodes a token or a quoted string.
func unquote(s string) (string, error) {
	if !strings.HasPrefix(s, `"`) {
		if s == "" {
			return "", fmt.Errorf("nothing")
		}
		return s, nil
	}
	if len(s) < 2 || s[len(s)-1] != '"' {
		return "", fmt.Errorf("quotes: %q", s)
	}
	var b []byte
	for i := 1; i < len(s)-1; i++ {
		if s[i] == '"' {
			return "", fmt.Errorf("quotes: %q", s)
		}
		if s[i] == '\\' {
			if i++; i == len(s)-1 {
				return "", fmt.Errorf("quotes: %q", s)
			}
			if ' ' <= s[i] && s[i] <= '~' && s[i] != '"' && s[i] != '\\' {
				return "", fmt.Errorf("needless escape: %q", s)
			}
		}
		b = append(b, s[i])
	}
	return string(b), nil
}

// params reads the parts of a list of parameters.
func params(parts []string) (p *sip.Param, err error) {
	for _, s := range parts {
		n, v, ok := strings.Cut(s, "=")
		if n = strings.Trim(n, " \t"); !gen.Is(n, gen.TokenC) {
			return nil, fmt.Errorf("parameter %q", s)
		}
		if ok {
			v = strings.Trim(v, " \t")
			if !strings.HasPrefix(v, `"`) && !gen.Is(v, gen.TokenC+"[]:") {
				return nil, fmt.Errorf("parameter %q", s)
			}
			quoted := v[:min(1, len(v))] == `"`
			if v, err = unquote(v); err != nil {
				return nil, err
			}
			if quoted && v != "" && gen.Is(v, gen.TokenC) {
				return nil, fmt.Errorf("needless quotes: %q", s)
			}
		}
		p = &sip.Param{Name: n, Value: v, Next: p}
	}
	return p, nil
}

// plainPort finds a port that is spelled out as zero or with leading zeros.
func plainPort(host string) error {
	if i := strings.LastIndexByte(host, ':'); i >= 0 && !strings.HasSuffix(host, "]") && strings.HasPrefix(host[i+1:]+"0", "0") {
		return fmt.Errorf("port in %q", host)
	}
	return nil
}

// uri reads a URI as it should be written.
func uri(s string) (*sip.URI, error) {
	u, ok := URI(s)
	if !ok {
		return nil, fmt.Errorf("no URI: %q", s)
	}
	return u, PlainURI(s)
}

// PlainURI sees that a URI has a port only if it is one, and percent escapes
// only where they are needed.
func PlainURI(s string) error {
	h := s[strings.IndexByte(s, ':')+1:]
	if i := strings.IndexByte(h, '@'); i >= 0 {
		user, pass, _ := strings.Cut(h[:i], ":")
		if err := plainText(user, gen.UserC); err != nil {
			return err
		}
		if err := plainText(pass, gen.PassC); err != nil {
			return err
		}
		h = h[i+1:]
	}
	h, headers, _ := strings.Cut(h, "?")
	if err := plainText(headers, gen.HeaderC); err != nil {
		return err
	}
	h, params, _ := strings.Cut(h, ";")
	if err := plainText(params, gen.ParamC); err != nil {
		return err
	}
	return plainPort(h)
}

// plainText finds an escape of a character that can be written as it is.
func plainText(s, plain string) error {
	for i := 0; i+2 < len(s); i++ {
		if s[i] == '%' {
			if x, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil && strings.IndexByte(plain, byte(x)) >= 0 {
				return fmt.Errorf("needless escape %q", s[i:i+3])
			}
		}
	}
	return nil
}

// Addrs reads a list of addresses.
func Addrs(s string) (*sip.Addr, error) {
	var first *sip.Addr
	end := &first
	for _, e := range split(s, ',') {
		a := &sip.Addr{}
		e = strings.Trim(e, " \t\r\n")
		parts := split(e, ';')
		i, j := strings.LastIndexByte(parts[0], '<'), len(parts[0])-1
		if i < 0 || parts[0][j] != '>' {
			return nil, fmt.Errorf("no address: %q", e)
		}
		var err error
		if a.Uri, err = uri(parts[0][i+1 : j]); err != nil {
			return nil, err
		}
		if d := strings.Trim(parts[0][:i], " \t"); d != "" {
			if d[0] != '"' && (!gen.Is(d, gen.TokenC+" ") || d == parts[0][:i]) {
				return nil, fmt.Errorf("display name %q", parts[0])
			}
			if a.Display, err = unquote(d); err != nil {
				return nil, err
			}
			if n := a.Display; d[0] == '"' && n != "" && gen.Is(n, gen.TokenC) {
				return nil, fmt.Errorf("needless quotes: %q", e)
			}
		}
		if a.Param, err = params(parts[1:]); err != nil {
			return nil, err
		}
		*end = a
		end = &a.Next
	}
	return first, nil
}

// Vias reads a list of Vias.
func Vias(s string) (*sip.Via, error) {
	var first *sip.Via
	end := &first
	for _, e := range split(s, ',') {
		v := &sip.Via{}
		parts := split(strings.Trim(e, " \t"), ';')
		f := strings.Fields(parts[0])
		if len(f) != 2 {
			return nil, fmt.Errorf("Via %q", e)
		}
		p := strings.Split(f[0], "/")
		if len(p) != 3 || !gen.Is(p[0], gen.TokenC) || !gen.Is(p[1], gen.TokenC) || !gen.Is(p[2], gen.TokenC) {
			return nil, fmt.Errorf("Via %q", e)
		}
		v.Protocol, v.Version, v.Transport = p[0], p[1], p[2]
		if err := plainPort(f[1]); err != nil {
			return nil, err
		}
		u, ok := URI("sip:" + f[1])
		if !ok || strings.ContainsAny(f[1], "@;?") {
			return nil, fmt.Errorf("Via %q", e)
		}
		v.Host, v.Port = f[1], u.Port // in the letters it is written in
		if i := strings.LastIndexByte(f[1], ':'); i >= 0 && !strings.HasSuffix(f[1], "]") {
			v.Host = f[1][:i]
		}
		v.Host = strings.Trim(v.Host, "[]")
		var err error
		if v.Param, err = params(parts[1:]); err != nil {
			return nil, err
		}
		*end = v
		end = &v.Next
	}
	return first, nil
}

// Msg reads a message that a careful sender would write: each header that is
// no list at most once, no needless numbers, the length of the body.
func Msg(wire string) (*sip.Msg, error) {
	start, hs, body, err := Raw(wire)
	if err != nil {
		return nil, err
	}
	m := &sip.Msg{}
	if v, ok := strings.CutPrefix(start, "SIP/"); ok {
		p := strings.SplitN(v, " ", 3)
		if len(p) != 3 || len(p[1]) != 3 {
			return nil, fmt.Errorf("start line %q", start)
		}
		if err := version(m, p[0]); err != nil {
			return nil, err
		}
		if m.Status, err = number(p[1]); err != nil {
			return nil, err
		}
		for i := 0; i < len(p[2]); i++ {
			c := p[2][i]
			if c == '%' && i+2 < len(p[2]) {
				x, err := strconv.ParseUint(p[2][i+1:i+3], 16, 8)
				if err != nil {
					return nil, fmt.Errorf("start line %q", start)
				}
				c = byte(x)
				if strings.IndexByte(gen.ReasonC, c) >= 0 {
					return nil, fmt.Errorf("needless escape in %q", start)
				}
				i += 2
			}
			m.Phrase += string([]byte{c})
		}
	} else {
		p := strings.Split(start, " ")
		if len(p) != 3 || !gen.Is(p[0], gen.TokenC) || !strings.HasPrefix(p[2], "SIP/") {
			return nil, fmt.Errorf("start line %q", start)
		}
		m.Method = p[0]
		if m.Request, err = uri(p[1]); err != nil {
			return nil, err
		}
		if err := version(m, p[2][4:]); err != nil {
			return nil, err
		}
	}
	seen := map[string]bool{}
	length, ctype, typed := -1, "", false
	for _, h := range hs {
		if !gen.Is(h.Name, gen.TokenC) {
			return nil, fmt.Errorf("header name %q", h.Name)
		}
		n := strings.ToLower(h.Name)
		if gen.IsKnown(n) && seen[n] && n != "via" {
			return nil, fmt.Errorf("%s appears twice", h.Name)
		}
		seen[n] = true
		if !gen.IsKnown(n) {
			m.XHeader = &sip.XHeader{Name: h.Name, Value: []byte(h.Value), Next: m.XHeader}
			continue
		}
		done := false
		for _, s := range gen.StringHeaders {
			if n == strings.ToLower(s.Name) {
				gen.SetString(m, s.Field, h.Value)
				done = true
			}
		}
		for _, s := range gen.AddrHeaders {
			if n == strings.ToLower(s.Name) {
				a, err := Addrs(h.Value)
				if err != nil {
					return nil, fmt.Errorf("%s: %v", h.Name, err)
				}
				gen.SetAddr(m, s.Field, a)
				done = true
			}
		}
		if done {
			continue
		}
		switch n {
		case "via":
			v, e := Vias(h.Value)
			err = e
			if m.Via == nil {
				m.Via = v
			} else {
				m.Via.Last().Next = v
			}
		case "call-id":
			m.CallID = h.Value
		case "cseq":
			a, b, _ := strings.Cut(h.Value, " ")
			m.CSeq, err = number(a)
			m.CSeqMethod = b
		case "content-length":
			length, err = number(h.Value)
		case "content-type":
			ctype, typed = h.Value, true
		case "expires":
			m.Expires, err = number(h.Value)
			if m.Expires == 0 && m.Method != "REGISTER" && m.CSeqMethod != "REGISTER" {
				err = fmt.Errorf("Expires of a message that has none")
			}
		case "max-forwards":
			m.MaxForwards, err = number(h.Value)
		case "min-expires":
			if m.MinExpires, err = number(h.Value); m.MinExpires == 0 {
				err = fmt.Errorf("Min-Expires of a message that has none")
			}
		default:
			err = fmt.Errorf("compact form of a header")
		}
		if err != nil {
			return nil, fmt.Errorf("%s: %v", h.Name, err)
		}
	}
	if length != len(body) {
		return nil, fmt.Errorf("Content-Length %d of a body of %d bytes", length, len(body))
	}
	if m.Method == "REGISTER" && !seen["expires"] {
		return nil, fmt.Errorf("a REGISTER without Expires")
	}
	if typed || body != "" {
		m.Payload = &sip.MiscPayload{T: ctype, D: []byte(body)}
	}
	return m, nil
}
