package gen

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"
)

// Wire writes messages in one of their many equivalent wire forms. With Plain
// set it chooses the most ordinary one.
type Wire struct {
	T     *rapid.T
	Plain bool
	// Used counts the unusual choices made.
	Used map[string]int
}

func (w *Wire) odd(name string, n int) bool {
	if w.Plain || !Chance(w.T, name, n) {
		return false
	}
	if w.Used == nil {
		w.Used = map[string]int{}
	}
	w.Used[name]++
	return true
}

// SWS is optional whitespace, possibly with a line fold.
func (w *Wire) SWS(def string) string {
	if !w.odd("whitespace", 6) {
		return def
	}
	return Pick(w.T, "sws", "", " ", "\t", "  \t ", "\r\n ", "\r\n\t", " \r\n  ", "\t\r\n\t\t")
}

// LWS is mandatory whitespace.
func (w *Wire) LWS() string {
	if s := w.SWS(" "); s != "" {
		return s
	}
	return " "
}

// Case changes the case of some letters.
func (w *Wire) Case(s string) string {
	if !w.odd("case", 4) {
		return s
	}
	switch rapid.IntRange(0, 2).Draw(w.T, "casekind") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i, c := range b {
		if rapid.Bool().Draw(w.T, "flip") && strings.IndexByte(Alpha, c) >= 0 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// Name writes a header name with its colon.
func (w *Wire) Name(name, compact string) string {
	if compact != "" && w.odd("compact", 3) {
		name = compact
	}
	name = w.Case(name)
	if w.odd("spacebeforecolon", 8) {
		name += Pick(w.T, "wsp", " ", "\t", " \t")
	}
	return name + ":" + w.SWS(" ")
}

func (w *Wire) escape(s, plain string) string {
	var b strings.Builder
	all := w.odd("escapeall", 10)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if strings.IndexByte(plain, c) >= 0 && !all && !w.odd("escape", 12) {
			b.WriteByte(c)
			continue
		}
		if w.odd("upperhex", 2) {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func hostText(h string) string {
	if strings.Contains(h, ":") {
		return "[" + h + "]"
	}
	return h
}

// URI writes a URI.
func (w *Wire) URI(u *sip.URI) string {
	var b strings.Builder
	b.WriteString(w.Case(u.Scheme) + ":")
	if u.User != "" {
		b.WriteString(w.escape(u.User, UserC))
		if u.Pass != "" {
			b.WriteString(":" + w.escape(u.Pass, PassC))
		}
		b.WriteByte('@')
	}
	b.WriteString(w.Case(hostText(u.Host)))
	if u.Port != 0 {
		b.WriteString(":" + strconv.Itoa(int(u.Port)))
	}
	var ps []*sip.URIParam
	for p := u.Param; p != nil; p = p.Next {
		ps = append(ps, p)
	}
	for i := len(ps) - 1; i >= 0; i-- {
		b.WriteString(";" + w.escape(ps[i].Name, ParamC))
		if ps[i].Value != "" {
			b.WriteString("=" + w.escape(ps[i].Value, ParamC))
		}
	}
	var hs []*sip.URIHeader
	for h := u.Header; h != nil; h = h.Next {
		hs = append(hs, h)
	}
	for i := len(hs) - 1; i >= 0; i-- {
		if i == len(hs)-1 {
			b.WriteByte('?')
		} else {
			b.WriteByte('&')
		}
		b.WriteString(w.escape(hs[i].Name, HeaderC))
		if hs[i].Value != "" {
			b.WriteString("=" + w.escape(hs[i].Value, HeaderC))
		}
	}
	return b.String()
}

// Quote writes a quoted string.
func (w *Wire) Quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\' || c == 0x7f || c < ' ' && c != '\t':
			b.WriteByte('\\')
		case c < 0x80 && c != '\r' && c != '\n' && w.odd("quotedpair", 20):
			b.WriteByte('\\')
		}
		b.WriteByte(c)
	}
	b.WriteByte('"')
	return b.String()
}

func (w *Wire) params(p *sip.Param) string {
	var ps []*sip.Param
	for ; p != nil; p = p.Next {
		ps = append(ps, p)
	}
	var b strings.Builder
	for i := len(ps) - 1; i >= 0; i-- {
		b.WriteString(w.SWS("") + ";" + w.SWS("") + ps[i].Name)
		v := ps[i].Value
		if v == "" {
			continue
		}
		b.WriteString(w.SWS("") + "=" + w.SWS(""))
		if !Is(v, TokenC) && (w.Plain || !Is(v, TokenHst) || rapid.Bool().Draw(w.T, "quotehost")) || w.odd("quoted", 4) {
			b.WriteString(w.Quote(v))
		} else {
			b.WriteString(v)
		}
	}
	return b.String()
}

// isPhrase tells if a display name may go without quotes.
func isPhrase(s string) bool {
	return s != "" && Is(s, TokenC+" ") && s[0] != ' ' && s[len(s)-1] != ' '
}

// Addr writes a single address.
func (w *Wire) Addr(a *sip.Addr) string {
	var b strings.Builder
	u := w.URI(a.Uri)
	if a.Display == "" && !strings.ContainsAny(u, ";,?") && w.odd("unangled", 4) {
		return u + w.params(a.Param)
	}
	if a.Display != "" {
		if !isPhrase(a.Display) || w.odd("quoted", 3) {
			b.WriteString(w.Quote(a.Display))
			b.WriteString(w.SWS(" "))
		} else {
			b.WriteString(a.Display)
			b.WriteString(w.LWS())
		}
	} else if w.odd("emptydisplay", 12) {
		b.WriteString("\"\" ")
	}
	b.WriteString("<" + u + ">")
	b.WriteString(w.params(a.Param))
	if a.Param == nil {
		b.WriteString(w.SWS(""))
	}
	return b.String()
}

// Via writes a single Via.
func (w *Wire) Via(v *sip.Via) string {
	s := v.Protocol + w.SWS("") + "/" + w.SWS("") + v.Version + w.SWS("") + "/" + w.SWS("") + v.Transport + w.LWS() + hostText(v.Host)
	if v.Port != 0 {
		s += w.SWS("") + ":" + w.SWS("") + strconv.Itoa(int(v.Port))
	}
	return s + w.params(v.Param)
}

// lines turns a list of values into one or more header lines.
func (w *Wire) lines(name, compact string, values []string) []string {
	var out []string
	for i, v := range values {
		if i > 0 && !w.Plain && rapid.Bool().Draw(w.T, "comma") {
			w.Used["comma"]++
			out[len(out)-1] += w.SWS("") + "," + w.SWS(" ") + v
			continue
		}
		out = append(out, w.Name(name, compact)+v)
	}
	return out
}

// Msg writes a message that is complete, as made by gen.Msg.
func (w *Wire) Msg(m *sip.Msg) []byte {
	if w.Used == nil {
		w.Used = map[string]int{}
	}
	version := fmt.Sprintf("SIP/%d.%d", m.VersionMajor, m.VersionMinor)
	var start string
	if m.Status == 0 {
		start = m.Method + " " + w.URI(m.Request) + " " + version
	} else {
		start = version + " " + strconv.Itoa(m.Status) + " " + w.reason(m.Phrase)
	}
	var groups [][]string // the order within a group matters
	one := func(name, compact, value string) { groups = append(groups, []string{w.Name(name, compact) + value}) }

	for _, h := range AddrHeaders {
		var vs []string
		for a := GetAddr(m, h.Field); a != nil; a = a.Next {
			vs = append(vs, w.Addr(a))
		}
		if vs != nil {
			groups = append(groups, w.lines(h.Name, h.Compact, vs))
		}
	}
	var vs []string
	for v := m.Via; v != nil; v = v.Next {
		vs = append(vs, w.Via(v))
	}
	if vs != nil {
		groups = append(groups, w.lines("Via", "v", vs))
	}
	one("Call-ID", "i", m.CallID)
	one("CSeq", "", strconv.Itoa(m.CSeq)+w.LWS()+m.CSeqMethod)
	if m.MaxForwards > 0 {
		one("Max-Forwards", "", strconv.Itoa(m.MaxForwards))
	}
	for _, h := range StringHeaders {
		if v := GetString(m, h.Field); v != "" {
			one(h.Name, h.Compact, v)
		}
	}
	if m.Expires > 0 || m.Method == "REGISTER" {
		one("Expires", "", strconv.Itoa(m.Expires))
	}
	if m.MinExpires > 0 {
		one("Min-Expires", "", strconv.Itoa(m.MinExpires))
	}
	var xs []string
	for x := m.XHeader; x != nil; x = x.Next {
		s := x.Name
		if w.odd("spacebeforecolon", 8) {
			s += " "
		}
		xs = append(xs, s+":"+w.SWS(" ")+string(x.Value))
	}
	for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
		xs[i], xs[j] = xs[j], xs[i]
	}
	if xs != nil {
		groups = append(groups, xs)
	}
	var body []byte
	if m.Payload != nil {
		body = m.Payload.Data()
		t := m.Payload.ContentType()
		if w.odd("ctypeparam", 6) {
			t += Pick(w.T, "ctp", ";charset=utf-8", " ; a=\"b;c\\\"\"", ";x=y;z=w")
		}
		one("Content-Type", "c", t)
		one("Content-Length", "l", strconv.Itoa(len(body)))
	} else if w.Plain || rapid.Bool().Draw(w.T, "clen0") {
		one("Content-Length", "l", "0")
	}

	// Merge the groups in random order, keeping the order within each.
	var lines []string
	if w.odd("reordered", 2) {
		for len(groups) > 0 {
			i := rapid.IntRange(0, len(groups)-1).Draw(w.T, "next")
			lines = append(lines, groups[i][0])
			if groups[i] = groups[i][1:]; len(groups[i]) == 0 {
				groups = append(groups[:i], groups[i+1:]...)
			}
		}
	} else {
		for _, g := range groups {
			lines = append(lines, g...)
		}
	}
	var b bytes.Buffer
	b.WriteString(start + "\r\n")
	for _, l := range lines {
		b.WriteString(l + "\r\n")
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

func (w *Wire) reason(s string) string {
	var b strings.Builder
	for len(s) > 0 {
		n := utf8Len(s)
		c := s[0]
		switch {
		case n > 1:
			b.WriteString(s[:n])
		case strings.IndexByte(ReasonC, c) >= 0 && !w.odd("escape", 12):
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
		s = s[n:]
	}
	return b.String()
}

// utf8Len is the length of the character that s starts with, 1 if none.
func utf8Len(s string) int {
	for _, r := range s {
		n := len(string(r))
		if n > len(s) || s[:n] != string(r) {
			return 1
		}
		return n
	}
	return 1
}

// MutateBytes makes a few random edits of the kind that confuse parsers.
func MutateBytes(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := rapid.IntRange(1, 5).Draw(t, "edits"); n > 0; n-- {
		i := rapid.IntRange(0, len(b)).Draw(t, "at")
		switch rapid.IntRange(0, 7).Draw(t, "edit") {
		case 0: // delete
			j := i + rapid.IntRange(0, 8).Draw(t, "len")
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 1: // insert separators
			s := Pick(t, "ins", "\r\n", "\r\n ", " ", "\t", ",", ";", ":", "\"", "\\", "<", ">", "@", "%", "%0d%0a", "=", "/", "[", "]", "\x00", "\xff", "é", "\r", "\n", "?", "&", "*", "0", "99999999999999999999", "-", "SIP/2.0")
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		case 2: // insert any bytes
			s := Bytes(1, 4).Draw(t, "any")
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		case 3: // replace
			if i < len(b) {
				b[i] = rapid.Byte().Draw(t, "byte")
			}
		case 4: // replace by another byte of the text
			if i < len(b) {
				b[i] = b[rapid.IntRange(0, len(b)-1).Draw(t, "from")]
			}
		case 5: // duplicate or swap lines
			ls := bytes.SplitAfter(b, []byte("\r\n"))
			x, y := rapid.IntRange(0, len(ls)-1).Draw(t, "x"), rapid.IntRange(0, len(ls)-1).Draw(t, "y")
			if rapid.Bool().Draw(t, "swap") {
				ls[x], ls[y] = ls[y], ls[x]
			} else {
				ls[y] = append(append([]byte{}, ls[y]...), ls[x]...)
			}
			b = bytes.Join(ls, nil)
		case 6: // cut
			if Chance(t, "cut", 3) {
				b = b[:i]
			}
		case 7: // insert a header line
			p := bytes.IndexByte(b[i:], '\n')
			if p < 0 {
				break
			}
			i += p + 1
			s := Pick(t, "line", "Contact: *", "From: <sip:a@b>", "To: c <sip:d@e;f=g>;h=i", "Via: SIP/2.0/UDP h:1;branch=z9hG4bK1", "v: SIP / 2.0 / TCP [::1] : 5", "m: sip:x@y;p=q, <sip:z>",
				"l: 0", "Content-Length: 3", "CSeq: 1 INVITE", "i: x@y", "Route: <sip:r;lr>", "Record-Route: <sip:r?a=b&c>", "Subject:", "X: y", "c: text/plain;a=b", "Expires: 0", "Max-Forwards: 0",
				"Contact: a b c <sip:x>;q=\"\\\"\"", "Contact: \"a\\\r\n b\" <sip:x>", "m: <sip:x@y>;e=[::1]:5")
			b = append(b[:i:i], append([]byte(s+"\r\n"), b[i:]...)...)
		}
	}
	return b
}
