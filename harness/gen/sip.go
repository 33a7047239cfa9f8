package gen

import (
	"bytes"
	"reflect"
	"strings"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"
)

// StringHeader is a header that a message keeps as text.
type StringHeader struct {
	Field   string // in sip.Msg
	Name    string
	Compact string
}

// StringHeaders lists them all, as in the RFCs.
var StringHeaders = []StringHeader{
	{"UserAgent", "User-Agent", ""},
	{"Accept", "Accept", ""},
	{"AcceptContact", "Accept-Contact", "a"},
	{"AcceptEncoding", "Accept-Encoding", ""},
	{"AcceptLanguage", "Accept-Language", ""},
	{"AlertInfo", "Alert-Info", ""},
	{"Allow", "Allow", ""},
	{"AllowEvents", "Allow-Events", "u"},
	{"AuthenticationInfo", "Authentication-Info", ""},
	{"Authorization", "Authorization", ""},
	{"CallInfo", "Call-Info", ""},
	{"ContentDisposition", "Content-Disposition", ""},
	{"ContentEncoding", "Content-Encoding", "e"},
	{"ContentLanguage", "Content-Language", ""},
	{"Date", "Date", ""},
	{"ErrorInfo", "Error-Info", ""},
	{"Event", "Event", "o"},
	{"InReplyTo", "In-Reply-To", ""},
	{"MIMEVersion", "MIME-Version", ""},
	{"Organization", "Organization", ""},
	{"Priority", "Priority", ""},
	{"ProxyAuthenticate", "Proxy-Authenticate", ""},
	{"ProxyAuthorization", "Proxy-Authorization", ""},
	{"ProxyRequire", "Proxy-Require", ""},
	{"ReferTo", "Refer-To", "r"},
	{"ReferredBy", "Referred-By", "b"},
	{"ReplyTo", "Reply-To", ""},
	{"Require", "Require", ""},
	{"RetryAfter", "Retry-After", ""},
	{"Server", "Server", ""},
	{"Subject", "Subject", "s"},
	{"Supported", "Supported", "k"},
	{"Timestamp", "Timestamp", ""},
	{"Unsupported", "Unsupported", ""},
	{"Warning", "Warning", ""},
	{"WWWAuthenticate", "WWW-Authenticate", ""},
}

// typical values of headers, as seen in practice.
var typical = map[string][]string{
	"UserAgent":          {"slytherin/1.o", "Asterisk PBX 1.6.0.10-FONCORE-r40", "Z 3.2.21357 r21103 (Mac OS)", "FreeSWITCH-mod_sofia/1.0.trunk-16981M"},
	"Server":             {"OpenSIPS (1.8.1-notls (x86_64/linux))"},
	"Accept":             {"application/sdp", "application/sdp;level=1, text/html"},
	"AcceptContact":      {"*;audio;require", "*;+g.3gpp.icsi-ref=\"urn%3Aurn-7%3A3gpp-service\""},
	"AcceptEncoding":     {"gzip"},
	"AcceptLanguage":     {"da, en-gb;q=0.8, en;q=0.7"},
	"AlertInfo":          {"<http://www.example.com/sounds/moo.wav>"},
	"Allow":              {"INVITE, ACK, CANCEL, BYE, OPTIONS", "INVITE,ACK,CANCEL,OPTIONS,BYE,REFER,NOTIFY,INFO,MESSAGE"},
	"AllowEvents":        {"talk,hold,conference,refer"},
	"AuthenticationInfo": {"nextnonce=\"47364c23432d2e131a5fb210812c\""},
	"Authorization":      {digest, "Digest username=\"bob,\\\"the\\\"\", realm=\"a;b\", nc=00000001, uri=\"sip:%40@example.com\", response=\"dfe56131d1958046689d83306477ecc\"", "Basic QWxhZGRpbjpvcGVuIHNlc2FtZQ=="},
	"CallInfo":           {"<http://www.example.com/alice/photo.jpg>;purpose=icon, <http://www.example.com/alice/>;purpose=info"},
	"ContentDisposition": {"session;handling=optional"},
	"ContentEncoding":    {"gzip"},
	"Date":               {"Sat, 13 Nov 2010 23:29:00 GMT", "Thu, 21 Feb 2002 13:02:03 GMT"},
	"ErrorInfo":          {"<sip:not-in-service-recording@atlanta.com>"},
	"Event":              {"presence;id=1", "refer"},
	"InReplyTo":          {"70710@saturn.bell-tel.com, 17320@saturn.bell-tel.com"},
	"MIMEVersion":        {"1.0"},
	"Organization":       {"Boxes by Bob"},
	"Priority":           {"emergency", "non-urgent"},
	"ProxyAuthenticate":  {challenge},
	"WWWAuthenticate":    {challenge},
	"ProxyAuthorization": {digest},
	"ProxyRequire":       {"foo"},
	"ReferTo":            {"\"dave\" <sip:dave@denver.example.org?Replaces=12345%40192.168.118.3%3Bto-tag%3D12345>"},
	"ReferredBy":         {"<sip:alice@atlanta.example.com>;cid=\"2UWQFN309shb3@alice\""},
	"ReplyTo":            {"Bob <sip:bob@biloxi.com>"},
	"Require":            {"100rel", "timer,replaces"},
	"RetryAfter":         {"18000;duration=3600", "120 (I'm in a meeting)", "5"},
	"Subject":            {"Need more boxes", "A Question: why?"},
	"Supported":          {"timer, replaces, path, outbound"},
	"Timestamp":          {"54.21 0.5", "54"},
	"Unsupported":        {"foo"},
	"Warning":            {"307 isi.edu \"Session parameter 'foo' not understood\"", "301 isi.edu \"Incompatible network address type 'E.164'\""},
}

const (
	digest    = "Digest username=\"alice\", realm=\"atlanta.com\", nonce=\"84a4cc6f3082121f32b42a2187831a9e\", uri=\"sip:bob@biloxi.com\", response=\"7587245234b3434cc3412213e5f113a5\", algorithm=MD5"
	challenge = "Digest realm=\"atlanta.com\", domain=\"sip:ss1.carrier.com\", qop=\"auth\", nonce=\"f84f1cec41e6cbe5aea9c8e88d359\", opaque=\"\", stale=FALSE, algorithm=MD5"
)

// typically makes a value for a header, one in three what it usually has.
func typically(t *rapid.T, h StringHeader) string {
	if l := typical[h.Field]; len(l) > 0 && Chance(t, "typical", 3) {
		return l[rapid.IntRange(0, len(l)-1).Draw(t, h.Field)]
	}
	return HeaderValue().Draw(t, h.Field)
}

// AddrHeader is a header that holds a list of addresses.
type AddrHeader struct {
	Field   string
	Name    string
	Compact string
	List    bool // may hold more than one address
}

var AddrHeaders = []AddrHeader{
	{"From", "From", "f", false},
	{"To", "To", "t", false},
	{"Contact", "Contact", "m", true},
	{"Route", "Route", "", true},
	{"RecordRoute", "Record-Route", "", true},
	{"PAssertedIdentity", "P-Asserted-Identity", "", true},
	{"RemotePartyID", "Remote-Party-ID", "", true},
}

// OtherNames are the remaining names a message gives a meaning.
var OtherNames = []string{"Via", "v", "Call-ID", "i", "Content-Length", "l", "Content-Type", "c", "CSeq", "Expires",
	"Max-Forwards", "Min-Expires"}

var known = map[string]bool{}

func init() {
	for _, h := range StringHeaders {
		known[strings.ToLower(h.Name)] = true
		known[h.Compact] = true
	}
	for _, h := range AddrHeaders {
		known[strings.ToLower(h.Name)] = true
		known[h.Compact] = true
	}
	for _, n := range OtherNames {
		known[strings.ToLower(n)] = true
	}
}

// IsKnown tells if a header name has a meaning of its own.
func IsKnown(name string) bool { return known[strings.ToLower(name)] }

// GetString reads a text header.
func GetString(m *sip.Msg, field string) string {
	return reflect.ValueOf(m).Elem().FieldByName(field).String()
}

// SetString sets a text header.
func SetString(m *sip.Msg, field, v string) {
	reflect.ValueOf(m).Elem().FieldByName(field).SetString(v)
}

// GetAddr reads an address header.
func GetAddr(m *sip.Msg, field string) *sip.Addr {
	return reflect.ValueOf(m).Elem().FieldByName(field).Interface().(*sip.Addr)
}

// SetAddr sets an address header.
func SetAddr(m *sip.Msg, field string, a *sip.Addr) {
	reflect.ValueOf(m).Elem().FieldByName(field).Set(reflect.ValueOf(a))
}

// XName makes the name of an extension header.
func XName() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var s string
		switch rapid.IntRange(0, 3).Draw(t, "xname") {
		case 0:
			s = Pick(t, "x", "X-Foo", "x", "P-Charging-Vector", "Session-Expires", "z", "RSeq", "%", "~", "1")
		case 1:
			// Names that begin like a standard one, or are cut short.
			all := append([]string{}, OtherNames...)
			for _, h := range StringHeaders {
				all = append(all, h.Name)
			}
			for _, h := range AddrHeaders {
				all = append(all, h.Name)
			}
			s = all[rapid.IntRange(0, len(all)-1).Draw(t, "base")]
			if rapid.Bool().Draw(t, "longer") {
				s += Pick(t, "suffix", "x", "-Info", "-", "s", "1", "."+s)
			} else {
				s = s[:rapid.IntRange(1, len(s)).Draw(t, "cut")]
			}
		default:
			s = Token().Draw(t, "token")
		}
		if IsKnown(s) {
			s += "-x"
		}
		return s
	})
}

func params(t *rapid.T, max int) *sip.Param {
	var p *sip.Param
	for n := Count(t, "params", 0, max); n > 0; n-- {
		p = &sip.Param{Name: paramName(t), Value: paramValue(t), Next: p}
	}
	return p
}

func paramName(t *rapid.T) string {
	if rapid.Bool().Draw(t, "std") {
		return Pick(t, "pname", "tag", "branch", "lr", "rport", "received", "q", "expires", "Tag", "maddr")
	}
	return Token().Draw(t, "pname")
}

func paramValue(t *rapid.T) string {
	if rapid.Bool().Draw(t, "novalue") {
		return ""
	}
	return Quotable().Draw(t, "pvalue")
}

// URIOptions restricts URI.
type URIOptions struct {
	Scheme []string // nil for any
}

func uriText(t *rapid.T, label string, max int) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"kind") {
	case 0, 1:
		return Lengthen(t, Of(Alnum, 1, 6).Draw(t, label))
	case 2:
		return Pick(t, label, "a b", "%", "%41", "a@b", ":", ";", "?", "=", "&", "a&b=c", "+", "/", "é", "\"", "\r\n", "<>", "[]", "lr", "\x00", "\xff", ",")
	default:
		return Lengthen(t, Bytes(1, max).Draw(t, label))
	}
}

// URI makes SIP URIs in the form the parser produces: scheme and host in lower
// case.
func URI() *rapid.Generator[*sip.URI] { return uriGen }

var uriGen = rapid.Custom(func(t *rapid.T) *sip.URI {
	u := &sip.URI{}
	u.Scheme = Pick(t, "scheme", "sip", "sip", "sips", "tel", "x+y-z.1")
	if Chance(t, "hasuser", 2) {
		u.User = uriText(t, "user", 8)
		if Chance(t, "haspass", 3) {
			u.Pass = uriText(t, "pass", 6)
		}
	}
	u.Host = AnyHost().Draw(t, "host")
	u.Port = Port().Draw(t, "port")
	for n := Count(t, "uparams", 0, 2); n > 0; n-- {
		p := &sip.URIParam{Name: uriText(t, "upname", 4), Next: u.Param}
		if rapid.Bool().Draw(t, "uphas") {
			p.Value = uriText(t, "upvalue", 6)
		}
		u.Param = p
	}
	if Chance(t, "hasheaders", 4) {
		for n := Count(t, "uheaders", 1, 3); n > 0; n-- {
			h := &sip.URIHeader{Name: uriText(t, "uhname", 4), Next: u.Header}
			if rapid.Bool().Draw(t, "uhhas") {
				h.Value = uriText(t, "uhvalue", 6)
			}
			u.Header = h
		}
	}
	return u
})

// Addr makes lists of min to max addresses.
func Addr(min, max int) *rapid.Generator[*sip.Addr] {
	return rapid.Custom(func(t *rapid.T) *sip.Addr {
		var head *sip.Addr
		next := &head
		n := min
		if max > min {
			n = Count(t, "addrs", min, max)
		}
		for ; n > 0; n-- {
			a := &sip.Addr{Uri: URI().Draw(t, "uri")}
			if rapid.Bool().Draw(t, "hasdisplay") {
				a.Display = Quotable().Draw(t, "display")
			}
			a.Param = params(t, 2)
			*next = a
			next = &a.Next
		}
		return head
	})
}

// Via makes lists of min to max Vias.
func Via(min, max int) *rapid.Generator[*sip.Via] {
	return rapid.Custom(func(t *rapid.T) *sip.Via {
		var head *sip.Via
		next := &head
		n := min
		if max > min {
			n = Count(t, "vias", min, max)
		}
		for ; n > 0; n-- {
			v := &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP"}
			if Chance(t, "odd", 4) {
				v.Protocol = Token().Draw(t, "protocol")
				v.Version = Token().Draw(t, "version")
				v.Transport = Token().Draw(t, "transport")
			}
			v.Host = AnyHost().Draw(t, "host")
			if Chance(t, "upper", 8) && !strings.Contains(v.Host, ":") {
				v.Host = strings.ToUpper(v.Host)
			}
			v.Port = Port().Draw(t, "port")
			v.Param = params(t, 3)
			*next = v
			next = &v.Next
		}
		return head
	})
}

// CallID makes Call-IDs.
func CallID() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		s := Lengthen(t, Of(WordC, 1, 12).Draw(t, "cid"))
		if Chance(t, "cidhost", 3) {
			s += "@" + Of(WordC, 1, 6).Draw(t, "cidhost")
		}
		return s
	})
}

var methods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO",
	"REFER", "MESSAGE", "UPDATE"}

// Method makes request methods.
func Method() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if Chance(t, "oddmethod", 6) {
			return Token().Draw(t, "method")
		}
		return methods[rapid.IntRange(0, len(methods)-1).Draw(t, "method")]
	})
}

// Status makes status codes, registered ones more often.
func Status() *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		if rapid.Bool().Draw(t, "registered") {
			s := []int{100, 180, 183, 200, 202, 302, 400, 404, 407, 481, 484, 486, 487, 500, 503, 600, 606}
			return s[rapid.IntRange(0, len(s)-1).Draw(t, "status")]
		}
		return rapid.IntRange(100, 999).Draw(t, "status")
	})
}

// Kind of message.
const (
	AnyMsg = iota
	RequestMsg
	ResponseMsg
)

// MsgOptions restricts Msg.
type MsgOptions struct {
	Kind    int
	NoSDP   bool
	MinVias int
	Small   bool // few headers
}

// Msg makes well-formed messages. All fields that formatting would fill in are
// set, so that the message is equal to what the parser makes of it, except
// that a response's reason phrase may be empty.
func Msg(o MsgOptions) *rapid.Generator[*sip.Msg] {
	return rapid.Custom(func(t *rapid.T) *sip.Msg {
		m := &sip.Msg{VersionMajor: 2}
		if Chance(t, "oddversion", 6) {
			m.VersionMajor = rapid.Uint8Range(1, 255).Draw(t, "major")
			m.VersionMinor = rapid.Uint8Range(0, 255).Draw(t, "minor")
		}
		kind := o.Kind
		if kind == AnyMsg {
			kind = rapid.IntRange(RequestMsg, ResponseMsg).Draw(t, "kind")
		}
		m.CSeqMethod = Method().Draw(t, "cseqmethod")
		if kind == RequestMsg {
			m.Method = m.CSeqMethod
			if Chance(t, "othercseqmethod", 8) {
				m.Method = Method().Draw(t, "method")
			}
			m.Request = URI().Draw(t, "request")
			m.MaxForwards = rapid.IntRange(1, 255).Draw(t, "maxforwards")
			if Chance(t, "bigmf", 8) {
				m.MaxForwards = Number(1<<31-1).Filter(func(n int) bool { return n > 0 }).Draw(t, "mf")
			}
		} else {
			m.Status = Status().Draw(t, "status")
			switch rapid.IntRange(0, 2).Draw(t, "phrasekind") {
			case 0:
				m.Phrase = Pick(t, "phrase", "OK", "Ringing", "Call/Transaction Does Not Exist", "0", "a  b", "é", " ", "100%", "50%25", "(x)")
			case 1:
				m.Phrase = Lengthen(t, Bytes(1, 10).Draw(t, "phrase"))
			case 2:
				m.Phrase = sip.Phrase(m.Status)
			}
		}
		max := 3
		if o.Small {
			max = 2
		}
		m.From = Addr(1, 1).Draw(t, "from")
		m.To = Addr(1, 1).Draw(t, "to")
		m.Via = Via(o.MinVias, max).Draw(t, "via")
		m.CallID = CallID().Draw(t, "callid")
		m.CSeq = Number(1<<31-1).Draw(t, "cseq")
		for _, h := range AddrHeaders {
			if h.List && Chance(t, "has"+h.Field, 4) {
				SetAddr(m, h.Field, Addr(1, max).Draw(t, h.Field))
			}
		}
		dense := !o.Small && Chance(t, "dense", 8)
		if dense {
			for _, h := range StringHeaders {
				SetString(m, h.Field, typically(t, h))
			}
		} else {
			for n := rapid.IntRange(0, 4).Draw(t, "headers"); n > 0; n-- {
				h := StringHeaders[rapid.IntRange(0, len(StringHeaders)-1).Draw(t, "header")]
				SetString(m, h.Field, typically(t, h))
			}
		}
		if m.Method == "REGISTER" || m.CSeqMethod == "REGISTER" || Chance(t, "hasexpires", 4) {
			m.Expires = Number(1<<31-1).Draw(t, "expires")
		}
		if Chance(t, "hasminexpires", 5) {
			m.MinExpires = Number(1<<31-1).Draw(t, "minexpires")
		}
		for n := Count(t, "xheaders", 0, 3); n > 0; n-- {
			h := &sip.XHeader{Name: XName().Draw(t, "xname"), Next: m.XHeader}
			if !Chance(t, "xempty", 6) {
				h.Value = []byte(HeaderValue().Draw(t, "xvalue"))
			}
			m.XHeader = h
		}
		switch rapid.IntRange(0, 3).Draw(t, "payload") {
		case 0, 1:
		case 2:
			typ := Pick(t, "ctype", "text/plain", "application/pidf+xml", "a/b", "application/sdp2", "Application/SDP", "application/sd",
				"message/sipfrag")
			if Chance(t, "anytype", 4) {
				typ = Token().Draw(t, "maintype") + "/" + Token().Draw(t, "subtype")
			}
			if typ == "application/sdp" {
				typ += "x"
			}
			m.Payload = &sip.MiscPayload{T: typ, D: []byte(Lengthen(t, Bytes(1, 40).Draw(t, "body")))}
		case 3:
			if o.NoSDP {
				break
			}
			m.Payload = SDP(SDPOptions{Simple: true}).Draw(t, "sdp")
		}
		return m
	})
}

// NonDefault counts the parts of a message beyond the required ones.
func NonDefault(m *sip.Msg) int {
	n := 0
	for _, h := range StringHeaders {
		if GetString(m, h.Field) != "" {
			n++
		}
	}
	for _, h := range AddrHeaders {
		for a := GetAddr(m, h.Field); a != nil; a = a.Next {
			if h.List || a.Display != "" || a.Param != nil {
				n++
			}
		}
	}
	for x := m.XHeader; x != nil; x = x.Next {
		n++
	}
	for v := m.Via; v != nil; v = v.Next {
		n++
	}
	if m.Payload != nil {
		n++
	}
	return n
}

// Format formats a message.
func Format(m *sip.Msg) []byte {
	var b bytes.Buffer
	m.Append(&b)
	return b.Bytes()
}

// Clone copies a message without sharing anything, except its payload.
func Clone(m *sip.Msg) *sip.Msg {
	if m == nil {
		return nil
	}
	r := *m
	r.Request = CloneURI(m.Request)
	for _, h := range AddrHeaders {
		SetAddr(&r, h.Field, CloneAddr(GetAddr(m, h.Field)))
	}
	r.Via = CloneVia(m.Via)
	r.XHeader = cloneX(m.XHeader)
	return &r
}

func cloneX(x *sip.XHeader) *sip.XHeader {
	if x == nil {
		return nil
	}
	return &sip.XHeader{Name: x.Name, Value: append([]byte{}, x.Value...), Next: cloneX(x.Next)}
}

// CloneParam copies a parameter list.
func CloneParam(p *sip.Param) *sip.Param {
	if p == nil {
		return nil
	}
	return &sip.Param{Name: p.Name, Value: p.Value, Next: CloneParam(p.Next)}
}

// CloneURI copies a URI.
func CloneURI(u *sip.URI) *sip.URI {
	if u == nil {
		return nil
	}
	r := *u
	r.Param, r.Header = nil, nil
	pp := &r.Param
	for p := u.Param; p != nil; p = p.Next {
		*pp = &sip.URIParam{Name: p.Name, Value: p.Value}
		pp = &(*pp).Next
	}
	hp := &r.Header
	for h := u.Header; h != nil; h = h.Next {
		*hp = &sip.URIHeader{Name: h.Name, Value: h.Value}
		hp = &(*hp).Next
	}
	return &r
}

// CloneAddr copies an address list.
func CloneAddr(a *sip.Addr) *sip.Addr {
	if a == nil {
		return nil
	}
	return &sip.Addr{Uri: CloneURI(a.Uri), Display: a.Display, Param: CloneParam(a.Param), Next: CloneAddr(a.Next)}
}

// CloneVia copies a Via list.
func CloneVia(v *sip.Via) *sip.Via {
	if v == nil {
		return nil
	}
	r := *v
	r.Param = CloneParam(v.Param)
	r.Next = CloneVia(v.Next)
	return &r
}
