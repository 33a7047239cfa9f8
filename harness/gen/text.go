// Package gen has the generators shared by the checks. They know the grammars
// of RFC 3261 and RFC 4566, not the code under test.
package gen

import (
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

const (
	Alpha    = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	Digits   = "0123456789"
	Alnum    = Alpha + Digits
	Mark     = "-_.!~*'()"
	Unres    = Alnum + Mark
	TokenC   = Alnum + "-.!%*_+`'~"
	WordC    = Alnum + "-.!%*_+`'~()<>:\\\"/[]?{}"
	UserC    = Unres + "&=+$,;?/"
	PassC    = Unres + "&=+$,"
	ParamC   = Unres + "[]/:&+$"
	HeaderC  = Unres + "[]/?:+$"
	ReasonC  = Unres + ";/?:@&=+$, \t"
	SchemeC  = Alnum + "+-."
	HostC    = Alnum + "-."
	HexC     = Digits + "abcdef"
	URIC     = ";/?:@&=+$," + Unres + "%[]"
	TokenHst = TokenC + "[]:"
)

// Is tells if all bytes of s are in set.
func Is(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return true
}

// LongText and LongList limit the length of texts and lists that are out of
// the ordinary, which a few are. A check for which size matters lowers them.
var LongText, LongList = 5000, 70

var edges = []int{9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 70, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512,
	513, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 5000}

// Count is the number of items of a list, usually min to max.
func Count(t *rapid.T, label string, min, max int) int {
	if LongList > max && Chance(t, "many", 120) {
		n := rapid.IntRange(max+1, LongList).Draw(t, label)
		if e := edges[rapid.IntRange(0, len(edges)-1).Draw(t, "edge")]; e > max && e <= LongList {
			n = e
		}
		return n
	}
	return rapid.IntRange(min, max).Draw(t, label)
}

// Upto is a number from min to max, or up to many in one of odds cases.
func Upto(t *rapid.T, label string, min, max, many, odds int) int {
	if Chance(t, "many", odds) {
		return rapid.IntRange(max+1, many).Draw(t, label)
	}
	return rapid.IntRange(min, max).Draw(t, label)
}

// Lengthen makes a few texts very long, by repeating them.
func Lengthen(t *rapid.T, s string) string {
	if s == "" || len(s) >= LongText || !Chance(t, "long", 250) {
		return s
	}
	n := edges[rapid.IntRange(0, len(edges)-1).Draw(t, "edge")]
	if rapid.Bool().Draw(t, "anylength") {
		n = rapid.IntRange(len(s), LongText).Draw(t, "length")
	}
	if n > LongText {
		n = LongText
	}
	if n <= len(s) {
		return s
	}
	var b strings.Builder
	for b.Len()+len(s) <= n {
		b.WriteString(s)
	}
	// The rest, without breaking up a character.
	for _, r := range s {
		if c := string(r); b.Len()+len(c) <= n && r != utf8.RuneError {
			b.WriteString(c)
		} else {
			break
		}
	}
	return b.String()
}

// Of makes strings of min to max bytes from a set.
func Of(set string, min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(t, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = set[rapid.IntRange(0, len(set)-1).Draw(t, "c")]
		}
		return string(b)
	})
}

var token = rapid.Custom(func(t *rapid.T) string { return Lengthen(t, shortToken.Draw(t, "short")) })
var shortToken = Of(TokenC, 1, 8)

// Token makes RFC 3261 tokens.
func Token() *rapid.Generator[string] { return token }

// Pick chooses one of a few strings.
func Pick(t *rapid.T, label string, s ...string) string {
	return s[rapid.IntRange(0, len(s)-1).Draw(t, label)]
}

// Chance is true about once in n times.
func Chance(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

var runes = []rune("aZ09 ,;:@<>\"\\'()[]{}?=&%/|~!#$^*-_.+`éß語😀\u00a0\u0080\u07ff\u0800\ufffd\U00010000\U0010ffff")

// Text makes UTF-8 text without control characters, rich in SIP separators.
func Text(min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(t, "n")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(runes[rapid.IntRange(0, len(runes)-1).Draw(t, "r")])
		}
		return b.String()
	})
}

// Bytes makes strings of any bytes.
func Bytes(min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(t, "n")
		b := make([]byte, n)
		for i := range b {
			switch rapid.IntRange(0, 3).Draw(t, "k") {
			case 0:
				b[i] = Alnum[rapid.IntRange(0, len(Alnum)-1).Draw(t, "c")]
			case 1:
				const sep = " ,;:@<>\"\\'()[]{}?=&%/\r\n\t\x00\x7f\x80\xc3\xa9\xff"
				b[i] = sep[rapid.IntRange(0, len(sep)-1).Draw(t, "s")]
			default:
				b[i] = byte(rapid.IntRange(0, 255).Draw(t, "b"))
			}
		}
		return string(b)
	})
}

// Multibyte makes what looks like a UTF-8 sequence, of two to six bytes and
// mostly complete, whether Unicode has such a character or not.
func Multibyte() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		k := rapid.IntRange(0, 4).Draw(t, "length")
		lead := [...][2]int{{0xC0, 0xDF}, {0xE0, 0xEF}, {0xF0, 0xF7}, {0xF8, 0xFB}, {0xFC, 0xFD}}[k]
		b := []byte{byte(lead[rapid.IntRange(0, 1).Draw(t, "edge")])}
		if rapid.Bool().Draw(t, "inside") {
			b[0] = byte(rapid.IntRange(lead[0], lead[1]).Draw(t, "lead"))
		}
		for i := 0; i <= k; i++ {
			b = append(b, byte(rapid.IntRange(0x80, 0xBF).Draw(t, "more")))
		}
		switch rapid.IntRange(0, 7).Draw(t, "flaw") {
		case 0:
			b = b[:len(b)-1]
		case 1:
			b[rapid.IntRange(1, len(b)-1).Draw(t, "where")] = byte(rapid.SampledFrom([]int{0x7F, 0xC0, 'a', 0xFF, ' '}).Draw(t, "flawed"))
		}
		return string(b)
	})
}

// Quotable makes non-empty text for display names and parameter values.
func Quotable() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 5).Draw(t, "quotable") {
		case 0, 1:
			return Token().Draw(t, "token")
		case 2:
			return Pick(t, "phrase", "Justine Tunney", "a  b", "J", "x y z", "\"", "\\", "\\\"", "a\\", "a,b", "<sip:x@y>",
				";tag=1", "é", "e\\é", " lead", "trail ", "50%", "%41", "tab\there", ",", "bob@x", "[::1]", ":", "=")
		default:
			return Lengthen(t, Text(1, 10).Draw(t, "text"))
		}
	})
}

// HeaderValue makes the value of a header that is kept as text: any UTF-8 but
// control characters, not starting with whitespace, possibly with folds.
func HeaderValue() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 6).Draw(t, "hval") {
		case 0, 1, 2:
			return Lengthen(t, Of(Alnum+"-./;=,\"", 1, 10).Draw(t, "simple"))
		case 3:
			return Pick(t, "odd", ":", ";", ",", "\"", "\"a,b\"", "<sip:a@b>", "a\r\n b", "a \r\n\t b", "x\t y", "(comment (nested))",
				"Via: x", "sip:a@b;c=d?e", "0", "\x7f", "text/plain; q=0.5, */*", "Digest realm=\"a\\\"b\", qop=\"auth\"")
		default:
			s := strings.TrimLeft(Text(1, 16).Draw(t, "text"), " ")
			if s == "" {
				s = "x"
			}
			return Lengthen(t, s)
		}
	})
}

// Host makes host names and IPv4 addresses, lower case.
func Host() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 3).Draw(t, "host") {
		case 0:
			return Pick(t, "ip", "127.0.0.1", "10.0.0.1", "1.2.3.4", "255.255.255.255", "0.0.0.0")
		case 1:
			return Pick(t, "name", "example.com", "a", "x-y.example.co.uk", "localhost", "3com.example", "a.b.", "xn--p1ai")
		default:
			return Lengthen(t, Of("abcxyz0189-.", 1, 12).Draw(t, "h"))
		}
	})
}

// Host6 makes IPv6 addresses, without brackets, lower case.
func Host6() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return Pick(t, "ip6", "::1", "::", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "feed:a::bee", "1:2:3:4:5:6:7:8")
	})
}

// AnyHost makes any of them.
func AnyHost() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if Chance(t, "v6", 4) {
			return Host6().Draw(t, "host6")
		}
		return Host().Draw(t, "host")
	})
}

// Port makes ports; 0 is common and stands for none.
func Port() *rapid.Generator[uint16] {
	return rapid.Custom(func(t *rapid.T) uint16 {
		switch rapid.IntRange(0, 3).Draw(t, "port") {
		case 0:
			return 0
		case 1:
			return []uint16{1, 5060, 5061, 9, 10, 65535, 65534, 32768, 9999, 10000}[rapid.IntRange(0, 9).Draw(t, "p")]
		default:
			return rapid.Uint16Range(1, 65535).Draw(t, "any")
		}
	})
}

// Number makes non-negative numbers of all magnitudes up to max.
func Number(max int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		switch rapid.IntRange(0, 3).Draw(t, "num") {
		case 0:
			return rapid.IntRange(0, 9).Draw(t, "small") % (max + 1)
		case 1:
			e := []int{1, 10, 99, 100, 255, 256, 32767, 32768, 65535, 65536, 99999, 1<<24 - 1, 1 << 24, 1<<31 - 1}
			n := e[rapid.IntRange(0, len(e)-1).Draw(t, "edge")]
			if n > max {
				n = max
			}
			return n
		default:
			return rapid.IntRange(0, max).Draw(t, "any")
		}
	})
}

// ValidUTF8 tells if s is UTF-8.
func ValidUTF8(s string) bool { return utf8.ValidString(s) }
