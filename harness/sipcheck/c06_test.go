package sipcheck

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// number makes the decimal text of a number of any size, and its value.
func number(t *rapid.T, label string, limits ...int64) (string, *big.Int) {
	var s string
	switch rapid.IntRange(0, 4).Draw(t, label+"kind") {
	case 0:
		l := limits[rapid.IntRange(0, len(limits)-1).Draw(t, label+"limit")]
		n := big.NewInt(l)
		// Around a limit, its multiples and its wrap-arounds.
		n.Mul(n, big.NewInt(int64(rapid.IntRange(1, 12).Draw(t, label+"mul"))))
		n.Add(n, big.NewInt(int64(rapid.IntRange(-2, 12).Draw(t, label+"off"))))
		if n.Sign() < 0 {
			n.SetInt64(0)
		}
		s = n.String()
	case 1:
		s = gen.Of(gen.Digits, 1, 30).Draw(t, label+"digits")
	case 2:
		n := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{8, 16, 31, 32, 63, 64, 65, 128}).Draw(t, label+"bits")))
		n.Add(n, big.NewInt(int64(rapid.IntRange(-2, 70000).Draw(t, label+"off"))))
		s = n.String()
	default:
		s = itoa(gen.Number(1<<30).Draw(t, label))
	}
	s = gen.Pick(t, label+"zeros", "", "", "", "0", "00000000000000000000000") + s
	n, _ := new(big.Int).SetString(s, 10)
	return s, n
}

// field is a number in a message.
type field struct {
	name  string
	limit int64 // must be accepted up to this
	max   int64 // must be rejected beyond, if positive
	wire  func(s string) string
	get   func(m *sip.Msg) int64
}

func header(line string) func(string) string {
	return func(s string) string {
		return "OPTIONS sip:a@b SIP/2.0\r\nFrom: <sip:a@b>\r\nTo: <sip:a@b>\r\nVia: SIP/2.0/UDP h:1\r\n" + fmt.Sprintf(line, s) + "\r\n\r\n"
	}
}

const big31 = 1<<31 - 1

var fields = []field{
	{"CSeq", big31, 0, header("CSeq: %s OPTIONS"), func(m *sip.Msg) int64 { return int64(m.CSeq) }},
	{"Expires", big31, 0, header("Expires: %s"), func(m *sip.Msg) int64 { return int64(m.Expires) }},
	{"Max-Forwards", big31, 0, header("Max-Forwards: %s"), func(m *sip.Msg) int64 { return int64(m.MaxForwards) }},
	{"Min-Expires", big31, 0, header("Min-Expires: %s"), func(m *sip.Msg) int64 { return int64(m.MinExpires) }},
	{"Via port", 65535, 65535, header("v: SIP/2.0/UDP x:%s"), func(m *sip.Msg) int64 { return int64(m.Via.Next.Port) }},
	{"Via IPv6 port", 65535, 65535, header("v: SIP/2.0/UDP [::1] : %s;rport"), func(m *sip.Msg) int64 { return int64(m.Via.Next.Port) }},
	{"Contact port", 65535, 65535, header("m: <sip:x@y:%s;lr>"), func(m *sip.Msg) int64 { return int64(m.Contact.Uri.Port) }},
	{"second Route port", 65535, 65535, header("Route: <sip:x:1>,<sip:[::1]:%s>"), func(m *sip.Msg) int64 { return int64(m.Route.Next.Uri.Port) }},
	{"request URI port", 65535, 65535, func(s string) string {
		return "OPTIONS sip:a@b:" + s + " SIP/2.0\r\n\r\n"
	}, func(m *sip.Msg) int64 { return int64(m.Request.Port) }},
	{"major version", 255, 255, func(s string) string { return "OPTIONS sip:a@b SIP/" + s + ".7\r\n\r\n" },
		func(m *sip.Msg) int64 { return int64(m.VersionMajor) }},
	{"minor version", 255, 255, func(s string) string { return "SIP/1." + s + " 200 OK\r\n\r\n" },
		func(m *sip.Msg) int64 { return int64(m.VersionMinor) }},
}

func TestC06Numbers(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 800000, Thorough: 4000000},
		"each number of a message and URI with decimal text of 1 to 53 digits around the limits of 8 to 128 bits; non-trivial: more than 2 significant digits",
		func(t *rapid.T, c *hx.Case) {
			f := fields[rapid.IntRange(0, len(fields)-1).Draw(t, "field")]
			s, n := number(t, "n", f.limit, 255, 65536, 1<<31, 1<<32)
			wire := f.wire(s)
			c.Samplef("%s: %s", f.name, s)
			if n.Cmp(big.NewInt(99)) > 0 {
				c.NonTrivial(f.name + s)
			}
			m, err := parse([]byte(wire))
			if err != nil {
				c.Class(f.name + " rejected")
				if n.Cmp(big.NewInt(f.limit)) <= 0 {
					t.Fatalf("%s %s rejected: %v", f.name, s, err)
				}
				return
			}
			c.Class(f.name + " accepted")
			if got := f.get(m); n.Cmp(big.NewInt(got)) != 0 {
				t.Fatalf("%s %s read as %d", f.name, s, got)
			}
		})
}

// Repeated and neighbouring numbers do not mix.
func TestC06Repeated(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 400000, Thorough: 2000000},
		"2 to 8 headers holding numbers, with repetitions, in one message; each field has the value of its last header; non-trivial: some header is repeated",
		func(t *rapid.T, c *hx.Case) {
			var b strings.Builder
			b.WriteString("SIP/2.0 200 OK\r\n")
			want := map[string]int{}
			repeated := false
			for i := rapid.IntRange(2, 8).Draw(t, "n"); i > 0; i-- {
				name := gen.Pick(t, "name", "CSeq", "Expires", "Max-Forwards", "Min-Expires", "Content-Length", "l", "Via", "Contact", "X")
				n := gen.Number(1<<31-1).Draw(t, "v")
				if _, ok := want[name]; ok {
					repeated = true
				}
				switch name {
				case "CSeq":
					fmt.Fprintf(&b, "CSeq: %d x\r\n", n)
				case "Via":
					n %= 65536
					fmt.Fprintf(&b, "Via: SIP/2.0/UDP a:%d\r\n", n)
				case "Contact":
					n %= 65536
					fmt.Fprintf(&b, "Contact: <sip:a:%d>\r\n", n)
				case "l":
					n %= 200
					fmt.Fprintf(&b, "l: %d\r\n", n)
					name = "Content-Length"
				case "Content-Length":
					n %= 200
					fmt.Fprintf(&b, "%s:%d\r\n", name, n)
				default:
					fmt.Fprintf(&b, "%s: %d\r\n", name, n)
				}
				want[name] = n
			}
			body := strings.Repeat("b", want["Content-Length"])
			wire := b.String() + "\r\n" + body
			if repeated {
				c.NonTrivial(wire)
			}
			c.Samplef("%q", wire)
			m, err := parse([]byte(wire))
			if err != nil {
				t.Fatalf("rejected: %v\n%q", err, wire)
			}
			got := map[string]int{"CSeq": m.CSeq, "Expires": m.Expires, "Max-Forwards": m.MaxForwards, "Min-Expires": m.MinExpires}
			for k, v := range got {
				if v != want[k] {
					t.Fatalf("%s is %d, want %d in %q", k, v, want[k], wire)
				}
			}
			if m.Via != nil && int(m.Via.Last().Port) != want["Via"] {
				t.Fatalf("last Via port %d, want %d in %q", m.Via.Last().Port, want["Via"], wire)
			}
			if m.Contact != nil && int(m.Contact.Last().Uri.Port) != want["Contact"] {
				t.Fatalf("last Contact port %d, want %d in %q", m.Contact.Last().Uri.Port, want["Contact"], wire)
			}
			n := 0
			if m.Payload != nil {
				n = len(m.Payload.Data())
			}
			if n != len(body) {
				t.Fatalf("body of %d bytes, want %d in %q", n, len(body), wire)
			}
		})
}

// All versions, status codes and ports, one by one.
func TestC06All(t *testing.T) {
	hx.Exhaustive(t, "every port of a Via and URI, every SIP version up to 300.300, every three-digit status code, and port 0 to 70000 in a bare URI",
		func(count func(string)) {
			for p := 0; p <= 70000; p++ {
				u, err := sip.ParseURI([]byte(fmt.Sprintf("sip:h:%d", p)))
				count(fmt.Sprint("port", p))
				if p > 65535 {
					if err == nil {
						hx.Failf(t, "port %d read as %d", p, u.Port)
					}
					continue
				}
				if err != nil || int(u.Port) != p {
					hx.Failf(t, "port %d: %v %v", p, u, err)
				}
				if s := (&sip.Via{Host: "h", Port: uint16(p)}); p%16 == 0 {
					m := &sip.Msg{Status: 200, From: &sip.Addr{Uri: u}, To: &sip.Addr{Uri: u}, Via: s, CallID: "a", CSeqMethod: "X"}
					got, err := sip.ParseMsg([]byte(m.String()))
					if err != nil || int(got.Via.Port) != p || int(got.From.Uri.Port) != p {
						hx.Failf(t, "port %d: %v in %q", p, err, m.String())
					}
				}
			}
			for major := 0; major <= 300; major++ {
				for minor := 0; minor <= 300; minor++ {
					if minor > 12 && minor < 250 && minor%25 != major%25 {
						continue
					}
					count(fmt.Sprint("version", major, ".", minor))
					m, err := sip.ParseMsg([]byte(fmt.Sprintf("SIP/%d.%d 200 OK\r\n\r\n", major, minor)))
					if major > 255 || minor > 255 {
						if err == nil {
							hx.Failf(t, "version %d.%d read as %d.%d", major, minor, m.VersionMajor, m.VersionMinor)
						}
					} else if err != nil || int(m.VersionMajor) != major || int(m.VersionMinor) != minor {
						hx.Failf(t, "version %d.%d: %v", major, minor, err)
					}
				}
			}
			for s := 0; s <= 9999; s++ {
				for _, f := range []string{"%d", "%03d"} {
					text := fmt.Sprintf(f, s)
					count("status" + text)
					m, err := sip.ParseMsg([]byte("SIP/2.0 " + text + " OK\r\n\r\n"))
					if 100 <= s && s <= 999 {
						if err != nil || m.Status != s || !m.IsResponse() {
							hx.Failf(t, "status %s: %v", text, err)
						}
					} else if err == nil {
						hx.Failf(t, "status %s read as %d", text, m.Status)
					}
				}
			}
		})
}
