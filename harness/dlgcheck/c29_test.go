package dlgcheck

import (
	"bytes"
	"fmt"
	"net"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// received is the model of what a transport on laddr makes of a message from
// addr. It returns ok false where the outcome is left open.
func received(laddr, addr *net.UDPAddr, m *sip.Msg) (want *sip.Msg, ok bool) {
	m = gen.Clone(m)
	ours := func(u *sip.URI) bool {
		port := u.Port
		if port == 0 {
			port = 5060
		}
		return u.Host == laddr.IP.String() && int(port) == laddr.Port
	}
	if m.Status == 0 {
		if int(m.Via.Port) != addr.Port {
			if v, ok := param(m.Via.Param, "rport"); !ok || v == "" {
				m.Via.Param = &sip.Param{Name: "rport", Value: strconv.Itoa(addr.Port), Next: without(m.Via.Param, "rport")}
			}
		}
		if m.Via.Host != addr.IP.String() {
			if _, ok := param(m.Via.Param, "received"); !ok {
				m.Via.Param = &sip.Param{Name: "received", Value: addr.IP.String(), Next: m.Via.Param}
			}
		}
	}
	if m.Route != nil && ours(m.Route.Uri) {
		m.Route = m.Route.Next
		if m.Route != nil && ours(m.Route.Uri) {
			return nil, false
		}
	}
	if m.Status == 0 && m.Route != nil && ours(m.Request) && uriParam(m.Request.Param, "lr") {
		last := &m.Route
		for (*last).Next != nil {
			last = &(*last).Next
		}
		m.Request = (*last).Uri
		*last = nil
	}
	return m, true
}

// settle puts the parameters that a transport may add in a fixed place.
func settle(m *sip.Msg) {
	if m.Via == nil {
		return
	}
	for _, n := range []string{"rport", "received"} {
		if v, ok := param(m.Via.Param, n); ok {
			m.Via.Param = &sip.Param{Name: n, Value: v, Next: without(m.Via.Param, n)}
		}
	}
}

// arriving makes a message for a transport on laddr, from addr.
func arriving(t *rapid.T, laddr, addr *net.UDPAddr) *sip.Msg {
	m := gen.Msg(gen.MsgOptions{Small: true, MinVias: 1}).Draw(t, "msg")
	v := m.Via
	for _, n := range []string{"rport", "received"} {
		for _, ok := param(v.Param, n); ok; _, ok = param(v.Param, n) {
			v.Param = without(v.Param, n)
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "viahost") {
	case 0, 1:
		v.Host = addr.IP.String()
	case 2:
		v.Host = laddr.IP.String()
	}
	switch rapid.IntRange(0, 3).Draw(t, "viaport") {
	case 0, 1:
		v.Port = uint16(addr.Port)
	case 2:
		v.Port = uint16(laddr.Port)
	}
	if rapid.Bool().Draw(t, "rport") {
		v.Param = &sip.Param{Name: gen.Pick(t, "rportname", "rport", "RPort"), Value: gen.Pick(t, "rportvalue", "", "", "1", "5060"), Next: v.Param}
	}
	if gen.Chance(t, "received", 3) {
		v.Param = &sip.Param{Name: "received", Value: gen.Pick(t, "rec", "10.9.9.9", addr.IP.String()), Next: v.Param}
	}
	own := func(u *sip.URI) {
		u.Host, u.Port = laddr.IP.String(), uint16(laddr.Port)
		switch rapid.IntRange(0, 5).Draw(t, "own") {
		case 0:
			u.Port++
		case 1:
			u.Host = "127.0.0.77"
		case 2:
			u.Port = 0
		}
		if u.Port == 0 && u.Scheme == "sips" {
			u.Scheme = "sip"
		}
	}
	if rapid.Bool().Draw(t, "route") {
		m.Route = gen.Addr(1, 3).Draw(t, "routes")
		if rapid.Bool().Draw(t, "ownroute") {
			own(m.Route.Uri)
		}
		if gen.Chance(t, "ownlast", 4) {
			own(m.Route.Last().Uri)
		}
	}
	if m.Request != nil {
		if rapid.Bool().Draw(t, "ownrequest") {
			own(m.Request)
		}
		if rapid.Bool().Draw(t, "lr") {
			m.Request.Param = &sip.URIParam{Name: "lr", Next: m.Request.Param}
		}
	}
	if gen.Chance(t, "big", 12) {
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(strings.Repeat(gen.Bytes(1, 20).Draw(t, "part"), 1+rapid.IntRange(0, 2500).Draw(t, "times")))}
	}
	return m
}

// barrierMsg is a message that any transport delivers.
func barrierMsg(n int) []byte {
	return []byte(fmt.Sprintf("OPTIONS sip:a SIP/2.0\r\nVia: SIP/2.0/UDP a;branch=z9hG4bKx\r\nFrom: <sip:a>;tag=1\r\nTo: <sip:b>\r\nCall-ID: barrier-%d\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 9\r\nContent-Length: 0\r\n\r\n", n))
}

var barriers int

// deliveries sends datagrams and gives everything that the transport delivers
// for them. The end is marked by a message sent after them.
func deliveries(t *rapid.T, tp *dialog.Transport, send func()) (got []*sip.Msg) {
	send()
	barriers++
	s := socket(udp(tp.Sock).IP.String(), 0)
	defer s.Close()
	s.WriteTo(barrierMsg(barriers), udp(tp.Sock))
	id := fmt.Sprintf("barrier-%d", barriers)
	deadline := time.After(patience)
	for {
		select {
		case m, ok := <-tp.C:
			if !ok {
				t.Fatalf("the transport ended")
			}
			if m.CallID == id {
				return got
			}
			if strings.HasPrefix(m.CallID, "barrier-") && len(m.CallID) < 30 && m.From.Uri.Host == "a" {
				continue // of an earlier attempt
			}
			got = append(got, m)
		case err := <-tp.E:
			t.Fatalf("the transport reported the error %v", err)
		case <-deadline:
			if !loopbackWorks() {
				hx.Inconclusive("the loopback interface delivers nothing")
			}
			impatient()
			t.Fatalf("the transport does not deliver any more")
		}
	}
}

func TestC29Receive(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 16000, Thorough: 300000},
		"one to six random requests and responses sent to a transport from up to three addresses, with Vias that name the sender or not and Routes and Request-URIs "+
			"that name the transport or not, one by one or in a burst: what is delivered compared with a model; non-trivial: a request gains received or rport, or a Route or Request-URI is fixed",
		func(t *rapid.T, c *hx.Case) {
			local := localHost(t)
			contact := &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: local}}
			tp := transport(t, contact, local != "::1" && gen.Chance(t, "5060", 3))
			done := false
			defer func() {
				if !done {
					abandon(tp)
				}
			}()
			laddr := udp(tp.Sock)
			var socks []*net.UDPConn
			for n := rapid.IntRange(1, 3).Draw(t, "senders"); n > 0; n-- {
				host := fmt.Sprintf("127.0.0.%d", n)
				if local == "::1" {
					host = local
					c.Class("IPv6")
				}
				s := socket(host, 0)
				defer s.Close()
				socks = append(socks, s)
			}
			type sending struct {
				from *net.UDPConn
				data []byte
				want *sip.Msg
			}
			var all []sending
			for n := gen.Upto(t, "messages", 1, 6, 150, 200); n > 0; n-- {
				s := socks[rapid.IntRange(0, len(socks)-1).Draw(t, "from")]
				m := arriving(t, laddr, udp(s))
				want, ok := received(laddr, udp(s), m)
				if !ok {
					continue
				}
				data := gen.Format(m)
				if len(data) > 60000 {
					continue
				}
				// The body of a session description is compared in C13.
				if d := gen.Diff(want, m); d != "" {
					c.NonTrivial(d)
				}
				if len(data) > 2048 {
					c.Class("big")
				}
				all = append(all, sending{s, data, want})
			}
			if len(all) > 0 {
				c.Samplef("to %v from %v: %q", laddr, udp(all[0].from), all[0].data)
			}
			check := func(want []sending, got []*sip.Msg) string {
				if len(want) != len(got) {
					return fmt.Sprintf("%d messages were sent and %d delivered", len(want), len(got))
				}
				for i := range want {
					w, g := gen.Clone(want[i].want), gen.Clone(got[i])
					if w.Phrase == "" {
						w.Phrase = g.Phrase
					}
					settle(w)
					settle(g)
					w.SourceAddr, g.SourceAddr = nil, nil
					if d := gen.Diff(w, g); d != "" {
						return fmt.Sprintf("message %d from %v to %v was delivered as:\n%s\n%q", i, udp(want[i].from), laddr, d, want[i].data)
					}
				}
				return ""
			}
			if rapid.Bool().Draw(t, "burst") {
				// The kernel hardly ever reorders datagrams, but it may.
				var bad string
				for try := 0; try < 3; try++ {
					got := deliveries(t, tp, func() {
						for _, s := range all {
							s.from.WriteTo(s.data, laddr)
						}
					})
					if bad = check(all, got); bad == "" {
						break
					}
				}
				if bad != "" {
					t.Fatalf("in a burst: %s", bad)
				}
				c.Class("burst")
			} else {
				for _, s := range all {
					got := deliveries(t, tp, func() { s.from.WriteTo(s.data, laddr) })
					if bad := check([]sending{s}, got); bad != "" {
						t.Fatalf("%s", bad)
					}
				}
			}
			closed(t, tp)
			done = true
		})
}

// junk makes datagrams that are not SIP messages or may not be.
func junk(t *rapid.T, base []byte) (data []byte, surely bool) {
	switch rapid.IntRange(0, 7).Draw(t, "junk") {
	case 0:
		return nil, true
	case 1:
		return []byte(gen.Pick(t, "keepalive", "\r\n", "\r\n\r\n", "\x00", "\x00\x00\x00\x00", "hello", "SIP/2.0", " ", "INVITE")), true
	case 2:
		// No byte string without the version is a message.
		return bytes.ReplaceAll([]byte(gen.Bytes(1, 3000).Draw(t, "bytes")), []byte("SIP/"), nil), true
	case 3:
		// Cut before the blank line.
		n := bytes.Index(base, []byte("\r\n\r\n"))
		return base[:rapid.IntRange(0, n+1).Draw(t, "cut")], true
	case 4:
		// Without any Via.
		var lines [][]byte
		for _, l := range bytes.SplitAfter(base, []byte("\r\n")) {
			if !bytes.HasPrefix(l, []byte("Via:")) {
				lines = append(lines, l)
			}
		}
		return bytes.Join(lines, nil), false
	case 5:
		return bytes.Repeat([]byte{0xff}, rapid.SampledFrom([]int{1, 2047, 2048, 2049, 9000, 65507}).Draw(t, "length")), true
	default:
		b := base
		for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0; n-- {
			b = gen.MutateBytes(t, b)
		}
		if len(b) > 60000 {
			b = b[:60000]
		}
		return b, false
	}
}

func TestC30Survive(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 12000, Thorough: 200000},
		"valid messages, with random, cut, mutated and empty datagrams and messages without Via between them, sent to a transport from random senders: exactly those that parse and have a Via are "+
			"delivered, all of them equal to a message that travels alone, and none changes later; then the transport is closed, at times with messages nobody has taken; "+
			"non-trivial: junk was sent between two valid messages",
		func(t *rapid.T, c *hx.Case) {
			contact := &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: "127.0.0.1"}}
			tp := transport(t, contact, false)
			done := false
			defer func() {
				if !done {
					abandon(tp)
				}
			}()
			laddr := udp(tp.Sock)
			s := socket("127.0.0.1", 0)
			defer s.Close()
			var kept []*sip.Msg
			var dumps []string
			valid, junked := 0, 0
			for n := gen.Upto(t, "datagrams", 1, 10, 150, 200); n > 0; n-- {
				m := gen.Msg(gen.MsgOptions{Small: true, MinVias: 1}).Draw(t, "msg")
				m.Route = nil
				for _, p := range []string{"rport", "received"} {
					m.Via.Param = without(without(m.Via.Param, p), p)
				}
				data := gen.Format(m)
				surely := false
				isJunk := rapid.Bool().Draw(t, "isjunk")
				if isJunk {
					data, surely = junk(t, data)
					junked++
				}
				if len(data) > 60000 {
					continue
				}
				alone, err := sip.ParseMsg(append([]byte{}, data...))
				expect := err == nil && alone.Via != nil
				if surely && expect {
					t.Fatalf("the parser takes %q for a message", data)
				}
				if !isJunk && !expect {
					t.Fatalf("the parser does not take %q: %v", data, err)
				}
				if expect && isJunk {
					c.Class("junk that parses")
				}
				if !expect {
					c.Class("dropped")
				}
				var want *sip.Msg
				if expect {
					var ok bool
					if want, ok = received(laddr, udp(s), alone); !ok {
						continue
					}
					if valid++; valid > 1 && junked > 0 {
						c.NonTrivial(string(data))
					}
				}
				c.Samplef("%q delivered %v", data, expect)
				got := deliveries(t, tp, func() { s.WriteTo(data, laddr) })
				if !expect {
					if len(got) > 0 {
						t.Fatalf("%q is no message, but was delivered as %q", data, gen.Format(got[0]))
					}
					continue
				}
				if len(got) != 1 {
					t.Fatalf("%d messages were delivered for %q", len(got), data)
				}
				w, g := gen.Clone(want), gen.Clone(got[0])
				settle(w)
				settle(g)
				w.SourceAddr, g.SourceAddr = nil, nil
				if d := gen.Diff(w, g); d != "" {
					t.Fatalf("delivered after %d other datagrams, the message is not what it is alone:\n%s\n%q", junked+valid, d, data)
				}
				kept = append(kept, got[0])
				dumps = append(dumps, gen.Dump(got[0]))
			}
			// Something long overwrites any buffer that is still in use.
			deliveries(t, tp, func() { s.WriteTo(bytes.Repeat([]byte{0xff}, 60000), laddr) })
			for i, m := range kept {
				if d := gen.DiffText(dumps[i], gen.Dump(m)); d != "" {
					t.Fatalf("a delivered message changed later:\n%s", d)
				}
			}
			if rapid.Bool().Draw(t, "pending") {
				for n := gen.Upto(t, "pendings", 1, 3, 40, 60); n > 0; n-- {
					s.WriteTo(barrierMsg(0), laddr)
				}
				c.Class("closed with messages pending")
			}
			closed(t, tp)
			done = true
		})
}
