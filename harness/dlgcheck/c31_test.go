package dlgcheck

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

var (
	netBuf  [65536]byte
	markers uint64
)

func next(s *net.UDPConn) []byte {
	s.SetReadDeadline(time.Now().Add(patience))
	n, err := s.Read(netBuf[:])
	if errors.Is(err, os.ErrDeadlineExceeded) {
		hx.Inconclusive("the loopback interface lost a datagram")
	} else if err != nil {
		hx.Inconclusive("cannot read from a socket: %v", err)
	}
	return append([]byte(nil), netBuf[:n]...)
}

// emitted gives all datagrams that were sent from one socket to another. A
// marker sent after them shows where they end.
func emitted(from, to *net.UDPConn) (all [][]byte) {
	markers++
	m := binary.BigEndian.AppendUint64([]byte("end of case "), markers)
	if _, err := from.WriteTo(m, udp(to)); err != nil {
		hx.Inconclusive("cannot send: %v", err)
	}
	for {
		p := next(to)
		if string(p) == string(m) {
			return all
		}
		if len(p) == len(m) && string(p[:12]) == string(m[:12]) {
			continue
		}
		all = append(all, p)
	}
}

func TestC31Send(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 16000, Thorough: 300000},
		"random requests, complete or not, and responses sent through a transport, to addresses, names, routers or Vias of one of three listeners, one of them on port 5060: "+
			"one datagram at that listener and none at the others, equal to the model of completing and routing; some cannot be routed or resolved or have used up their hops; "+
			"non-trivial: it goes by a Route or Via, by name, to the default port, or fails",
		func(t *rapid.T, c *hx.Case) {
			local := localHost(t)
			contact := &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: local}, Display: "Me"}
			if rapid.Bool().Draw(t, "tparam") {
				contact.Uri.Param = &sip.URIParam{Name: "ob"}
			}
			contactDump := gen.Dump(contact)
			tp := transport(t, contact, false)
			contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: local}, Display: "Me"}
			done := false
			defer func() {
				if !done {
					abandon(tp)
				}
			}()
			_ = contactDump
			var listeners []*net.UDPConn
			if local == "::1" {
				listeners = []*net.UDPConn{socket(local, 0), socket(local, 0), socket(local, 0)}
				c.Class("IPv6")
			} else {
				listeners = []*net.UDPConn{socket("127.0.0.2", 0), socket("127.0.0.3", 0), on5060()}
			}
			for _, l := range listeners {
				defer l.Close()
			}
			z := newZone()
			useZone(z)
			dest := rapid.IntRange(0, 2).Draw(t, "dest")
			d := udp(listeners[dest])
			host, port := d.IP.String(), uint16(d.Port)
			if gen.Chance(t, "byname", 3) {
				z.add("dest.example", d.IP)
				host = "dest.example"
				c.NonTrivial("name " + d.String())
			}
			if port == 5060 && rapid.Bool().Draw(t, "defaultport") {
				port = 0
				c.NonTrivial("default port")
			}
			ids := fresh{}
			m := gen.Msg(gen.MsgOptions{Small: true}).Draw(t, "msg")
			m.Route = nil
			fail := gen.Chance(t, "fail", 5)
			noHops := false
			if m.Status > 0 {
				v := gen.Via(1, 2).Draw(t, "via")
				for _, p := range []string{"rport", "received"} {
					for _, ok := param(v.Param, p); ok; _, ok = param(v.Param, p) {
						v.Param = without(v.Param, p)
					}
				}
				v.Host, v.Port = host, port
				if port != 0 && rapid.Bool().Draw(t, "rport") {
					v.Port = uint16(rapid.IntRange(1, 65535).Draw(t, "claimed"))
					v.Param = &sip.Param{Name: "rport", Value: strconv.Itoa(int(port)), Next: v.Param}
				}
				if rapid.Bool().Draw(t, "received") {
					v.Host = "claimed.example"
					v.Param = &sip.Param{Name: "received", Value: host, Next: v.Param}
				}
				if fail {
					switch rapid.IntRange(0, 2).Draw(t, "how") {
					case 0:
						v = nil
					case 1:
						v.Param = &sip.Param{Name: "rport", Value: "65536", Next: v.Param}
					case 2:
						v.Host, v.Param = "unknown.example", nil
					}
				}
				if rapid.Bool().Draw(t, "own") {
					v = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: local, Port: uint16(udp(tp.Sock).Port), Next: v}
				}
				m.Via = v
				c.NonTrivial(gen.Dump(m.Via))
			} else {
				strip(t, m)
				if m.Via != nil {
					oneBranch(m.Via)
				}
				if m.From == nil && m.Contact != nil {
					m.Contact.Next = nil
				}
				m.Request = gen.URI().Draw(t, "target")
				u := m.Request
				if rapid.Bool().Draw(t, "route") {
					m.Route = gen.Addr(1, 2).Draw(t, "routes")
					u = m.Route.Uri
					if rapid.Bool().Draw(t, "lr") {
						u.Param = &sip.URIParam{Name: "lr", Next: u.Param}
					}
					if m.Method == "REGISTER" {
						fail = true
						c.Class("REGISTER with Route")
					}
					c.NonTrivial(gen.Dump(m.Route))
				}
				u.Host, u.Port = host, port
				if m.MaxForwards == 1 {
					m.MaxForwards = 2
				}
				if fail && !(m.Method == "REGISTER" && m.Route != nil) {
					if noHops = rapid.Bool().Draw(t, "nohops"); noHops {
						m.MaxForwards = 1
					} else {
						u.Host = "unknown.example"
					}
				}
				if rapid.Bool().Draw(t, "own") {
					m.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: local, Port: uint16(udp(tp.Sock).Port)}, Next: m.Route}
				}
			}
			old := gen.Clone(m)
			c.Samplef("%q to %v, fails %v", gen.Format(gen.Clone(m)), d, fail)
			ownVia := &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: local, Port: uint16(udp(tp.Sock).Port)}
			ownContact := gen.CloneAddr(contact)
			ownContact.Uri.Port = ownVia.Port
			tvDump, tcDump := gen.Dump(tp.Via), gen.Dump(tp.Contact)
			err := tp.Send(m)
			var got []byte
			for i, l := range listeners {
				for _, p := range emitted(tp.Sock, l) {
					if i != dest || got != nil || fail {
						t.Fatalf("unexpected datagram at %v: %q", udp(l), p)
					}
					got = p
				}
			}
			if fail {
				c.Class("fails")
				c.NonTrivial(gen.Dump(old))
				if err == nil {
					t.Fatalf("no error")
				}
			} else {
				if err != nil {
					t.Fatalf("error %v", err)
				}
				if got == nil {
					t.Fatalf("nothing arrived at %v", d)
				}
				parsed, err := sip.ParseMsg(got)
				if err != nil {
					t.Fatalf("what was sent does not parse: %v\n%q", err, got)
				}
				want := old
				if m.Status == 0 {
					c.Class("request")
					// The Contact of the transport has parameters of its own.
					p := parsed.Contact
					if old.Contact == nil && p != nil && p.Uri != nil {
						if !(p.Uri.Host == local && p.Uri.Port == ownVia.Port && p.Uri.User == "me" && p.Display == "Me" && p.Next == nil) {
							t.Fatalf("the Contact is %s", p)
						}
						ownContact = gen.CloneAddr(p)
					}
					if want, err = complete(ownVia, ownContact, old, parsed, ids); err != nil {
						t.Fatalf("%v", err)
					}
					want.MaxForwards--
				} else {
					c.Class("response")
				}
				r, ok := route(ownVia, ownContact, want)
				if !ok {
					hx.Inconclusive("the model of routing has no answer")
				}
				want = r.Msg
				if want.Phrase == "" {
					want.Phrase = parsed.Phrase
				}
				if d := gen.Diff(want, parsed); d != "" {
					t.Fatalf("the message that was sent is wrong:\n%s\n%q", d, got)
				}
			}
			if gen.Dump(tp.Via) != tvDump || gen.Dump(tp.Contact) != tcDump {
				t.Fatalf("sending changes the transport's Via or Contact")
			}
			closed(t, tp)
			done = true
		})
}

func TestC31Exchange(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 8000, Thorough: 150000},
		"two transports exchange one to four requests, with Vias that do or do not tell where they come from, and the responses to them: each is delivered once, to the other side, "+
			"and each response matches its request; also from a bare socket behind a lying Via; non-trivial: the Via does not tell the real address",
		func(t *rapid.T, c *hx.Case) {
			hosts := []string{"127.0.0.1", "127.0.0.2", "127.0.0.3"}
			if localHost(t) == "::1" {
				hosts = []string{"::1", "::1", "::1"}
				c.Class("IPv6")
			}
			a := transport(t, &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "a", Host: hosts[0]}}, false)
			b := transport(t, &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "b", Host: hosts[1]}}, false)
			raw := socket(hosts[2], 0)
			defer raw.Close()
			done := false
			defer func() {
				if !done {
					abandon(a)
					abandon(b)
				}
			}()
			for n := gen.Upto(t, "requests", 1, 4, 60, 200); n > 0; n-- {
				from, to := a, b
				if rapid.Bool().Draw(t, "back") {
					from, to = b, a
				}
				status := gen.Status().Draw(t, "status")
				if rapid.Bool().Draw(t, "bare") {
					// A request from behind a NAT.
					m := gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true, MinVias: 1, NoSDP: true}).Draw(t, "msg")
					m.Route = nil
					for _, p := range []string{"rport", "received"} {
						for _, ok := param(m.Via.Param, p); ok; _, ok = param(m.Via.Param, p) {
							m.Via.Param = without(m.Via.Param, p)
						}
					}
					m.Via.Host = gen.Pick(t, "viahost", "192.168.1.9", "phone.local", "127.0.0.3", "::1")
					m.Via.Port = rapid.SampledFrom([]uint16{0, 5060, 1234, uint16(udp(raw).Port)}).Draw(t, "viaport")
					if rapid.Bool().Draw(t, "rport") {
						m.Via.Param = &sip.Param{Name: "rport", Next: m.Via.Param}
					}
					c.NonTrivial(gen.Dump(m.Via))
					data := gen.Format(m)
					got := deliveries(t, to, func() { raw.WriteTo(data, udp(to.Sock)) })
					if len(got) != 1 {
						t.Fatalf("%d messages were delivered for %q", len(got), data)
					}
					rsp := dialog.NewResponse(got[0], status)
					if err := to.Send(rsp); err != nil {
						t.Fatalf("cannot send the response: %v\n%q", err, gen.Format(rsp))
					}
					back := emitted(to.Sock, raw)
					if len(back) != 1 {
						t.Fatalf("%d datagrams came back to %v for\n%q", len(back), udp(raw), data)
					}
					p, err := sip.ParseMsg(back[0])
					if err != nil {
						t.Fatalf("the response does not parse: %v\n%q", err, back[0])
					}
					if p.Status != status || p.CallID != m.CallID || p.CSeq != m.CSeq {
						t.Fatalf("the response is wrong: %q", back[0])
					}
					c.Class("nat")
					continue
				}
				method := gen.Method().Draw(t, "method")
				req := dialog.NewRequest(from, method, &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: udp(to.Sock).IP.String(), Port: uint16(udp(to.Sock).Port)}}, nil)
				if rapid.Bool().Draw(t, "novia") {
					req.Via = nil
				}
				c.Samplef("%q", gen.Format(req))
				got := deliveries(t, to, func() {
					if err := from.Send(req); err != nil {
						t.Fatalf("cannot send a request: %v", err)
					}
				})
				if len(got) != 1 {
					t.Fatalf("%d messages were delivered", len(got))
				}
				if got[0].Method != method || got[0].CallID != req.CallID || got[0].CSeq != req.CSeq || got[0].MaxForwards != 69 {
					t.Fatalf("sent %q, got %q", gen.Format(req), gen.Format(got[0]))
				}
				rsp := dialog.NewResponse(got[0], status)
				answers := deliveries(t, from, func() {
					if err := to.Send(rsp); err != nil {
						t.Fatalf("cannot send a response: %v", err)
					}
				})
				if len(answers) != 1 {
					t.Fatalf("%d answers were delivered", len(answers))
				}
				if answers[0].Status != status || !dialog.ResponseMatch(req, answers[0]) {
					t.Fatalf("the answer does not match\n%q\n%q", gen.Format(req), gen.Format(answers[0]))
				}
				c.Class("exchange")
			}
			closed(t, a)
			closed(t, b)
			done = true
		})
}

// Transports where there can't be one.
func TestC31Taken(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000, Thorough: 40000},
		"opening transports on an address that is taken, by a socket or another transport, or not ours (192.0.2.0/24), which is an error, and on a free one, which has that address "+
			"and which goes on working while others try to open it; non-trivial: any but a free one",
		func(t *rapid.T, c *hx.Case) {
			local := localHost(t)
			tp := transport(t, &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "a", Host: local}}, false)
			done := false
			defer func() {
				if !done {
					abandon(tp)
				}
			}()
			raw := socket(local, 0)
			defer raw.Close()
			for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
				u := &sip.URI{Scheme: "sip", User: "b", Host: local}
				kind := gen.Pick(t, "kind", "transport", "socket", "foreign", "free")
				switch kind {
				case "transport":
					u.Port = uint16(udp(tp.Sock).Port)
				case "socket":
					u.Port = uint16(udp(raw).Port)
				case "foreign":
					u.Host, u.Port = fmt.Sprintf("192.0.2.%d", rapid.IntRange(1, 254).Draw(t, "host")), uint16(rapid.IntRange(0, 1).Draw(t, "port")*5060)
					if s, err := net.ListenPacket("udp", net.JoinHostPort(u.Host, "0")); err == nil {
						s.Close()
						continue // It is ours after all.
					}
				default:
					s := socket(local, 0)
					u.Port = uint16(udp(s).Port)
					s.Close()
				}
				other, err := dialog.NewTransport(&sip.Addr{Uri: u})
				c.Samplef("%s %s: %v", kind, u, err)
				c.Class(kind)
				if kind != "free" {
					c.NonTrivial(fmt.Sprint(kind, u))
					if err == nil || other != nil {
						t.Fatalf("a transport on %s (%s): %v", u, kind, err)
					}
				} else if err == nil { // Somebody else might have taken it.
					if a := udp(other.Sock); a.IP.String() != local || a.Port != int(u.Port) || other.Contact.Uri.Port != u.Port || other.Via.Port != u.Port || other.Via.Host != local {
						t.Fatalf("the transport on %s has the address %v, Via %v and Contact %v", u, a, other.Via, other.Contact)
					}
					closed(t, other)
				}
				got := deliveries(t, tp, func() { raw.WriteTo(barrierMsg(0), udp(tp.Sock)) })
				if len(got) > 1 {
					t.Fatalf("%d messages were delivered instead of one", len(got))
				}
			}
			closed(t, tp)
			done = true
		})
}
