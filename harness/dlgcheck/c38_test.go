package dlgcheck

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// dangling tells if one of our sockets sends to somebody other than the peer:
// it was told that the peer has moved to an address that is not ours.
func dangling(socks []*net.UDPConn) bool {
	ours := map[string]bool{"00000000:0000": true, strings.Repeat("0", 32) + ":0000": true}
	for _, s := range socks {
		a := udp(s)
		ip := a.IP.To4()
		if ip == nil {
			ip = a.IP
		}
		text := ""
		for w := 0; w < len(ip); w += 4 {
			text += hex.EncodeToString([]byte{ip[w+3], ip[w+2], ip[w+1], ip[w]})
		}
		ours[fmt.Sprintf("%s:%04X", strings.ToUpper(text), a.Port)] = true
	}
	mine := map[string]bool{}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		l, _ := os.Readlink("/proc/self/fd/" + f.Name())
		if i, ok := strings.CutPrefix(l, "socket:["); ok {
			mine[strings.TrimSuffix(i, "]")] = true
		}
	}
	for _, n := range []string{"/proc/self/net/udp", "/proc/self/net/udp6"} {
		b, _ := os.ReadFile(n)
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) > 9 && mine[f[9]] && !ours[f[2]] && strings.Trim(f[2], "0:") != "" {
				return true
			}
		}
	}
	return false
}

// attack is a message for the call that a well or ill meaning peer sends.
func (s *sim) attack(t *rapid.T) []byte {
	var m *sip.Msg
	about := s.invite
	switch rapid.IntRange(0, 9).Draw(t, "attack") {
	case 0, 1, 2:
		m = s.response(t, rapid.SampledFrom([]int{100, 180, 183, 199, 200, 200, 200, 202, 302}).Draw(t, "status"))
		if gen.Chance(t, "final", 12) {
			m.Status = rapid.SampledFrom([]int{301, 302, 404, 486, 487, 503, 699}).Draw(t, "status")
		}
		if gen.Chance(t, "nocontact", 8) {
			m.Contact = nil
		} else if m.Status >= 200 || rapid.Bool().Draw(t, "contact") {
			m.Contact = &sip.Addr{Uri: s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "where"))}
		}
		if gen.Chance(t, "recordroute", 3) {
			m.RecordRoute = s.path(t, "recordroute", rapid.Bool().Draw(t, "mine"))
		}
		m.CSeqMethod = gen.Pick(t, "of", "INVITE", "INVITE", "INVITE", "BYE", "CANCEL")
	case 3, 4, 5:
		m = gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true}).Draw(t, "request")
		m.Method = gen.Pick(t, "method", "INVITE", "INVITE", "OPTIONS", "ACK", "CANCEL", "INFO", "X")
		if gen.Chance(t, "bye", 25) {
			m.Method = "BYE"
		}
		m.CSeqMethod = m.Method
		m.CallID = about.CallID
		m.CSeq = rapid.SampledFrom([]int{0, 1, 2, 3, 1 << 31, 1<<31 - 1, about.CSeq}).Draw(t, "cseq")
		if gen.Chance(t, "othermethod", 4) {
			m.CSeqMethod = "OTHER"
		}
		if m.Contact != nil && rapid.Bool().Draw(t, "here") {
			m.Contact = &sip.Addr{Uri: s.addrURI(t, 0)}
		}
	case 6:
		m = gen.Msg(gen.MsgOptions{Small: true}).Draw(t, "any")
	case 7:
		// What it sent itself.
		m = gen.Clone(about)
	case 8:
		m = gen.Clone(about)
		m.Status, m.Phrase, m.Request, m.Method = 200, "OK", nil, ""
	case 9:
		b, _ := junk(t, gen.Format(s.response(t, 200)))
		return b
	}
	m.VersionMajor, m.VersionMinor = 2, 0
	if m.Status == 0 {
		m.MaxForwards = max(m.MaxForwards, 1)
	}
	if gen.Chance(t, "nomf", 40) {
		m.MaxForwards = 0
	}
	if gen.Chance(t, "version", 60) {
		m.VersionMajor, m.VersionMinor = 3, 1
	}
	b := gen.Format(m)
	for n := rapid.IntRange(-3, 3).Draw(t, "mutations"); n > 0; n-- {
		b = gen.MutateBytes(t, b)
	}
	return b
}

// volley sends datagrams to all sockets of the call.
func (s *sim) volley(t *rapid.T, n int) {
	for ; n > 0; n-- {
		b := s.attack(t)
		if len(b) > 60000 {
			b = b[:60000]
		}
		if s.loose != nil && gen.Chance(t, "anywhere", 3) {
			i := rapid.IntRange(0, len(s.socks)-1).Draw(t, "sender")
			s.logf("-> from %d, to the Contact: %q", i, b)
			s.throw(i, b)
			continue
		}
		s.send(b)
		if gen.Chance(t, "pause", 3) {
			s.wait(200*time.Microsecond, func() bool { return false })
		}
	}
}

// alive tells if the call still answers an OPTIONS, wherever it listens to.
func (s *sim) alive() bool {
	s.pings++
	answered := false
	pause := 5 * time.Millisecond
	for !answered && !s.ended {
		// The call may have moved from one of our sockets to another.
		branch := fmt.Sprintf("z9hG4bKalive%d", s.pings)
		s.pings++
		ask := []byte(fmt.Sprintf("OPTIONS sip:a SIP/2.0\r\nVia: SIP/2.0/UDP ping;branch=%s\r\nFrom: <sip:a>;tag=1\r\nTo: <sip:b>\r\nCall-ID: %s\r\nCSeq: %d OPTIONS\r\n"+
			"Max-Forwards: 9\r\nContent-Length: 0\r\n\r\n", branch, s.id, 1<<31-1))
		s.socks[s.cur].WriteTo(ask, s.local)
		for _, w := range s.where {
			s.socks[w.at].WriteTo(ask, w.from)
		}
		if s.loose != nil {
			s.throw(s.cur, ask)
		}
		got := func() bool {
			for _, p := range s.packets {
				if p.msg == nil {
					continue
				}
				if s.where[fmt.Sprint(p.at, p.from)] = p; isRequest("INVITE")(p) {
					// It probably talks to this socket now.
					s.invite, s.cur, s.local = p.msg, p.at, p.from
				}
				if p.msg.Status > 0 && p.msg.Via != nil && branchOf(p.msg) == branch {
					if p.msg.Status != 200 && p.msg.Status != 500 {
						s.fatalf("an OPTIONS is answered with %d", p.msg.Status)
					}
					answered = true
				}
			}
			s.packets = nil
			return answered
		}
		if !s.wait(pause, func() bool { return got() || s.ended }) {
			if pause > 100*time.Millisecond && dangling(s.socks) {
				return false
			}
			if pause = pause * 3 / 2; pause > patience/2 {
				if !loopbackWorks() {
					hx.Inconclusive("the loopback interface delivers nothing")
				}
				impatient()
				s.fatalf("the call does not answer an OPTIONS")
			}
		}
	}
	return answered
}

func TestC38Fuzz(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 24000, Thorough: 1000000},
		"bursts of 1 to 12 datagrams to a call in a random state (after up to 4 regular steps, hung up or not): responses and requests of all kinds that match the call, messages it sent itself, "+
			"random messages, and mutations of all of these; with short or long intervals of retransmission, and to its second socket with loose signalling; the call has to answer an OPTIONS afterwards and to "+
			"end after a hangup, or to have ended; non-trivial: 2 or more bursts, or the call survived",
		func(t *rapid.T, c *hx.Case) {
			s := begin(t, c, gen.Chance(t, "loose", 3))
			defer s.leave()
			for i := rapid.IntRange(0, 4).Draw(t, "steps"); i > 0 && !s.cut; i-- {
				s.step(t, weights{provisional: 3, answer: 3, repeat: 1, redirect: 1, request: 2, hangup: 1})
			}
			if s.cut {
				return
			}
			s.events, s.packets = nil, nil
			s.where = map[string]packet{}
			s.lenient = true
			if gen.Chance(t, "timers", 3) {
				setTimers(time.Duration(rapid.IntRange(1, 20).Draw(t, "interval"))*time.Millisecond, rapid.IntRange(0, 3).Draw(t, "resends"))
			}
			bursts := 0
			alive := true
			for i := rapid.IntRange(1, 3).Draw(t, "bursts"); i > 0 && alive; i-- {
				bursts++
				s.volley(t, rapid.IntRange(1, 12).Draw(t, "datagrams"))
				alive = s.alive()
				s.events, s.packets = nil, nil
			}
			c.Sample(s.history)
			if alive || bursts > 1 {
				c.NonTrivial(s.history())
			}
			if !alive && !s.ended {
				c.Class("moved away")
				return
			}
			if alive {
				c.Class("alive")
				s.obeys()
			} else {
				c.Class("ended")
			}
			if s.cut = true; s.ended {
				s.over("a burst")
			}
		})
}

// obeys sees that a hangup ends the call, if its peer plays along.
func (s *sim) obeys() {
	s.logf("hangup")
	select {
	case s.dl.Hangup <- true:
	default:
		s.fatalf("nobody listens to Hangup")
	}
	tries := 0
	for !s.ended {
		var p packet
		found := false
		look := func() bool {
			if s.ended {
				return true
			}
			if !found {
				p, found = s.take(func(p packet) bool { return isRequest("CANCEL")(p) || isRequest("BYE")(p) })
			}
			return found
		}
		if !s.wait(patience/20, look) {
			if dangling(s.socks) {
				s.hc.Class("moved away at last")
				return
			}
			if tries++; tries > 20 {
				if !loopbackWorks() {
					hx.Inconclusive("the loopback interface delivers nothing")
				}
				impatient()
				s.fatalf("a hangup neither ends the call nor sends anything")
			}
			continue
		}
		if s.ended {
			break
		}
		r := &sip.Msg{VersionMajor: 2, Status: 200, Via: p.msg.Via, From: p.msg.From, To: p.msg.To, CallID: p.msg.CallID, CSeq: p.msg.CSeq, CSeqMethod: p.msg.Method}
		if p.msg.Method == "CANCEL" {
			r.Status, r.CSeqMethod = 487, "INVITE"
		}
		s.cur, s.local = p.at, p.from
		s.sendMsg(r)
		s.hc.Class("ended by " + p.msg.Method)
	}
}

// TestC38Junk sends what is no message at all, which changes nothing.
func TestC38Junk(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 20000, Thorough: 400000},
		"histories of up to 6 regular steps with bursts of 1 to 30 datagrams in between that are no SIP messages: the call neither reports nor sends anything because of them, and goes on as the model "+
			"says; non-trivial: 2 or more bursts",
		func(t *rapid.T, c *hx.Case) {
			s := begin(t, c, gen.Chance(t, "loose", 3))
			defer s.leave()
			bursts := 0
			for i := rapid.IntRange(0, 6).Draw(t, "steps"); i > 0 && !s.cut; i-- {
				if gen.Chance(t, "burst", 2) {
					base := gen.Format(s.response(t, rapid.SampledFrom([]int{180, 200, 404}).Draw(t, "status")))
					for n := rapid.IntRange(1, 30).Draw(t, "datagrams"); n > 0; n-- {
						if b, surely := junk(t, bytes.Clone(base)); surely {
							if s.loose != nil && rapid.Bool().Draw(t, "anywhere") {
								s.throw(0, b)
							} else {
								s.send(b)
							}
						}
					}
					s.settleStep("junk")
					bursts++
				}
				s.step(t, weights{provisional: 3, answer: 3, repeat: 1, redirect: 1, request: 2, hangup: 1})
			}
			s.finish(t)
			c.Sample(s.history)
			if bursts > 1 {
				c.NonTrivial(s.history())
			}
		})
}
