package dlgcheck

import (
	"bytes"
	"fmt"
	"net"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// hop is an address of the destination, and what happens there.
type hop struct {
	Prio uint16
	Sock int    // the peer's socket; -1: nobody
	Does string // silent, refuse, unknown, or the responses it sends
}

// plan is a destination and what happens to a call to it.
type plan struct {
	Resends  int
	Lists    [][]hop // addresses of the destination, and of the targets of redirects
	Direct   []bool  // the list has one hop, which is given by address
	Via      bool    // the first destination is given by a Route
	Cancel   int     // hang up after this response
	Cancels  int     // and the INVITE ends with this
	Late     bool    // hops that were given up answer late
	SDP      bool
	Loose    bool
	Peers    []share
	redirect int
}

// somePlan draws a plan.
func somePlan(t *rapid.T) (p plan) {
	p.Resends = rapid.IntRange(0, 2).Draw(t, "resends")
	p.Via = gen.Chance(t, "byroute", 4)
	if gen.Chance(t, "cancel", 3) {
		p.Cancel = rapid.SampledFrom([]int{100, 180}).Draw(t, "cancelat")
		p.Cancels = rapid.SampledFrom([]int{487, 503, 302}).Draw(t, "cancels")
	}
	p.Late = gen.Chance(t, "late", 3)
	p.SDP = gen.Chance(t, "sdp", 3)
	p.Loose = gen.Chance(t, "loose", 4)
	p.Peers = someShares(t, 4)
	lists := gen.Upto(t, "lists", 1, 3, 20, 40)
	for l := 0; l < lists; l++ {
		n := gen.Upto(t, "hops", 1, 5, 24, 40)
		if lists > 3 {
			n = min(n, 2)
		}
		var list []hop
		prio := uint16(0)
		for i := 0; i < n; i++ {
			prio += uint16(rapid.IntRange(1, 200).Draw(t, "prio"))
			h := hop{Prio: prio, Sock: rapid.IntRange(0, 3).Draw(t, "sock")}
			h.Does = gen.Pick(t, "does", "silent", "silent", "refuse", "unknown", "503", "100 503", "100 100 503")
			if i == n-1 || gen.Chance(t, "final", 5) {
				h.Does = gen.Pick(t, "does", "200", "100 200", "100 180 200", "404", "100 486", "180 503", "183 503", "199 503", "100 180 603", "302", "301", "100 302", "180 302", h.Does)
			}
			if strings.HasSuffix(h.Does, "02") || strings.HasSuffix(h.Does, "01") {
				if l == lists-1 {
					h.Does = "200"
				}
			}
			if h.Does == "refuse" || h.Does == "unknown" {
				h.Sock = -1
			} else if i > 0 && list[i-1].Sock >= 0 && gen.Chance(t, "sameprio", 5) && list[i-1].Sock != h.Sock && list[i-1].Prio != 0 {
				// Which of the two comes first is left to chance, if it can be seen.
				if i < 2 || list[i-2].Prio != list[i-1].Prio {
					h.Prio, prio = list[i-1].Prio, list[i-1].Prio
				}
			}
			list = append(list, h)
		}
		direct := n == 1 && list[0].Does != "unknown" && rapid.Bool().Draw(t, "direct")
		p.Lists = append(p.Lists, list)
		p.Direct = append(p.Direct, direct)
	}
	return p
}

// refuses is an address where nobody listens.
func refuses(i, j int) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(127, 9, byte(i), byte(j+1)), Port: 9}
}

// unsure is how a case fails that might do better with longer intervals.
type unsure struct{ msg string }

// failover makes a call according to a plan, with short intervals of
// retransmission, and checks every INVITE. It gives what was wrong.
func failover(t *rapid.T, hc *hx.Case, p plan, short, limit time.Duration) (s *sim, problem string) {
	socks := peers(p.Peers)
	z := newZone()
	for i, k := range socks {
		z.add(fmt.Sprintf("peer%d.example", i), udp(k).IP)
	}
	uris := make([]*sip.URI, len(p.Lists))
	for l, list := range p.Lists {
		name := fmt.Sprintf("dest%d.example", l)
		uris[l] = &sip.URI{Scheme: "sip", User: "bob", Host: name}
		for i, h := range list {
			target := fmt.Sprintf("hop%d.dest%d.example", i, l)
			a := refuses(l, i)
			if h.Sock >= 0 {
				a = udp(socks[h.Sock])
			}
			if h.Does != "unknown" {
				z.add(target, a.IP)
			}
			z.SRV["_sip._udp."+name] = append(z.SRV["_sip._udp."+name], srv{Prio: h.Prio, Weight: uint16(i * 10), Port: uint16(a.Port), Target: target + "."})
			if p.Direct[l] {
				uris[l].Host, uris[l].Port = a.IP.String(), uint16(a.Port)
			}
		}
	}
	useZone(z)
	setTimers(short, p.Resends)
	setLoose(p.Loose)
	m := &sip.Msg{VersionMajor: 2, Method: "INVITE", Request: uris[0], To: &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "bob", Host: "example.com"}}}
	if p.Via {
		m.Route = &sip.Addr{Uri: gen.CloneURI(uris[0])}
		m.Route.Uri.User = ""
		m.Route.Uri.Param = &sip.URIParam{Name: "lr"}
	}
	m.CallID = fmt.Sprintf("failover-%s", string(fmt.Sprint(time.Now().UnixNano())))
	ours(t, m)
	if p.SDP {
		offer := someSDP(t, true)
		if rapid.Bool().Draw(t, "noaddr") {
			offer.Addr, offer.Origin.Addr, offer.Origin.ID = "", "", ""
		}
		m.Payload = offer
	}
	s = &sim{hc: hc, ids: fresh{}, given: gen.Clone(m)}
	if o, ok := m.Payload.(*sdp.SDP); ok {
		o := *o
		s.given.Payload = &o
	}
	s.call = newCall(t, m, socks)
	s.id = m.CallID
	defer s.leave()
	s.fail = func(msg string) { panic(unsure{msg}) }
	s.patience = limit
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsure)
			if !ok {
				panic(e)
			}
			problem = u.msg
		}
	}()

	var first *sip.Msg
	late := func() {}
	// arrive waits for the INVITE at one of the hops.
	arrive := func(l int, hs []hop) (int, packet) {
		var at []string
		for _, h := range hs {
			at = append(at, fmt.Sprint(h.Sock))
		}
		var pk packet
		s.must("an INVITE at socket "+strings.Join(at, " or "), func() (ok bool) {
			pk, ok = s.take(func(p packet) bool { return isRequest("INVITE")(p) && !s.ids[branchOf(p.msg)] })
			return ok
		})
		s.ids.add(branchOf(pk.msg))
		i := 0
		for i < len(hs) && hs[i].Sock != pk.at {
			i++
		}
		if i == len(hs) {
			s.fatalf("an INVITE went to socket %d, want %s", pk.at, strings.Join(at, " or "))
		}
		if first == nil {
			first = pk.msg
		}
		w, g := core(first), core(pk.msg)
		w.Via, g.Via = nil, nil
		w.Contact, g.Contact = nil, nil
		if d := sameBody(first, pk.msg); d != "" {
			s.fatalf("the session description of the INVITE differs from the first one:\n%s", d)
		}
		if l > 0 {
			w.Request, w.Route = uris[l], nil
		}
		if d := gen.Diff(w, g); d != "" {
			s.fatalf("the INVITE differs from the first one:\n%s", d)
		}
		v := pk.msg.Via
		if v == nil || v.Next != nil || !branchForm.MatchString(branchOf(pk.msg)) || v.Port != uint16(pk.from.Port) {
			s.fatalf("the INVITE comes from %v and has the Via %s", pk.from, gen.Dump(v))
		}
		if p.Loose && s.loose == nil && pk.msg.Contact != nil {
			s.loose = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: int(pk.msg.Contact.Uri.Port)}
		}
		if problem := s.filledIn(pk); problem != "" {
			s.fatalf("the INVITE from %v %s", pk.from, problem)
		}
		s.invite, s.cur, s.local = pk.msg, pk.at, pk.from
		return i, pk
	}
	// leftovers drops the copies of an INVITE that may have been on their way.
	leftovers := func() {
		n := 0
		for {
			_, ok := s.take(func(p packet) bool { return isRequest("INVITE")(p) && branchOf(p.msg) == branchOf(s.invite) })
			if !ok {
				break
			}
			if n++; n > p.Resends {
				s.fatalf("there are more than %d copies of an INVITE", 1+p.Resends)
			}
		}
	}
	failed := 0
	for l := 0; l < len(p.Lists); l++ {
		rest := append([]hop{}, p.Lists[l]...)
	next:
		for {
			for len(rest) > 0 && rest[0].Sock < 0 {
				rest = rest[1:]
				failed++
			}
			if len(rest) == 0 {
				s.reports("the failure of all addresses", event{err: anError})
				late()
				s.must("the end of the call", func() bool { return s.ended })
				s.flush()
				leftovers()
				s.ends("the failure of all addresses")
				hc.Class("none left")
				break next
			}
			same := rest[:1]
			if len(rest) > 1 && rest[1].Prio == rest[0].Prio {
				same = rest[:2]
			}
			i, pk := arrive(l, same)
			late()
			h := same[i]
			if i == 1 {
				rest[0], rest[1] = rest[1], rest[0]
			}
			rest = rest[1:]
			if h.Does == "silent" {
				failed++
				for n := 0; n < p.Resends; n++ {
					c := s.await(fmt.Sprintf("copy %d of the INVITE", n+2), 1, func(p packet) bool { return isRequest("INVITE")(p) })[0]
					if c.at != pk.at || !bytes.Equal(c.raw, pk.raw) {
						s.fatalf("the INVITE was sent again to %d instead of %d, or differs:\n%q\n%q", c.at, pk.at, pk.raw, c.raw)
					}
				}
				if p.Late {
					// It answers when the call has moved on.
					old, sock, local := s.response(t, 200), pk.at, pk.from
					old.Contact = &sip.Addr{Uri: s.addrURI(t, 0)}
					old.Payload = nil
					s.wait(short/2, func() bool { return false })
					late = func() {
						s.logf("-> from %d, late: %q", sock, gen.Format(old))
						socks[sock].WriteTo(gen.Format(old), local)
						if s.local != nil && !s.ended {
							socks[s.cur].WriteTo(gen.Format(old), s.local)
						}
						late = func() {}
					}
				}
				continue
			}
			past := false
			for _, f := range strings.Fields(h.Does) {
				var status int
				fmt.Sscan(f, &status)
				r := s.response(t, status)
				r.Payload = nil
				switch {
				case status == 200:
					r.Contact = &sip.Addr{Uri: s.addrURI(t, s.cur)}
				case status == 301 || status == 302:
					r.Contact = &sip.Addr{Uri: uris[l+1]}
				}
				s.sendMsg(r)
				switch {
				case status == 100:
					s.reports("a 100", event{state: 0})
				case status == 180 || status == 183:
					s.reports("a "+f, event{state: 1})
					past = true
				case status < 200:
					past = true
				case status == 200:
					s.ok, s.remoteTo, s.target, s.routes = r, r.To, r.Contact.Uri, nil
					s.ackOf(r)
					s.reports("a 200", event{state: 2})
					leftovers()
					s.answered = true
					setTimers(noTimers, p.Resends)
					s.ping()
					s.quiet("the answer")
					s.provision = true
					s.finish(t)
					hc.Class("answered")
					break next
				case status == 503 && !past:
					s.ackOf(r)
					failed++
					// Then on to the next.
				case status == 503:
					s.ackOf(r)
					s.reports("a 503 after "+h.Does, event{err: anError})
					s.must("the end of the call", func() bool { return s.ended })
					s.flush()
					leftovers()
					s.ends("a 503 after " + h.Does)
					hc.Class("refused after ringing")
					break next
				case status == 301 || status == 302:
					s.ackOf(r)
					p.redirect++
				default:
					s.ackOf(r)
					s.reports("a "+f, event{err: &sip.ResponseError{Msg: r}})
					s.must("the end of the call", func() bool { return s.ended })
					s.flush()
					leftovers()
					s.ends("a " + f)
					hc.Class("refused")
					break next
				}
				if status == p.Cancel {
					// Nothing may be on its way.
					s.ping()
					leftovers()
					s.hangup(t)
					r := s.response(t, p.Cancels)
					r.Payload = nil
					if p.Cancels == 302 {
						r.Contact = &sip.Addr{Uri: uris[len(uris)-1]}
					}
					s.respond(t, r)
					hc.Class(fmt.Sprintf("cancelled after %d, %d hops left", p.Cancel, min(len(rest), 2)))
					break next
				}
			}
			if strings.HasSuffix(h.Does, "503") {
				s.wait(0, func() bool { return false })
				continue
			}
			break // redirected
		}
		if s.cut {
			break
		}
	}
	if s.cut && failed > 0 {
		hc.NonTrivial(fmt.Sprintf("%+v", p))
	}
	hc.Class(fmt.Sprintf("%d failed", min(failed, 6)))
	hc.Class(fmt.Sprintf("%d redirects", p.redirect))
	return s, ""
}

// again runs f, which draws the same things whenever seed is the same.
func again(seed int, f func(*rapid.T), problem *string) {
	rapid.Custom(func(t *rapid.T) int {
		defer func() {
			if e := recover(); e != nil {
				*problem = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		n := rapid.Int().Draw(t, "anything")
		f(t)
		return n
	}).Example(seed)
}

func TestC34Failover(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 16000, Thorough: 400000},
		"destinations of 1 to 5 SRV addresses, of increasing or equal priority, in up to 3 lists that redirects lead through; each address is silent, refuses by ICMP, cannot be resolved, sends 503 at "+
			"once, after 100, or after 180, redirects, refuses or answers; some calls are cancelled while they ring, some addresses answer late; a plan that fails is tried again with longer intervals, up "+
			"to 0.6 s; non-trivial: one address or more fails and the call reaches its end",
		func(t *rapid.T, c *hx.Case) {
			p := somePlan(t)
			details := rapid.IntRange(0, 1<<30).Draw(t, "details")
			problem := ""
			for _, short := range []time.Duration{6, 60, 600} {
				limit := 3 * time.Second
				if short == 600 {
					limit = patience
				}
				var s *sim
				again(details, func(t *rapid.T) { s, problem = failover(t, c, p, short*time.Millisecond, limit) }, &problem)
				if problem == "" {
					c.Sample(func() string { return fmt.Sprintf("%+v\n%s", p, s.history()) })
					return
				}
				c.Class("tried again")
			}
			t.Fatalf("%s", problem)
		})
}
