package dlgcheck

import (
	"errors"
	"fmt"
	"net"
	"slices"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// sim is a call, a peer that does what is drawn, and a model of what the call
// has to do.
type sim struct {
	*call
	hc        *hx.Case
	given     *sip.Msg // INVITE that was passed to the call
	invite    *sip.Msg // INVITE as it arrived last
	ids       fresh
	provision bool     // a provisional response was sent
	answered  bool     // the INVITE was
	ok        *sip.Msg // the 200
	target    *sip.URI // where requests go
	remoteTo  *sip.Addr
	routes    *sip.Addr
	moved     bool     // the target changed after the 200
	rseq      int      // highest CSeq of the peer's requests
	lastSeq   int      // highest CSeq of ours
	bye       *sip.Msg // ours, as it arrived last
	cancelled bool
	zone      *zone
	redirects int
	finals    int // final responses that were acknowledged
	answers   int // requests that were answered
	cut       bool
	where     map[string]packet // where it was heard from
	media     []*net.UDPConn    // where the peer wants its audio, if that matters
	offer     *sdp.SDP          // of the INVITE, if given
	listen    func(*net.UDPAddr)
}

// addrURI gives a URI for one of the peer's sockets.
func (s *sim) addrURI(t *rapid.T, i int) *sip.URI {
	a := udp(s.socks[i])
	u := &sip.URI{Scheme: "sip", User: gen.Pick(t, "user", "", "bob", "b@b"), Host: a.IP.String(), Port: uint16(a.Port)}
	if rapid.Bool().Draw(t, "byname") {
		u.Host = fmt.Sprintf("peer%d.example", i)
	}
	if rapid.Bool().Draw(t, "uriparam") {
		u.Param = &sip.URIParam{Name: "x", Value: "y"}
	}
	return u
}

// someSDP makes a session description, mostly with audio, with an IP address.
func someSDP(t *rapid.T, audio bool) *sdp.SDP {
	s := gen.SDP(gen.SDPOptions{NeedAudio: audio, Simple: true}).Draw(t, "sdp")
	s.Addr = gen.Pick(t, "sdpaddr", "10.1.2.3", "127.0.0.1", "fd00::5", "0.0.0.0", "192.168.255.1")
	return s
}

// answer makes a session description of the peer's.
func (s *sim) answer(t *rapid.T) *sdp.SDP {
	d := someSDP(t, s.media != nil && !gen.Chance(t, "noaudio", 6) || rapid.Bool().Draw(t, "audio"))
	if s.media != nil {
		a := udp(s.media[rapid.IntRange(0, len(s.media)-1).Draw(t, "mediasocket")])
		d.Addr = a.IP.String()
		if d.Audio != nil {
			d.Audio.Port = uint16(a.Port)
		}
	}
	return d
}

// path makes a list of routers of which the first (or last) one is a socket of the peer's.
func (s *sim) path(t *rapid.T, label string, last bool) *sip.Addr {
	n := gen.Upto(t, label, 1, 3, 20, 40)
	a := gen.Addr(n, n).Draw(t, label)
	for p := a; p != nil; p = p.Next {
		if p.Uri.Scheme != "sip" && p.Uri.Scheme != "sips" {
			p.Uri.Scheme = "sip"
		}
	}
	hop := a
	if last {
		hop = a.Last()
	}
	hop.Uri = s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "hop"))
	if !gen.Chance(t, "strict", 3) {
		hop.Uri.Param = &sip.URIParam{Name: "lr", Next: hop.Uri.Param}
	}
	return a
}

// at gives the socket that a URI of ours stands for.
func (s *sim) at(host string, port uint16) int {
	for i, k := range s.socks {
		a := udp(k)
		if int(port) == a.Port && (host == a.IP.String() || host == fmt.Sprintf("peer%d.example", i)) {
			return i
		}
	}
	return -1
}

// begin makes a call with a random INVITE to one of the peer's sockets and
// checks the INVITE that arrives.
func begin(t *rapid.T, hc *hx.Case, loose bool) *sim {
	s := &sim{hc: hc, ids: fresh{}}
	s.begin(t, loose)
	return s
}

func (s *sim) begin(t *rapid.T, loose bool) {
	socks := peers(someShares(t, 3))
	z := newZone()
	for i, k := range socks {
		z.add(fmt.Sprintf("peer%d.example", i), udp(k).IP)
	}
	s.zone = z
	useZone(z)
	setTimers(noTimers, 2)
	setLoose(loose)
	s.call = &call{t: t, socks: socks}
	m := &sip.Msg{VersionMajor: 2, Method: "INVITE"}
	dest := rapid.IntRange(0, 2).Draw(t, "dest")
	m.Request = s.addrURI(t, dest)
	if rapid.Bool().Draw(t, "hasto") {
		m.To = gen.Addr(1, 1).Draw(t, "to")
		m.To.Param = without(without(m.To.Param, "tag"), "tag")
	}
	if gen.Chance(t, "hasroute", 3) {
		m.Route = s.path(t, "route", false)
		dest = s.at(m.Route.Uri.Host, m.Route.Uri.Port)
		if !uriParam(m.Route.Uri.Param, "lr") && m.To == nil {
			m.To = gen.Addr(1, 1).Draw(t, "to")
		}
		if rapid.Bool().Draw(t, "far") {
			m.Request = gen.URI().Draw(t, "request")
		}
	}
	if rapid.Bool().Draw(t, "hasfrom") {
		m.From = gen.Addr(1, 1).Draw(t, "from")
	}
	if rapid.Bool().Draw(t, "hascallid") {
		m.CallID = gen.CallID().Draw(t, "callid")
	}
	if rapid.Bool().Draw(t, "hascseq") {
		m.CSeq = rapid.SampledFrom([]int{1, 2, 9, 10, 99, 50000, 65535, 1 << 30}).Draw(t, "cseq")
	}
	if rapid.Bool().Draw(t, "hasmf") {
		m.MaxForwards = rapid.IntRange(20, 255).Draw(t, "mf")
	}
	if rapid.Bool().Draw(t, "hasua") {
		m.UserAgent = "X"
	}
	ours(t, m)
	if gen.Chance(t, "hasauth", 4) {
		m.Authorization = "Digest username=\"a\""
		m.ProxyAuthorization = "Digest username=\"b\""
	}
	if gen.Chance(t, "hasx", 4) {
		m.XHeader = &sip.XHeader{Name: "X-Y", Value: []byte("z")}
	}
	var offer *sdp.SDP
	if s.offer != nil {
		offer = s.offer
		m.Payload = offer
	} else if rapid.Bool().Draw(t, "hassdp") {
		offer = someSDP(t, true)
		if rapid.Bool().Draw(t, "noaddr") {
			offer.Addr, offer.Origin.Addr, offer.Origin.ID = "", "", ""
		}
		m.Payload = offer
	}
	s.given = gen.Clone(m)
	if offer != nil {
		o := *offer
		s.given.Payload = &o
	}
	id := m.CallID
	k := newCall(t, m, socks)
	k.id, k.hear = id, s.listen
	s.call = k
	p := s.awaitInvite(dest)
	s.id = p.msg.CallID
	s.checkInvite(p)
}

// ours gives an INVITE a Via and a Contact of its own, or not.
func ours(t *rapid.T, m *sip.Msg) {
	if gen.Chance(t, "hasvia", 3) {
		m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: gen.Pick(t, "viahost", "127.0.0.1", "me.example")}
		if rapid.Bool().Draw(t, "hasviaparam") {
			m.Via.Param = &sip.Param{Name: "rport", Next: &sip.Param{Name: "x", Value: "y"}}
		}
	}
	if gen.Chance(t, "hascontact", 3) {
		m.Contact = &sip.Addr{Display: "Me", Uri: &sip.URI{Scheme: "sip", User: "me", Host: gen.Pick(t, "contacthost", "127.0.0.1", "me.example")}}
		switch rapid.IntRange(0, 4).Draw(t, "contactparam") {
		case 0:
			m.Contact.Uri.Param = &sip.URIParam{Name: "x", Value: "y"}
		case 1:
			m.Contact.Uri.Param = &sip.URIParam{Name: "x", Value: "y", Next: &sip.URIParam{Name: "transport", Value: gen.Pick(t, "transport", "udp", "tcp")}}
		case 2:
			m.Contact.Param = &sip.Param{Name: "expires", Value: "60"}
		}
	}
}

// untransported takes the transport out of a Contact that was not given one.
func untransported(given, got *sip.Addr) (ok bool) {
	if given != nil && uriParam(given.Uri.Param, "transport") {
		return true
	}
	before := &got.Uri.Param
	for *before != nil && (*before).Name != "transport" {
		before = &(*before).Next
	}
	if *before == nil || (*before).Value != "udp" {
		return false
	}
	*before = (*before).Next
	return true
}

// awaitInvite waits for an INVITE at a socket; the call is there from now on.
func (s *sim) awaitInvite(dest int) packet {
	p := s.await(fmt.Sprintf("an INVITE at socket %d", dest), 1, func(p packet) bool { return p.at == dest && isRequest("INVITE")(p) })[0]
	s.cur, s.local = p.at, p.from
	if !s.ids.add(branchOf(p.msg)) {
		s.fatalf("the INVITE has the branch of an earlier one")
	}
	s.invite = p.msg
	s.lastSeq = p.msg.CSeq
	return p
}

func branchOf(m *sip.Msg) string {
	b, _ := param(m.Via.Param, "branch")
	return b
}

// checkInvite compares the first INVITE with the one that was given.
func (s *sim) checkInvite(p packet) {
	got := gen.Clone(p.msg)
	if got.Via == nil || got.Via.Next != nil || got.Contact == nil || got.From == nil || got.To == nil {
		s.fatalf("the INVITE is incomplete: %q", p.raw)
	}
	host, port := p.from.IP.String(), uint16(p.from.Port)
	if s.given.Via != nil {
		host = s.given.Via.Host
	}
	via := &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: host, Port: port}
	if s.given.Via != nil {
		via.Param = gen.CloneVia(s.given.Via).Param
	}
	chost := p.from.IP.String()
	contact := &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: chost, Port: port}}
	if s.given.Contact != nil {
		contact = gen.CloneAddr(s.given.Contact)
		contact.Uri.Port = port
	}
	if got.Contact.Uri.Port != port {
		// With loose signalling it has a socket of its own.
		contact.Uri.Port = got.Contact.Uri.Port
		s.loose = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: int(got.Contact.Uri.Port)}
	}
	if !untransported(s.given.Contact, got.Contact) {
		s.fatalf("the Contact lacks the transport: %q", p.raw)
	}
	old := gen.Clone(s.given)
	old.Via, old.Contact = nil, nil
	ids := fresh{}
	// Where the URI of a missing From comes from is the Contact.
	r, ok := route(nil, nil, old)
	if !ok || r.Err {
		hx.Inconclusive("the model of routing has no answer")
	}
	want, err := complete(via, contact, r.Msg, got, ids)
	if err != nil {
		s.fatalf("the INVITE is wrong: %v", err)
	}
	want.MaxForwards--
	if o, ok := s.given.Payload.(*sdp.SDP); ok {
		g, ok := got.Payload.(*sdp.SDP)
		if !ok {
			s.fatalf("the INVITE has no session description: %q", p.raw)
		}
		o := *o
		if o.Addr == "" {
			o.Addr = p.from.IP.String()
		}
		if o.Origin.Addr == "" {
			o.Origin.Addr = p.from.IP.String()
		}
		if o.Origin.ID == "" {
			o.Origin.ID = g.Origin.ID
			if len(g.Origin.ID) == 0 || strings.Trim(g.Origin.ID, "0123456789") != "" {
				s.fatalf("the session id is %q", g.Origin.ID)
			}
			if o.Origin.Version == "" {
				o.Origin.Version = g.Origin.Version
			}
		}
		if o.Addr != g.Addr || o.Origin.Addr != g.Origin.Addr || o.Origin.ID != g.Origin.ID || g.Audio == nil || g.Audio.Port != o.Audio.Port {
			s.fatalf("the session description is wrong: %q, given %s", p.raw, gen.Dump(&o))
		}
	}
	want.Payload, got.Payload = nil, nil
	if d := gen.Diff(want, got); d != "" {
		s.fatalf("the INVITE is wrong:\n%s", d)
	}
}

// filledIn compares what an INVITE says of our own address with where it came
// from. It has to say what it was told to, or else what is true.
func (s *sim) filledIn(p packet) string {
	our := p.from.IP.String()
	via, contact := our, our
	if s.given.Via != nil {
		via = s.given.Via.Host
	}
	if s.given.Contact != nil {
		contact = s.given.Contact.Uri.Host
	}
	if p.msg.Via.Host != via || p.msg.Via.Port != uint16(p.from.Port) {
		return fmt.Sprintf("has the Via %s", gen.Dump(p.msg.Via))
	}
	if p.msg.Contact == nil || p.msg.Contact.Uri.Host != contact || s.loose == nil && p.msg.Contact.Uri.Port != uint16(p.from.Port) || s.loose != nil && int(p.msg.Contact.Uri.Port) != s.loose.Port {
		return fmt.Sprintf("has the Contact %s", gen.Dump(p.msg.Contact))
	}
	var vp *sip.Param
	c := &sip.Addr{Uri: &sip.URI{Scheme: "sip"}}
	if s.given.Via != nil {
		vp = without(s.given.Via.Param, "branch")
	}
	if s.given.Contact != nil {
		c = gen.CloneAddr(s.given.Contact)
	}
	c.Uri.Host, c.Uri.Port = contact, p.msg.Contact.Uri.Port
	if got := gen.CloneAddr(p.msg.Contact); !untransported(s.given.Contact, got) || gen.Diff(c, got) != "" {
		return fmt.Sprintf("has the Contact %s", gen.Dump(p.msg.Contact))
	}
	if gen.Diff(vp, without(p.msg.Via.Param, "branch")) != "" {
		return fmt.Sprintf("has the Via %s", gen.Dump(p.msg.Via))
	}
	o, ok := s.given.Payload.(*sdp.SDP)
	if !ok {
		return ""
	}
	g, ok := p.msg.Payload.(*sdp.SDP)
	if !ok {
		return "has no session description"
	}
	media, origin := our, our
	if o.Addr != "" {
		media = o.Addr
	}
	if o.Origin.Addr != "" {
		origin = o.Origin.Addr
	}
	if g.Addr != media || g.Origin.Addr != origin {
		return fmt.Sprintf("has the session description %s, given %s", gen.Dump(g), gen.Dump(o))
	}
	return ""
}

// sameBody compares the bodies of two INVITEs, but for what depends on where
// they come from.
func sameBody(a, b *sip.Msg) string {
	strip := func(m *sip.Msg) any {
		o, ok := m.Payload.(*sdp.SDP)
		if !ok {
			return m.Payload
		}
		s := *o
		s.Addr, s.Origin.Addr = "", ""
		return &s
	}
	return gen.Diff(strip(a), strip(b))
}

// response makes a response to the INVITE.
func (s *sim) response(t *rapid.T, status int) *sip.Msg {
	m := &sip.Msg{VersionMajor: 2, Status: status, Phrase: gen.Pick(t, "phrase", "Whatever", "OK", ""), Via: gen.CloneVia(s.invite.Via), From: gen.CloneAddr(s.invite.From),
		To: gen.CloneAddr(s.invite.To), CallID: s.invite.CallID, CSeq: s.invite.CSeq, CSeqMethod: "INVITE"}
	if rapid.Bool().Draw(t, "received") {
		m.Via.Param = &sip.Param{Name: "received", Value: "127.0.0.1", Next: &sip.Param{Name: "rport", Value: "9", Next: m.Via.Param}}
	}
	if _, ok := param(m.To.Param, "tag"); !ok && status != 100 {
		m.To.Param = &sip.Param{Name: "tag", Value: gen.Of(gen.Alnum, 1, 8).Draw(t, "totag"), Next: m.To.Param}
	}
	if s.media != nil && !gen.Chance(t, "nosdp", 4) || gen.Chance(t, "sdp", 2) {
		m.Payload = s.answer(t)
	} else if gen.Chance(t, "otherbody", 4) {
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte("v=0\r\n")}
	}
	if gen.Chance(t, "extra", 4) {
		m.UserAgent, m.XHeader = "peer", &sip.XHeader{Name: "X-Z", Value: []byte("1")}
	}
	return m
}

// ackOf sees that the call acknowledges a response.
func (s *sim) ackOf(m *sip.Msg) {
	p := s.await("the ACK of a response", 1, isRequest("ACK"))[0]
	top := gen.CloneVia(m.Via)
	top.Next = nil
	want := &sip.Msg{Method: "ACK", Request: s.invite.Request, Via: top, From: m.From, To: m.To, CallID: m.CallID, CSeq: m.CSeq, CSeqMethod: "ACK", Route: s.invite.Route}
	if m.Status < 300 {
		want.Request, want.Route = m.Contact.Uri, reversed(m.RecordRoute)
	}
	if d := gen.Diff(want, core(p.msg)); d != "" {
		s.fatalf("the ACK is wrong:\n%s", d)
	}
	if p.at != s.cur {
		s.fatalf("the ACK went to socket %d", p.at)
	}
	if p.msg.Authorization != s.invite.Authorization || p.msg.ProxyAuthorization != s.invite.ProxyAuthorization {
		s.fatalf("the ACK has other credentials than the INVITE: %q", p.raw)
	}
	s.finals++
}

var anError = errors.New("any")

// settleStep waits until all that a step causes has happened, and sees that
// there is nothing else.
func (s *sim) settleStep(what string) {
	if s.ended || s.cut {
		s.over(what)
		s.quiet(what)
		return
	}
	s.ping()
	if s.ended {
		s.fatalf("the call ended after %s", what)
	}
	s.quiet(what)
}

// ends waits for the end of the call.
func (s *sim) ends(what string) {
	s.over(what)
	s.quiet(what)
	s.cut = true
}

// respond sends a response that matches the INVITE, as long as that is what
// the call waits for, and checks what the call does.
func (s *sim) respond(t *rapid.T, m *sip.Msg) {
	what := fmt.Sprintf("a %d", m.Status)
	s.sendMsg(m)
	if s.bye != nil {
		s.hc.Class("late response")
		s.settleStep(what) // it waits for that of the BYE
		return
	}
	var want []event
	if a, ok := audioOf(m); ok && m.Status <= 200 && !(s.answered && m.Status < 200) && !(m.Status == 200 && m.Contact == nil) {
		want = append(want, event{peer: a})
	}
	switch {
	case m.Status < 200 && s.answered:
	case m.Status == 100:
		want = append(want, event{state: 0})
	case m.Status == 180 || m.Status == 183:
		want = append(want, event{state: 1})
	case m.Status < 200:
	case m.Status == 200 && m.Contact == nil:
		s.reports(what, append(want, event{err: anError})...)
		s.must("the end of the call", func() bool { return s.ended })
		s.flush()
		s.take(isRequest("ACK"))
		s.ends("a 200 without Contact")
		return
	case m.Status == 200:
		if !s.answered {
			want = append(want, event{state: 2})
			s.answered = true
		}
		s.ok, s.remoteTo, s.target, s.routes = m, m.To, m.Contact.Uri, reversed(m.RecordRoute)
		s.ackOf(m)
	case (m.Status == 301 || m.Status == 302) && m.Contact != nil && s.cancelled:
		// The call has been hung up.
		s.ackOf(m)
		s.reports(what, event{err: anError})
		s.hc.Class("redirected after a hangup")
		s.ends(what)
		return
	case (m.Status == 301 || m.Status == 302) && m.Contact != nil:
		s.ackOf(m)
		s.redirects++
		old := s.invite
		dest := s.at(m.Contact.Uri.Host, m.Contact.Uri.Port)
		p := s.awaitInvite(dest)
		w := core(old)
		w.Request, w.Route, w.Via = m.Contact.Uri, nil, nil
		g := core(p.msg)
		g.Via = nil
		if d := gen.Diff(w, g); d != "" {
			s.fatalf("the INVITE after a redirect is wrong:\n%s", d)
		}
		if problem := s.filledIn(p); problem != "" {
			s.fatalf("the INVITE after a redirect comes from %v and %s", p.from, problem)
		}
		if d := sameBody(old, p.msg); d != "" {
			s.fatalf("the INVITE after a redirect has another session description:\n%s", d)
		}
		s.rseq, s.cseq = 0, 0
		s.provision = false
	case m.Status == 503:
		s.ackOf(m)
		s.reports(what, event{err: anError})
		s.ends(what)
		return
	default:
		s.ackOf(m)
		s.reports(what, event{err: &sip.ResponseError{Msg: m}})
		s.ends(what)
		return
	}
	if m.Status < 200 {
		s.provision = true
	}
	s.reports(what, want...)
	s.settleStep(what)
}

// ignored sends a response that is not for the transaction of the call.
func (s *sim) ignored(t *rapid.T, m *sip.Msg) {
	v := lastVia(m.Via)
	switch rapid.IntRange(0, 7).Draw(t, "mismatch") {
	case 0:
		v.Param = without(v.Param, "branch")
		v.Param = &sip.Param{Name: "branch", Value: branchOf(s.invite) + "x", Next: v.Param}
	case 1:
		v.Param = without(v.Param, "branch")
	case 2:
		m.CSeq++
	case 3:
		m.CSeq--
		if m.CSeq < 0 {
			m.CSeq = 7 + s.invite.CSeq
		}
	case 4:
		m.CSeqMethod = gen.Pick(t, "othermethod", "CANCEL", "OPTIONS", "ACK", "REGISTER")
	case 5:
		v.Port++
	case 6:
		v.Next = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "other.example", Param: v.Param}
	case 7:
		m.CallID = "other-" + m.CallID
	}
	s.sendMsg(m)
	s.hc.Class("mismatch")
	s.settleStep("a response of another transaction")
}

// request sends a request to the call and checks the answer. It returns false
// if the call has ended.
func (s *sim) request(t *rapid.T, method string) {
	m := gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true, MinVias: 1, NoSDP: true}).Draw(t, "inrequest")
	m.VersionMajor, m.VersionMinor = 2, 0
	m.Method, m.CSeqMethod = method, method
	m.CallID = s.id
	m.CSeq = s.rseq
	if s.rseq == 0 {
		m.CSeq = rapid.SampledFrom([]int{1, 2, 100, 1 << 20}).Draw(t, "firstseq")
	} else {
		m.CSeq += rapid.SampledFrom([]int{1, 1, 1, 2, 100, 0, -1, -2, -s.rseq}).Draw(t, "seqstep")
		if m.CSeq < 0 {
			m.CSeq = 0
		}
	}
	other := gen.Chance(t, "othercall", 6)
	strange := !other && gen.Chance(t, "strange", 60)
	if strange {
		v := rapid.SampledFrom([][2]uint8{{1, 0}, {2, 1}, {3, 0}, {20, 0}, {255, 255}}).Draw(t, "version")
		m.VersionMajor, m.VersionMinor = v[0], v[1]
	}
	if other {
		m.CallID = "other-" + m.CallID
	}
	m.Contact = nil
	if rapid.Bool().Draw(t, "hascontact") {
		m.Contact = &sip.Addr{Uri: s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "newcontact"))}
	}
	if method == "INVITE" {
		if s.media != nil && !gen.Chance(t, "nosdp", 4) || rapid.Bool().Draw(t, "hassdp") {
			m.Payload = s.answer(t)
		}
	}
	own := s.local
	if s.aside {
		own = &net.UDPAddr{IP: net.IPv6unspecified, Port: s.loose.Port}
	}
	seen, ok := received(own, udp(s.socks[s.cur]), m)
	if !ok {
		return
	}
	what := fmt.Sprintf("a %s with CSeq %d", method, m.CSeq)
	s.sendMsg(m)
	status := 0
	bye := false
	var want []event
	switch {
	case strange:
		want = append(want, event{err: anError})
		if method != "ACK" {
			status = 505
		}
	case method == "ACK":
	case other:
		status = 481
	case s.rseq > 0 && m.CSeq < s.rseq:
		status = 500
	default:
		s.rseq, s.cseq = m.CSeq, m.CSeq
		switch method {
		case "OPTIONS":
			status = 200
		case "BYE":
			status = 200
			bye = true
			want = append(want, event{state: 3})
		case "INVITE":
			status = 200
			if a, ok := audioOf(m); ok {
				want = append(want, event{peer: a})
			}
			if s.answered && m.Contact != nil {
				s.target = m.Contact.Uri
				s.moved = true
			}
		default:
			status = 405
		}
	}
	if status != 0 {
		branch := m.Via
		p := s.await("the answer to "+what, 1, func(p packet) bool {
			return p.msg != nil && p.msg.Status > 0
		})[0]
		_ = branch
		if p.msg.Status != status {
			s.fatalf("%s is answered with %d, want %d", what, p.msg.Status, status)
		}
		w := &sip.Msg{Via: seen.Via, From: seen.From, To: seen.To, CallID: seen.CallID, CSeq: seen.CSeq, CSeqMethod: seen.CSeqMethod}
		g := &sip.Msg{Via: p.msg.Via, From: p.msg.From, To: p.msg.To, CallID: p.msg.CallID, CSeq: p.msg.CSeq, CSeqMethod: p.msg.CSeqMethod}
		settle(w)
		settle(g)
		if d := gen.Diff(w, g); d != "" {
			s.fatalf("the answer to %s does not repeat it:\n%s", what, d)
		}
		if method == "INVITE" && status == 200 {
			if d := gen.Diff(seen.RecordRoute, p.msg.RecordRoute); d != "" {
				s.fatalf("the answer to %s does not repeat its Record-Route:\n%s", what, d)
			}
		}
		if status == 405 {
			for _, n := range []string{"INVITE", "ACK", "BYE", "OPTIONS"} {
				if !slices.ContainsFunc(strings.Split(p.msg.Allow, ","), func(a string) bool { return strings.TrimSpace(a) == n }) {
					s.fatalf("the answer to %s has the Allow %q, without %s", what, p.msg.Allow, n)
				}
			}
		}
		if p.at != s.cur {
			s.fatalf("the answer to %s went to socket %d", what, p.at)
		}
		s.answers++
		s.hc.Class(fmt.Sprintf("answer %d", status))
	}
	s.reports(what, want...)
	if strange {
		s.ends(what + " of another version of SIP")
		s.hc.Class("ended by a strange version")
		return
	}
	if bye {
		s.ends("a BYE of the peer")
		s.hc.Class("ended by the peer")
		return
	}
	s.settleStep(what)
}

// garbage sends something that is no message.
func (s *sim) garbage(t *rapid.T) {
	base := gen.Format(s.response(t, 200))
	for {
		b, surely := junk(t, base)
		if surely {
			s.send(b)
			break
		}
	}
	s.settleStep("garbage")
}

// stranger sends, from an address that is not the next hop's, what would do
// something to the call if it came from there.
func (s *sim) stranger(t *rapid.T) {
	var m *sip.Msg
	if rapid.Bool().Draw(t, "strangeresponse") {
		m = s.response(t, rapid.SampledFrom([]int{180, 200, 200, 302, 404, 487, 503}).Draw(t, "strangestatus"))
		m.Contact = &sip.Addr{Uri: s.addrURI(t, 0)}
		if s.bye != nil && rapid.Bool().Draw(t, "strangebye") {
			m = s.byeResponse(200)
		}
	} else {
		method := gen.Pick(t, "strangemethod", "BYE", "BYE", "INVITE", "OPTIONS", "INFO")
		m = &sip.Msg{VersionMajor: 2, Method: method, Request: s.addrURI(t, s.cur), Via: &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "other.example"},
			From: gen.CloneAddr(s.invite.To), To: gen.CloneAddr(s.invite.From), CallID: s.id, CSeq: s.rseq + 1, CSeqMethod: method, MaxForwards: 70, Contact: &sip.Addr{Uri: s.addrURI(t, 0)}}
	}
	i := (s.cur + rapid.IntRange(1, len(s.socks)-1).Draw(t, "stranger")) % len(s.socks)
	b := gen.Format(m)
	s.logf("-> from stranger %d: %q", i, b)
	s.socks[i].WriteTo(b, s.local)
	s.hc.Class("stranger")
	s.settleStep("a message of a stranger")
}

// hangup hangs up and checks the request that the call sends.
func (s *sim) hangup(t *rapid.T) {
	s.logf("hangup")
	s.dl.Hangup <- true
	if !s.answered {
		p := s.await("a CANCEL", 1, isRequest("CANCEL"))[0]
		want := core(s.invite)
		want.Method, want.CSeqMethod = "CANCEL", "CANCEL"
		if d := gen.Diff(want, core(p.msg)); d != "" {
			s.fatalf("the CANCEL is wrong:\n%s", d)
		}
		if p.at != s.cur {
			s.fatalf("the CANCEL went to socket %d", p.at)
		}
		s.cancelled = true
		s.hc.Class("cancel")
		s.settleStep("hanging up")
		return
	}
	m := &sip.Msg{Method: "BYE", Request: s.target, Route: s.routes}
	r, ok := route(nil, nil, m)
	if !ok || r.Err {
		hx.Inconclusive("the model of routing has no answer")
	}
	dest := s.at(r.Host, r.Port)
	p := s.await(fmt.Sprintf("a BYE at socket %d", dest), 1, func(p packet) bool { return p.at == dest && isRequest("BYE")(p) })[0]
	got := core(p.msg)
	want := &sip.Msg{Method: "BYE", CSeqMethod: "BYE", Request: r.Msg.Request, Route: r.Msg.Route, From: s.invite.From, To: s.remoteTo, CallID: s.id, CSeq: got.CSeq, Via: got.Via}
	if d := gen.Diff(want, got); d != "" {
		s.fatalf("the BYE is wrong:\n%s", d)
	}
	if got.CSeq <= s.lastSeq {
		s.fatalf("the BYE has CSeq %d after %d", got.CSeq, s.lastSeq)
	}
	s.lastSeq = got.CSeq
	if got.Via == nil || got.Via.Next != nil || got.Via.Port != uint16(p.from.Port) || !s.ids.add(branchOf(p.msg)) || !branchForm.MatchString(branchOf(p.msg)) {
		s.fatalf("the BYE comes from %v and has the Via %s", p.from, gen.Dump(got.Via))
	}
	// What the Contact of the INVITE says still holds, if the way there is the same.
	if p.at != s.cur {
		s.cur, s.local = p.at, p.from
	}
	s.bye = p.msg
	s.hc.Class("bye")
	s.settleStep("hanging up")
}

// byeResponse makes a response to our BYE.
func (s *sim) byeResponse(status int) *sip.Msg {
	return &sip.Msg{VersionMajor: 2, Status: status, Via: gen.CloneVia(s.bye.Via), From: s.bye.From, To: s.bye.To, CallID: s.bye.CallID, CSeq: s.bye.CSeq, CSeqMethod: "BYE"}
}

// finish ends the call in one of the ways it can end.
func (s *sim) finish(t *rapid.T) {
	if s.cut {
		return
	}
	if s.bye == nil && gen.Chance(t, "peerends", 3) {
		for !s.cut {
			s.request(t, "BYE")
		}
		return
	}
	if !s.answered && !s.cancelled && (!s.provision || gen.Chance(t, "refuse", 3)) {
		s.respond(t, s.response(t, rapid.SampledFrom([]int{400, 404, 486, 500, 503, 603}).Draw(t, "refusal")))
		return
	}
	if s.bye == nil && !s.cancelled {
		s.hangup(t)
	}
	if s.cancelled {
		if rapid.Bool().Draw(t, "cancelok") {
			ok := s.response(t, 200)
			ok.CSeqMethod = "CANCEL"
			ok.Payload = nil
			s.sendMsg(ok)
			s.settleStep("the 200 to the CANCEL")
		}
		s.respond(t, s.response(t, 487))
		s.hc.Class("ended by cancel")
		return
	}
	status := rapid.SampledFrom([]int{200, 200, 200, 200, 302, 481, 500, 503}).Draw(t, "byestatus")
	if rapid.Bool().Draw(t, "byeprov") {
		s.sendMsg(s.byeResponse(100))
		s.settleStep("a 100 to the BYE")
	}
	r := s.byeResponse(status)
	if status == 302 {
		r.Contact = &sip.Addr{Uri: s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "byecontact"))}
	}
	s.sendMsg(r)
	if status == 200 {
		s.reports("the 200 to the BYE", event{state: 3})
		s.hc.Class("ended by bye")
	} else {
		s.reports("an error response to the BYE", event{err: &sip.ResponseError{Msg: &sip.Msg{Status: status}}})
	}
	s.ends("the response to the BYE")
}

// weights says how often the steps of a case are drawn.
type weights struct {
	provisional, answer, repeat, refuse, redirect, noContact, mismatch, request, hangup, garbage int
}

// step draws and does one step.
func (s *sim) step(t *rapid.T, w weights) {
	var kinds []string
	add := func(k string, n int) {
		for ; n > 0; n-- {
			kinds = append(kinds, k)
		}
	}
	add("provisional", w.provisional)
	if s.bye == nil {
		if !s.answered && !s.cancelled {
			add("answer", w.answer)
			add("noContact", w.noContact)
			add("refuse", w.refuse)
			if s.redirects < 3 {
				add("redirect", w.redirect)
			}
		}
		if s.cancelled {
			add("refuse", w.refuse)
			add("redirect", w.redirect)
		}
	}
	if s.answered && !s.moved {
		add("repeat", w.repeat)
		add("another", (w.repeat+1)/2) // as from another fork
	}
	add("mismatch", w.mismatch)
	add("request", w.request)
	add("garbage", w.garbage)
	add("stranger", w.mismatch)
	if s.answered || s.provision && !s.cancelled {
		add("hangup", w.hangup)
	}
	s.aside = s.loose != nil && rapid.Bool().Draw(t, "aside")
	if s.aside {
		s.hc.Class("to the Contact")
	}
	switch rapid.SampledFrom(kinds).Draw(t, "step") {
	case "provisional":
		m := s.response(t, rapid.SampledFrom([]int{100, 100, 180, 180, 183, 183, 181, 182, 199, 101}).Draw(t, "provisional"))
		if gen.Chance(t, "early", 3) { // As of an early dialog.
			m.Contact = &sip.Addr{Uri: s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "earlycontact"))}
			if rapid.Bool().Draw(t, "earlyroute") {
				m.RecordRoute = s.path(t, "earlyroute", true)
			}
		}
		s.respond(t, m)
		s.hc.Class("provisional")
	case "answer", "another":
		again := s.answered
		m := s.response(t, 200)
		m.Contact = &sip.Addr{Uri: s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "contact"))}
		if rapid.Bool().Draw(t, "recordroute") {
			m.RecordRoute = s.path(t, "recordroute", true)
			if uriParam(m.RecordRoute.Last().Uri.Param, "lr") && rapid.Bool().Draw(t, "farcontact") {
				m.Contact.Uri = gen.URI().Draw(t, "farcontact")
			}
		}
		s.respond(t, m)
		if again {
			s.hc.Class("another 200")
		} else {
			s.hc.Class("answer")
		}
	case "noContact":
		s.respond(t, s.response(t, 200))
	case "repeat":
		s.respond(t, s.ok)
		s.hc.Class("repeated 200")
	case "refuse":
		status := rapid.IntRange(300, 699).Draw(t, "refusal")
		m := s.response(t, status)
		if (status == 301 || status == 302) == false && rapid.Bool().Draw(t, "contact") {
			m.Contact = &sip.Addr{Uri: s.addrURI(t, 0)}
		}
		if gen.Chance(t, "recordroute", 3) {
			m.RecordRoute = s.path(t, "recordroute", true)
		}
		s.respond(t, m)
		s.hc.Class(fmt.Sprintf("refused %dxx", status/100))
	case "redirect":
		m := s.response(t, rapid.SampledFrom([]int{301, 302}).Draw(t, "redirect"))
		m.Contact = &sip.Addr{Uri: s.addrURI(t, rapid.IntRange(0, len(s.socks)-1).Draw(t, "newtarget"))}
		s.respond(t, m)
		s.hc.Class("redirected")
	case "mismatch":
		status := rapid.SampledFrom([]int{100, 180, 183, 200, 200, 302, 404, 487, 503}).Draw(t, "mismatchstatus")
		m := s.response(t, status)
		if rapid.Bool().Draw(t, "contact") {
			m.Contact = &sip.Addr{Uri: s.addrURI(t, 0)}
		}
		s.ignored(t, m)
	case "request":
		s.request(t, gen.Pick(t, "method", "OPTIONS", "INVITE", "INVITE", "INFO", "MESSAGE", "UPDATE", "NOTIFY", "ACK", "CANCEL", "REGISTER", "x"))
	case "garbage":
		s.garbage(t)
	case "stranger":
		s.stranger(t)
	case "hangup":
		s.hangup(t)
	}
}

// history says what has happened, for samples.
func (s *sim) history() string { return strings.Join(s.log, "\n") }
