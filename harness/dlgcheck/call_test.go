package dlgcheck

import (
	"errors"
	"flag"
	"fmt"
	"net"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// setTimers configures retransmission, which is global.
func setTimers(interval time.Duration, resends int) {
	flag.Set("resendInterval", strconv.Itoa(int(interval/time.Millisecond)))
	flag.Set("maxResends", strconv.Itoa(resends))
}

func setLoose(on bool) { flag.Set("looseSignalling", strconv.FormatBool(on)) }

// noTimers is an interval so long that nothing is ever sent again.
const noTimers = 10 * time.Hour

// event is something that a call reports to its owner.
type event struct {
	err   error
	state int // if err is nil and peer empty
	peer  string
}

func (e event) String() string {
	switch {
	case e.err != nil:
		return "error " + e.err.Error()
	case e.peer != "":
		return "peer " + e.peer
	}
	return [...]string{"Proceeding", "Ringing", "Answered", "Hangup"}[e.state&3]
}

// packet is a datagram that arrived at the peer.
type packet struct {
	at   int // which of the peer's sockets
	from *net.UDPAddr
	raw  []byte
	msg  *sip.Msg // nil for markers
	when time.Time

	usi    string // time stamp, if stamped
	stamps int
}

// stamped tells that calls put time stamps into what they send and receive.
var stamped bool

// call is a call under test and its peer, who has several sockets.
type call struct {
	t       *rapid.T
	dl      *dialog.Dialog
	onErr   <-chan error
	onState <-chan int
	onPeer  <-chan *net.UDPAddr
	socks   []*net.UDPConn
	in      chan packet
	id      string       // Call-ID, once known
	local   *net.UDPAddr // where the call sends from
	loose   *net.UDPAddr // where it also listens
	cur     int          // which socket it talks to
	aside   bool         // what we send goes to where it also listens
	events  []event      // reported and not yet looked at
	packets []packet     // received and not yet looked at
	seen    []packet     // everything received, if stamped
	ended   bool
	cseq    int // of requests by the peer
	pings   int
	pongs   map[string]bool
	outside bool // ping with requests of another call, which leave no trace
	log     []string

	lenient  bool             // the call may answer nonsense with nonsense
	untold   bool             // no trail: several calls at once
	fail     func(msg string) // instead of failing the case
	patience time.Duration    // if not the usual one

	nap time.Duration // before the program takes the next reports

	hear func(*net.UDPAddr) // is told where the audio goes
}

// share is what a socket of the peer has in common with one before it.
type share struct {
	What string
	With int
}

// someShares draws what the peer's sockets have in common.
func someShares(t *rapid.T, n int) (shares []share) {
	shares = make([]share, n)
	for i := 1; i < n; i++ {
		shares[i] = share{gen.Pick(t, "shares", "nothing", "nothing", "host", "port"), rapid.IntRange(0, i-1).Draw(t, "with")}
	}
	return shares
}

// peers opens the peer's sockets. The last of three or more speaks IPv6. Some
// have the host of another, or its port.
func peers(shares []share) (socks []*net.UDPConn) {
	n := len(shares)
	for i, s := range shares {
		if i > 1 && i == n-1 && haveIPv6() {
			socks = append(socks, socket("::1", 0))
			continue
		}
		host := fmt.Sprintf("127.0.0.%d", 2+i)
		if s.What == "host" {
			host = udp(socks[s.With]).IP.String()
		}
		if s.What == "port" {
			if k, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(host), Port: udp(socks[s.With]).Port}); err == nil {
				k.SetReadBuffer(4 << 20)
				socks = append(socks, k)
				continue
			}
		}
		socks = append(socks, socket(host, 0))
	}
	return socks
}

// newCall makes a call. The sockets are the peer's.
func newCall(t *rapid.T, invite *sip.Msg, socks []*net.UDPConn) *call {
	hx.NewTrail()
	c := &call{t: t, socks: socks, pongs: map[string]bool{}, in: make(chan packet, 4096), id: invite.CallID}
	for i, s := range socks {
		go func() {
			buf := make([]byte, 65536)
			for {
				n, from, err := s.ReadFromUDP(buf)
				if err != nil {
					var ne net.Error
					if errors.Is(err, net.ErrClosed) || errors.As(err, &ne) && !ne.Temporary() {
						return
					}
					continue
				}
				p := packet{at: i, from: from, raw: append([]byte{}, buf[:n]...), when: time.Now()}
				if m, err := sip.ParseMsg(append([]byte{}, p.raw...)); err == nil {
					p.msg = m
					if stamped {
						p.usi, p.stamps = untag(m)
					}
				}
				select {
				case c.in <- p:
				default:
				}
			}
		}()
	}
	dl, err := dialog.NewDialog(invite)
	if err != nil {
		t.Fatalf("NewDialog: %v", err)
	}
	c.dl, c.onErr, c.onState, c.onPeer = dl, dl.OnErr, dl.OnState, dl.OnPeer
	return c
}

func (c *call) logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	c.log = append(c.log, s)
	if !c.untold {
		hx.Trail(s)
	}
}

// fatalf fails the case, telling what has happened before.
func (c *call) fatalf(format string, args ...any) {
	msg := fmt.Sprintf("%s\nhistory:\n%s", fmt.Sprintf(format, args...), strings.Join(c.log, "\n"))
	if c.fail != nil {
		c.fail(msg)
	}
	c.t.Fatalf("%s", msg)
}

// leave lets go of everything at the end of a case.
func (c *call) leave() {
	if !c.ended {
		// Wake it up with a BYE, so that it ends if it can.
		if c.local != nil && c.id != "" {
			bye := fmt.Sprintf("BYE sip:a SIP/2.0\r\nVia: SIP/2.0/UDP a;branch=z9hG4bKbye\r\nFrom: <sip:a>;tag=1\r\nTo: <sip:b>\r\nCall-ID: %s\r\nCSeq: %d BYE\r\nMax-Forwards: 9\r\nContent-Length: 0\r\n\r\n", c.id, 1<<31-1)
			c.socks[c.cur].WriteTo([]byte(bye), c.local)
		}
		onErr, onState, onPeer := c.onErr, c.onState, c.onPeer
		go func() {
			for onErr != nil || onState != nil || onPeer != nil {
				select {
				case _, ok := <-onErr:
					if !ok {
						onErr = nil
					}
				case _, ok := <-onState:
					if !ok {
						onState = nil
					}
				case _, ok := <-onPeer:
					if !ok {
						onPeer = nil
					}
				}
			}
		}()
	}
	for _, s := range c.socks {
		s.Close()
	}
}

// wait takes what the call reports and sends until cond holds.
func (c *call) wait(limit time.Duration, cond func() bool) bool {
	timer := time.NewTimer(limit)
	defer timer.Stop()
	for !cond() {
		select {
		case err, ok := <-c.onErr:
			if !ok {
				c.onErr = nil
			} else {
				if err == nil {
					c.fatalf("the call reports a nil error")
				}
				c.event(event{err: err})
			}
		case s, ok := <-c.onState:
			if !ok {
				c.onState = nil
			} else {
				c.event(event{state: s})
			}
		case p, ok := <-c.onPeer:
			if !ok {
				c.onPeer = nil
			} else {
				if p == nil {
					c.fatalf("the call reports a nil peer")
				}
				c.event(event{peer: p.String()})
				if c.hear != nil {
					c.hear(p)
				}
			}
		case p := <-c.in:
			if p.msg != nil && c.id != "" && p.msg.CallID != c.id && !strings.HasPrefix(p.msg.CallID, "other-") {
				break // of an earlier case
			}
			if c.stray(p) {
				break
			}
			if stamped && p.msg != nil {
				c.seen = append(c.seen, p)
			}
			if p.msg == nil && !strings.HasPrefix(string(p.raw), "marker ") {
				if c.lenient {
					c.logf("  <- at %d: %q", p.at, p.raw)
					break
				}
				c.fatalf("the call sent something that is not a SIP message: %q", p.raw)
			}
			if p.msg != nil && p.msg.Status > 0 && p.msg.Via != nil {
				if b, _ := param(p.msg.Via.Param, "branch"); strings.HasPrefix(b, "z9hG4bKping") {
					c.pongs[b] = true
					break
				}
			}
			c.packets = append(c.packets, p)
			if p.msg != nil {
				c.logf("  <- at %d: %q", p.at, p.raw)
			}
		case <-timer.C:
			return cond()
		}
		if c.onErr == nil && c.onState == nil && c.onPeer == nil && !c.ended {
			c.ended = true
			c.logf("  the call ended")
		}
	}
	return true
}

// stray tells whether a packet has nothing to do with the call: it is not a
// message of it, and comes from elsewhere, as when somebody talks to one who had
// our port before.
func (c *call) stray(p packet) bool {
	if strings.HasPrefix(string(p.raw), "marker ") || p.msg != nil && p.msg.CallID == c.id {
		return false
	}
	for _, a := range []*net.UDPAddr{c.local, c.loose} {
		if a != nil && a.Port == p.from.Port {
			return false
		}
	}
	return c.local != nil
}

func (c *call) event(e event) {
	if e.err == nil && e.peer == "" && (e.state < 0 || e.state > 3) {
		c.fatalf("the call reports state %d", e.state)
	}
	c.events = append(c.events, e)
	c.logf("  reports %v", e)
}

// must is wait for something that has to happen.
func (c *call) must(what string, cond func() bool) {
	limit := patience
	if c.patience > 0 {
		limit = min(limit, c.patience)
	}
	if c.wait(limit, cond) {
		return
	}
	if limit == c.patience && limit < patience {
		c.fatalf("%s did not happen", what)
	}
	if !loopbackWorks() {
		hx.Inconclusive("the loopback interface delivers nothing")
	}
	impatient()
	c.fatalf("%s did not happen", what)
}

// take removes the first packet that satisfies f.
func (c *call) take(f func(p packet) bool) (packet, bool) {
	for i, p := range c.packets {
		if f(p) {
			c.packets = append(c.packets[:i:i], c.packets[i+1:]...)
			return p, true
		}
	}
	return packet{}, false
}

// send sends a datagram to the call, from the socket it talks to.
func (c *call) send(b []byte) {
	c.logf("-> from %d%s: %q", c.cur, map[bool]string{true: " aside"}[c.aside], b)
	c.socks[c.cur].WriteTo(b, c.ear())
}

// ear is where our messages go.
func (c *call) ear() *net.UDPAddr {
	if c.aside {
		return &net.UDPAddr{IP: c.local.IP, Port: c.loose.Port}
	}
	return c.local
}

// throw sends a datagram to where the call also listens.
func (c *call) throw(i int, b []byte) {
	to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: c.loose.Port}
	if udp(c.socks[i]).IP.To4() == nil {
		to.IP = net.IPv6loopback
	}
	c.socks[i].WriteTo(b, to)
}

func (c *call) sendMsg(m *sip.Msg) { c.send(gen.Format(m)) }

// ping sends an OPTIONS that has to be answered after everything that was sent
// before, and waits for the answer. All that the call does because of earlier
// datagrams has happened then.
func (c *call) ping() {
	c.pings++
	branch := fmt.Sprintf("z9hG4bKping%d", c.pings)
	id := c.id
	if c.outside {
		id = "other-" + id
	}
	ask := func() {
		c.socks[c.cur].WriteTo([]byte(fmt.Sprintf("OPTIONS sip:a SIP/2.0\r\nVia: SIP/2.0/UDP ping;branch=%s\r\nFrom: <sip:a>;tag=1\r\nTo: <sip:b>\r\nCall-ID: %s\r\nCSeq: %d OPTIONS\r\n"+
			"Max-Forwards: 9\r\nContent-Length: 0\r\n\r\n", branch, id, c.cseq)), c.ear())
	}
	ask()
	answered := func() bool { return c.ended || c.pongs[branch] }
	for i := 0; i < 5; i++ {
		// It may get lost behind other datagrams, if the call is slow to read them.
		if c.wait(time.Second, answered) {
			return
		}
		ask()
	}
	c.must("the answer to an OPTIONS", answered)
}

// flush waits for what is on its way to the peer when the call has ended.
func (c *call) flush() {
	c.pings++
	m := fmt.Sprintf("marker %d", c.pings)
	for i := range c.socks {
		c.socks[i].WriteTo([]byte(m), udp(c.socks[i]))
	}
	for i := range c.socks {
		c.must("a local datagram", func() bool {
			_, ok := c.take(func(p packet) bool { return p.at == i && p.msg == nil && string(p.raw) == m })
			return ok
		})
	}
}

// over waits for the end of the call, and sees that it has let go of its
// sockets.
func (c *call) over(why string) {
	c.must("the end of the call after "+why, func() bool { return c.ended })
	c.flush()
	c.released()
}

// released sees that the sockets of an ended call are free.
func (c *call) released() {
	for _, a := range []*net.UDPAddr{c.local, c.loose} {
		if a == nil {
			continue
		}
		for limit := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
			s, err := net.ListenUDP("udp", a)
			if err == nil {
				s.Close()
				break
			}
			if !hx.OwnSocket(a.Port) {
				break // Somebody else has got the port.
			}
			if time.Now().After(limit) {
				impatient()
				c.fatalf("the socket %v of the ended call is still open: %v", a, err)
			}
		}
	}
}

// await waits for a number of packets that satisfy f and takes them.
func (c *call) await(what string, n int, f func(p packet) bool) (got []packet) {
	c.must(what, func() bool {
		for len(got) < n {
			p, ok := c.take(f)
			if !ok {
				break
			}
			got = append(got, p)
		}
		return len(got) == n
	})
	return got
}

func isRequest(method string) func(p packet) bool {
	return func(p packet) bool { return p.msg != nil && p.msg.Status == 0 && p.msg.Method == method }
}

// quiet sees that nothing unexpected is left over.
func (c *call) quiet(after string) {
	for _, p := range c.packets {
		c.fatalf("unexpected datagram at socket %d after %s: %q", p.at, after, p.raw)
	}
	for _, e := range c.events {
		c.fatalf("unexpected report after %s: %v", after, e)
	}
}

// reports sees that exactly these events have happened, in order. An error
// only has to be an error, unless it is one about a response. Addresses come
// over a channel of their own, and so before or after the rest.
func (c *call) reports(after string, want ...event) {
	if c.nap > 0 && len(want) > 0 {
		time.Sleep(c.nap)
		c.nap = 0
	}
	c.must(fmt.Sprintf("the reports %v after %s (so far %v)", want, after, c.events), func() bool { return len(c.events) >= len(want) })
	wants := sorted(want)
	for i, g := range sorted(c.events[:len(want)]) {
		w := wants[i]
		same := g.peer == w.peer && (g.err != nil) == (w.err != nil) && (w.err != nil || w.peer != "" || g.state == w.state)
		if !same {
			c.fatalf("after %s the call reports %v, want %v", after, c.events, want)
		}
		var re *sip.ResponseError
		if w.err != nil && errors.As(w.err, &re) {
			var ge *sip.ResponseError
			if !errors.As(g.err, &ge) || ge.Msg == nil || ge.Msg.Status != re.Msg.Status {
				c.fatalf("after %s the call reports the error %v, want one about a response of status %d", after, g.err, re.Msg.Status)
			}
		}
	}
	c.events = c.events[len(want):]
}

// sorted puts the addresses first.
func sorted(events []event) (res []event) {
	for _, e := range events {
		if e.peer != "" {
			res = append(res, e)
		}
	}
	for _, e := range events {
		if e.peer == "" {
			res = append(res, e)
		}
	}
	return res
}

// audioOf gives the address of the audio in a message, if any.
func audioOf(m *sip.Msg) (string, bool) {
	s, ok := m.Payload.(*sdp.SDP)
	if !ok || s == nil || s.Audio == nil {
		return "", false
	}
	return (&net.UDPAddr{IP: net.ParseIP(s.Addr), Port: int(s.Audio.Port)}).String(), true
}

// receivers counts the goroutines that read from sockets of calls.
func receivers() int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Count(string(buf), "gosip/dialog.ReceiveMessages(")
}
