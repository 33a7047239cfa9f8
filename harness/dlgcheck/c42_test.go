package dlgcheck

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

// heard is a datagram that arrived where the peer wants its audio.
type heard struct {
	at  int
	raw []byte
}

// av is a call and its media session, as a program has them.
type av struct {
	*sim
	rs      *rtp.Session
	port    int // of the session
	in      chan heard
	to      int // where the audio goes; -1: nowhere
	peer    string
	started bool
	ssrc    uint32
	seq     uint16
	ts      uint32
	sent    int
	got     int
	moves   int
}

func newAV(t *rapid.T, hc *hx.Case) *av {
	rs, err := rtp.NewSession("")
	if err != nil {
		if strings.Contains(err.Error(), "in use") {
			hx.Inconclusive("no port for the session: %v", err)
		}
		t.Fatalf("NewSession: %v", err)
	}
	a := &av{sim: &sim{hc: hc, ids: fresh{}}, rs: rs, to: -1, in: make(chan heard, 4096), port: rs.Sock.LocalAddr().(*net.UDPAddr).Port}
	for i, k := range peers([]share{{}, {What: "host"}, {What: "port", With: 1}, {}}) {
		a.media = append(a.media, k)
		go func() {
			buf := make([]byte, 65536)
			for {
				n, _, err := k.ReadFromUDP(buf)
				if err != nil {
					return
				}
				select {
				case a.in <- heard{i, append([]byte{}, buf[:n]...)}:
				default:
				}
			}
		}()
	}
	a.listen = func(p *net.UDPAddr) {
		rs.Peer = p // As all programs do.
		to := -1
		for i, k := range a.media {
			if udp(k).String() == p.String() {
				to = i
			}
		}
		if a.to >= 0 && to != a.to {
			a.moves++
		}
		a.to, a.peer = to, p.String()
	}
	a.offer = someSDP(t, true)
	a.offer.Audio.Port = uint16(a.port)
	a.offer.Addr = gen.Pick(t, "ouraddr", "", "", "127.0.0.1")
	if a.offer.Addr == "" && rapid.Bool().Draw(t, "anon") {
		a.offer.Origin.Addr, a.offer.Origin.ID = "", ""
	}
	return a
}

// next gives the next datagram, which has to arrive where the audio goes.
func (a *av) next(what string) []byte {
	timer := time.NewTimer(patience)
	defer timer.Stop()
	for {
		select {
		case h := <-a.in:
			if !a.ours(h) {
				continue
			}
			if h.at != a.to {
				a.fatalf("%s went to %v, not to %s", what, udp(a.media[h.at]), a.peer)
			}
			return h.raw
		case <-timer.C:
			if !loopbackWorks() {
				hx.Inconclusive("the loopback interface delivers nothing")
			}
			impatient()
			a.fatalf("%s did not arrive at %s", what, a.peer)
		}
	}
}

// ours tells if the datagram is from this session, not from an earlier case.
func (a *av) ours(h heard) bool {
	return len(h.raw) >= 12 && binary.BigEndian.Uint32(h.raw[8:]) == a.rs.Header.Ssrc
}

// packet checks the header of a packet and gives its payload.
func (a *av) packet(what string, pt byte) []byte {
	b := a.next(what)
	seq, ts, ssrc := binary.BigEndian.Uint16(b[2:]), binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[8:])
	if b[0] != 0x80 || b[1]&0x7f != pt {
		a.fatalf("%s has the header %x", what, b[:12])
	}
	if a.started && (seq != a.seq+1 || ssrc != a.ssrc || pt != 101 && ts != a.ts) {
		a.fatalf("%s has sequence number %d after %d, timestamp %d, not %d, and SSRC %x after %x", what, seq, a.seq, ts, a.ts, ssrc, a.ssrc)
	}
	a.started, a.seq, a.ssrc = true, seq, ssrc
	if pt != 101 {
		a.ts = ts
	}
	return b[12:]
}

// talk sends something on the session.
func (a *av) talk(t *rapid.T) {
	kind := gen.Pick(t, "talk", "frame", "frame", "frame", "digit", "raw")
	a.logf("%s to %s", kind, a.peer)
	if a.rs.Peer != nil && a.to < 0 {
		return // to an address that is not the peer's
	}
	var err error
	r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "audio"), 1))
	n := rapid.IntRange(1, 3).Draw(t, "n")
	if gen.Chance(t, "long", 10) {
		n = rapid.IntRange(4, 60).Draw(t, "many")
	}
	for i := 0; i < n && err == nil; i++ {
		switch kind {
		case "frame":
			var f rtp.Frame
			for i := range f {
				f[i] = int16(r.Uint32())
			}
			keep := f
			if err = a.rs.Send(&f); err != nil || a.to < 0 {
				break
			}
			b := a.packet("a frame", 0)
			if len(b) != 160 {
				a.fatalf("a frame has %d bytes", len(b))
			}
			for i, x := range keep {
				if w := ref.UlawEncode(int64(x)); b[i] != w && ref.UlawDecode(b[i]) != ref.UlawDecode(w) {
					a.fatalf("sample %d, %d, is sent as %#x, not %#x", i, x, b[i], w)
				}
			}
			a.ts += 160
			a.sent++
		case "raw":
			raw := make([]byte, r.IntN(200))
			for i := range raw {
				raw[i] = byte(r.Uint32())
			}
			if err = a.rs.SendRaw(96, raw, 123); err != nil || a.to < 0 {
				break
			}
			if b := a.packet("a payload", 96); string(b) != string(raw) {
				a.fatalf("payload %x is sent as %x", raw, b)
			}
			a.ts += 123
			a.sent++
		case "digit":
			d := r.IntN(12)
			if err = a.rs.SendDTMF("0123456789*#"[d]); err != nil || a.to < 0 {
				break
			}
			for end := 0; end < 3; {
				b := a.packet("a digit", 101)
				if len(b) != 4 || int(b[0]) != d {
					a.fatalf("digit %d is sent as event %x", d, b)
				}
				if b[1]&0x80 != 0 {
					end++
				}
			}
			a.sent++
		}
	}
	if err != nil {
		a.fatalf("sending a %s to %s: %v", kind, a.peer, err)
	}
}

// hearken sends the session audio from one of the peer's sockets, to where the
// INVITE says it should go.
func (a *av) hearken(t *rapid.T) {
	d, ok := a.invite.Payload.(*sdp.SDP)
	if !ok || d.Audio == nil || int(d.Audio.Port) != a.port {
		a.fatalf("the INVITE does not announce the port %d", a.port)
	}
	at := &net.UDPAddr{IP: net.ParseIP(d.Addr), Port: a.port}
	from := a.media[0]
	for i, k := range a.media {
		if (udp(k).IP.To4() == nil) == (at.IP.To4() == nil) && (i == a.to || rapid.Bool().Draw(t, "from")) {
			from = k
		}
	}
	if (udp(from).IP.To4() == nil) != (at.IP.To4() == nil) {
		return
	}
	r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "theirs"), 2))
	n := rapid.IntRange(1, 4).Draw(t, "n")
	if gen.Chance(t, "long", 8) {
		n = rapid.IntRange(5, 80).Draw(t, "many")
	}
	var want []rtp.Frame
	for i := 0; i < n; i++ {
		b := []byte{0x80, 0, 0, byte(i), 0, 0, 0, 0, 1, 2, 3, 4}
		var f rtp.Frame
		for i := range f {
			c := byte(r.Uint32())
			b = append(b, c)
			f[i] = int16(ref.UlawDecode(c))
		}
		if r.IntN(4) == 0 {
			from.WriteTo(b[:r.IntN(172)], at) // Is none.
		}
		from.WriteTo(b, at)
		want = append(want, f)
	}
	a.logf("%d frames from %v to %v", n, udp(from), at)
	timer := time.NewTimer(patience)
	defer timer.Stop()
	for i, w := range want {
		select {
		case f, ok := <-a.rs.C:
			if !ok || f == nil {
				a.fatalf("the session ended")
			}
			if *f != w {
				a.fatalf("frame %d of %d is %v, not %v", i, n, *f, w)
			}
			a.rs.R <- f
			a.got++
		case err := <-a.rs.E:
			a.fatalf("the session reports %v", err)
		case <-timer.C:
			if !loopbackWorks() {
				hx.Inconclusive("the loopback interface delivers nothing")
			}
			impatient()
			a.fatalf("frame %d of %d, from %v to %v, is not delivered", i, n, udp(from), at)
		}
	}
}

// silence sees that nothing else was sent.
func (a *av) silence() {
	c, err := net.ListenUDP("udp", nil)
	if err != nil {
		hx.Inconclusive("cannot open a socket: %v", err)
	}
	defer c.Close()
	m := []byte(fmt.Sprintf("marker %d", time.Now().UnixNano()))
	for _, k := range a.media {
		c.WriteTo(m, udp(k))
	}
	timer := time.NewTimer(patience)
	defer timer.Stop()
	for n := 0; n < len(a.media); {
		select {
		case h := <-a.in:
			if string(h.raw) == string(m) {
				n++
			} else if a.ours(h) {
				a.fatalf("%x was sent to %v", h.raw, udp(a.media[h.at]))
			}
		case <-timer.C:
			hx.Inconclusive("a local datagram got lost")
		}
	}
}

func (a *av) close() {
	done := make(chan bool)
	go func() {
		a.rs.Close()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(patience):
		impatient()
		a.fatalf("the session does not close")
	}
	if s, err := net.ListenUDP("udp", &net.UDPAddr{Port: a.port}); err == nil {
		s.Close()
	} else if hx.OwnSocket(a.port) {
		a.fatalf("the port %d of the closed session is still in use: %v", a.port, err)
	}
}

func TestC42Audio(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 24000, Thorough: 1000000},
		"histories of calls as of C32 to C36 with a media session, whose peer is set to what the call reports: responses, re-INVITEs and redirects, mixed with frames, digits and payloads in both directions; "+
			"the peer has four sockets for audio, of IPv4 and IPv6, and moves between them; non-trivial: at least one thing sent and one frame received, and the address changes",
		func(t *rapid.T, c *hx.Case) {
			a := newAV(t, c)
			closed := false
			defer func() {
				if !closed {
					a.rs.Sock.Close()
				}
				for _, k := range a.media {
					k.Close()
				}
			}()
			a.begin(t, gen.Chance(t, "loose", 4))
			defer a.leave()
			for i := gen.Upto(t, "steps", 3, 20, 150, 150); i > 0 && !a.cut; i-- {
				switch gen.Pick(t, "what", "step", "step", "talk", "talk", "hearken", "move") {
				case "step":
					a.step(t, weights{provisional: 2, answer: 8, repeat: 1, redirect: 1, mismatch: 1, request: 4, hangup: 1, garbage: 1})
				case "move":
					if a.answered && a.bye == nil {
						a.request(t, "INVITE")
					} else {
						a.talk(t)
					}
				case "talk":
					a.talk(t)
				case "hearken":
					a.hearken(t)
				}
			}
			a.finish(t)
			// The session does not end with the call.
			a.talk(t)
			a.hearken(t)
			a.silence()
			a.close()
			closed = true
			if err := a.rs.Send(new(rtp.Frame)); err != nil {
				a.fatalf("sending on a closed session: %v", err)
			}
			a.silence()
			if a.sent > 0 && a.got > 0 && a.moves > 0 {
				c.NonTrivial(a.history())
			}
			c.Class(fmt.Sprintf("moves %d", min(a.moves, 4)))
			c.Class(fmt.Sprintf("sent %v, received %v", a.sent > 0, a.got > 0))
			c.Sample(a.history)
		})
}
