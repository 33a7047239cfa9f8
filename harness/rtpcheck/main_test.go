package rtpcheck

import (
	"encoding/binary"
	"errors"
	"net"
	"os"
	"testing"
	"time"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// patience is how long anything that has to happen may take.
const patience = 30 * time.Second

// socket opens a UDP socket of the test.
func socket() *net.UDPConn {
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		hx.Inconclusive("cannot open a socket: %v", err)
	}
	s.SetReadBuffer(4 << 20)
	return s
}

func addr(s *net.UDPConn) *net.UDPAddr { return s.LocalAddr().(*net.UDPAddr) }

// session opens a session, which must not fail.
func session(t *rapid.T) *rtp.Session {
	var err error
	for i := 0; i < 20; i++ {
		var rs *rtp.Session
		if rs, err = rtp.NewSession("127.0.0.1"); err == nil {
			return rs
		}
	}
	t.Fatalf("cannot open a session: %v", err)
	return nil
}

var buf [65536]byte

// receive reads the next datagram; what was sent to a local socket is there.
func receive(s *net.UDPConn) []byte {
	s.SetReadDeadline(time.Now().Add(patience))
	n, err := s.Read(buf[:])
	if err != nil {
		if errors.Is(err, os.ErrDeadlineExceeded) {
			hx.Inconclusive("the loopback interface lost a datagram")
		}
		hx.Inconclusive("cannot read from a socket: %v", err)
	}
	return append([]byte(nil), buf[:n]...)
}

var marker uint64

// sent gives all datagrams that the session has sent to the socket. A marker
// sent after them through the same socket shows where they end.
func sent(rs *rtp.Session, s *net.UDPConn) (all [][]byte) {
	marker++
	m := binary.BigEndian.AppendUint64([]byte("end of case "), marker)
	if _, err := rs.Sock.WriteTo(m, addr(s)); err != nil {
		hx.Inconclusive("cannot send: %v", err)
	}
	for {
		p := receive(s)
		if string(p) == string(m) {
			return all
		}
		all = append(all, p)
	}
}

// packet is an RTP packet taken apart by hand.
type packet struct {
	V, CC    int
	P, X, M  bool
	PT       uint8
	Seq      uint16
	TS, SSRC uint32
	Payload  []byte
}

func take(b []byte) (p packet, ok bool) {
	if len(b) < 12 {
		return p, false
	}
	w := binary.BigEndian.Uint32(b)
	p.V = int(w >> 30)
	p.P = w&(1<<29) != 0
	p.X = w&(1<<28) != 0
	p.CC = int(w >> 24 & 15)
	p.M = w&(1<<23) != 0
	p.PT = uint8(w >> 16 & 127)
	p.Seq = uint16(w)
	p.TS = binary.BigEndian.Uint32(b[4:])
	p.SSRC = binary.BigEndian.Uint32(b[8:])
	p.Payload = b[12:]
	return p, true
}
