package dlgcheck

import (
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// patience is how long anything that has to happen may take. Once something
// did not happen, the search for a smaller case is less patient.
var patience = 20 * time.Second

func impatient() { patience = 2 * time.Second }

// socket opens a UDP socket of the test.
func socket(host string, port int) *net.UDPConn {
	s, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(host), Port: port})
	if err != nil {
		hx.Inconclusive("cannot open a socket: %v", err)
	}
	s.SetReadBuffer(4 << 20)
	return s
}

// haveIPv6 tells if there is an IPv6 loopback interface.
var haveIPv6 = sync.OnceValue(func() bool {
	a, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback})
	if err != nil {
		return false
	}
	defer a.Close()
	a.WriteTo([]byte("x"), udp(a))
	a.SetReadDeadline(time.Now().Add(time.Second))
	_, err = a.Read(make([]byte, 1))
	return err == nil
})

// localHost draws whether something takes place on IPv4 or, now and then, on
// IPv6.
func localHost(t *rapid.T) string {
	if gen.Chance(t, "IPv6", 6) && haveIPv6() {
		return "::1"
	}
	return "127.0.0.1"
}

func udp(c net.Conn) *net.UDPAddr { return c.LocalAddr().(*net.UDPAddr) }

// someLoopback gives an address of this host that hardly anybody else uses.
func someLoopback() string {
	return fmt.Sprintf("127.%d.%d.%d", 1+rand.IntN(254), rand.IntN(256), 1+rand.IntN(254))
}

// on5060 opens a socket with port 5060 on some address of this host.
func on5060() *net.UDPConn {
	for i := 0; ; i++ {
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(someLoopback()), Port: 5060})
		if err == nil {
			s.SetReadBuffer(4 << 20)
			return s
		}
		if i == 50 {
			hx.Inconclusive("cannot open a socket on port 5060: %v", err)
		}
	}
}

// loopbackWorks tells if datagrams get through at all.
func loopbackWorks() bool {
	a, b := socket("127.0.0.1", 0), socket("127.0.0.1", 0)
	defer a.Close()
	defer b.Close()
	a.WriteTo([]byte("x"), udp(b))
	b.SetReadDeadline(time.Now().Add(10 * time.Second))
	_, err := b.Read(make([]byte, 1))
	return err == nil
}

// transport opens a transport, on port 5060 if wanted.
func transport(t *rapid.T, contact *sip.Addr, want5060 bool) *dialog.Transport {
	var err error
	for i := 0; i < 50; i++ {
		if want5060 {
			contact.Uri.Host, contact.Uri.Port = someLoopback(), 5060
		}
		var tp *dialog.Transport
		if tp, err = dialog.NewTransport(contact); err == nil {
			tp.Sock.SetReadBuffer(4 << 20)
			return tp
		}
	}
	t.Fatalf("cannot open a transport: %v", err)
	return nil
}

// closed closes the socket of a transport, which has to report one error and
// to end both channels.
func closed(t *rapid.T, tp *dialog.Transport) {
	tp.Sock.Close()
	timer := time.NewTimer(patience)
	defer timer.Stop()
	errs := 0
	c, e := tp.C, tp.E
	for c != nil || e != nil {
		select {
		case _, ok := <-c:
			if !ok {
				c = nil
			}
		case err, ok := <-e:
			if !ok {
				e = nil
			} else if err == nil {
				t.Fatalf("the transport reported a nil error")
			} else if errs++; errs > 1 {
				t.Fatalf("the transport reported a second error: %v", err)
			}
		case <-timer.C:
			impatient()
			t.Fatalf("the channels of a closed transport did not end within %v", patience)
		}
	}
	if errs != 1 {
		t.Fatalf("the closed transport reported %d errors", errs)
	}
}

// abandon lets go of a transport when a case fails.
func abandon(tp *dialog.Transport) {
	tp.Sock.Close()
	go func() {
		for range tp.C {
		}
	}()
	go func() {
		for range tp.E {
		}
	}()
}
