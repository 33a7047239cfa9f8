package rtpcheck

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
)

// haveIPv6 tells if there is an IPv6 loopback interface.
var haveIPv6 = sync.OnceValue(func() bool {
	s, err := net.ListenPacket("udp6", "[::1]:0")
	if err != nil {
		return false
	}
	s.Close()
	return true
})

func TestC20Sockets(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 16000, Thorough: 100000},
		"histories of 1 to 60 openings of media sockets and sessions on several local hosts, with and without a port, and closings; non-trivial: at least 5 open at once",
		func(t *rapid.T, c *hx.Case) {
			type open struct {
				addr  *net.UDPAddr
				close func()
			}
			var socks []open
			defer func() {
				for _, s := range socks {
					s.close()
				}
			}()
			used := map[string]bool{}
			max := 0
			var ssrcs []uint32
			for n := rapid.IntRange(1, 60).Draw(t, "n"); n > 0; n-- {
				if len(socks) > 0 && rapid.IntRange(0, 5).Draw(t, "close") == 0 {
					i := rapid.IntRange(0, len(socks)-1).Draw(t, "i")
					socks[i].close()
					delete(used, socks[i].addr.String())
					socks = append(socks[:i], socks[i+1:]...)
					continue
				}
				host := fmt.Sprintf("127.%d.0.%d", 10+hx.Shard, rapid.IntRange(1, 2).Draw(t, "host"))
				var a net.Addr
				var cl func()
				switch rapid.IntRange(0, 2).Draw(t, "kind") {
				case 0:
					s, err := rtp.Listen(host)
					if err != nil {
						t.Fatalf("Listen(%q): %v", host, err)
					}
					a, cl = s.LocalAddr(), func() { s.Close() }
				case 1:
					rs, err := rtp.NewSession(host)
					if err != nil {
						t.Fatalf("NewSession(%q): %v", host, err)
					}
					a, cl = rs.Sock.LocalAddr(), rs.Close
					ssrcs = append(ssrcs, rs.Header.Ssrc)
				default:
					// A free port, found by closing a socket.
					network, any := "udp4", host+":0"
					if rapid.IntRange(0, 3).Draw(t, "IPv6") == 3 && haveIPv6() {
						network, any = "udp6", "[::1]:0"
						c.Class("IPv6")
					}
					p, err := net.ListenPacket(network, any)
					if err != nil {
						hx.Inconclusive("cannot open a socket: %v", err)
					}
					want := p.LocalAddr().String()
					p.Close()
					var s net.PacketConn
					if rapid.Bool().Draw(t, "session") {
						var rs *rtp.Session
						if rs, err = rtp.NewSession(want); err == nil {
							s, cl = rs.Sock, rs.Close
						}
					} else if s, err = rtp.Listen(want); err == nil {
						cl = func() { s.Close() }
					}
					if err != nil {
						if strings.Contains(err.Error(), "in use") {
							continue // somebody else took it
						}
						t.Fatalf("opening %q: %v", want, err)
					}
					if got := s.LocalAddr().String(); got != want {
						cl()
						t.Fatalf("opening %q gives %s", want, got)
					}
					c.Class("with port")
					// In use now, also for us.
					if s2, err := rtp.Listen(want); err == nil {
						s2.Close()
						cl()
						t.Fatalf("opening %q twice works", want)
					}
					cl()
					continue
				}
				ua, ok := a.(*net.UDPAddr)
				if !ok {
					t.Fatalf("%T", a)
				}
				socks = append(socks, open{ua, cl})
				if len(socks) > max {
					max = len(socks)
				}
				if !ua.IP.Equal(net.ParseIP(host)) || ua.Port%2 != 0 || ua.Port < 16384 || ua.Port > 32768 {
					t.Fatalf("opening %q gives %v", host, ua)
				}
				if used[ua.String()] {
					t.Fatalf("%v is open twice", ua)
				}
				used[ua.String()] = true
			}
			// Two might be the same by chance, in 2^32.
			for i := range ssrcs {
				if i >= 3 && ssrcs[i] == ssrcs[i-1] && ssrcs[i] == ssrcs[i-2] && ssrcs[i] == ssrcs[i-3] {
					t.Fatalf("four sessions in a row have the SSRC %#x", ssrcs[i])
				}
			}
			if max >= 5 {
				c.NonTrivial(fmt.Sprint(used))
			}
			c.Samplef("up to %d open, finally %v", max, used)
		})
}

// Many sockets are open already.
func TestC20Crowded(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 80, Thorough: 200},
		"opening 150 media sockets on a host where between 10 and 97 per cent of the range is taken: all that are opened get a free even port, and up to 50 per cent all but a few are opened; all non-trivial",
		func(t *rapid.T, c *hx.Case) {
			host := fmt.Sprintf("127.%d.1.%d", 10+hx.Shard, rapid.IntRange(1, 250).Draw(t, "host"))
			share := rapid.IntRange(10, 50).Draw(t, "share")
			if rapid.Bool().Draw(t, "crowded") {
				share = rapid.IntRange(51, 97).Draw(t, "more")
			}
			var held []net.PacketConn
			defer func() {
				for _, s := range held {
					s.Close()
				}
			}()
			ip := net.ParseIP(host)
			phase := rapid.IntRange(0, 99).Draw(t, "phase")
			for p := 16384; p <= 32768; p += 2 {
				if (p/2*61+phase)%100 < share {
					s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: p})
					if err != nil {
						if strings.Contains(err.Error(), "too many open files") {
							hx.Note("the number of open files limits TestC20Crowded to %d sockets", len(held))
							for _, s := range held[len(held)*3/4:] {
								s.Close()
							}
							held = held[:len(held)*3/4]
							break
						}
						continue
					}
					held = append(held, s)
				}
			}
			failed := 0
			used := map[int]bool{}
			for i := 0; i < 150; i++ {
				s, err := rtp.Listen(host)
				if err != nil {
					if !strings.Contains(err.Error(), "in use") {
						t.Fatalf("Listen(%q): %v", host, err)
					}
					failed++
					continue
				}
				held = append(held, s)
				p := s.LocalAddr().(*net.UDPAddr).Port
				if p%2 != 0 || p < 16384 || p > 32768 || used[p] {
					t.Fatalf("port %d", p)
				}
				used[p] = true
			}
			c.NonTrivial(fmt.Sprint(host, share, phase))
			c.Samplef("%d sockets open, %d of 150 more failed", len(held), failed)
			// Ten tries at 51%: one in 800 fails.
			if share <= 50 && failed > 10 {
				t.Fatalf("with %d%% of the ports taken, %d of 150 sockets could not be opened", share, failed)
			}
		})
}

// Nothing can be opened on the address of somebody else.
func TestC20Foreign(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000, Thorough: 20000},
		"opening media sockets and sessions, with and without a port, on an address that is not ours (192.0.2.0/24) gives an error and nothing else; non-trivial: any",
		func(t *rapid.T, c *hx.Case) {
			host := fmt.Sprintf("192.0.2.%d", rapid.IntRange(1, 254).Draw(t, "host"))
			if s, err := net.ListenPacket("udp", host+":0"); err == nil {
				s.Close()
				return // It is ours after all.
			}
			where := host
			if rapid.Bool().Draw(t, "withPort") {
				where += fmt.Sprintf(":%d", 2*rapid.IntRange(10000, 15000).Draw(t, "port"))
			}
			if rapid.Bool().Draw(t, "session") {
				rs, err := rtp.NewSession(where)
				if err == nil || rs != nil {
					t.Fatalf("NewSession(%q): %v, %v", where, rs, err)
				}
			} else {
				s, err := rtp.Listen(where)
				if err == nil {
					t.Fatalf("Listen(%q): %v", where, s.LocalAddr())
				}
			}
			c.NonTrivial(where)
			c.Samplef("%s", where)
		})
}
