package dlgcheck

import (
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// slowly is drive in slow motion, for many calls at a time.
func slowly(t *testing.T, w weights) {
	useNameServer()
	hx.Run(t, hx.Budget{Each: 1},
		"the histories of 30 calls at a time, step by step, with pauses of up to 4.5 seconds between the steps (40 in the thorough tier), and at times before the program takes a report: time changes nothing; "+
			"non-trivial: all",
		func(t *rapid.T, c *hx.Case) {
			loose := rapid.Bool().Draw(t, "loose")
			pauses := hx.Pauses(t)
			naps := rapid.Permutation([]int{300, 1300, 2600}).Draw(t, "naps")
			sims := make([]*sim, 30)
			for i := range sims {
				sims[i] = begin(t, c, loose)
				defer sims[i].leave()
			}
			for _, d := range pauses {
				time.Sleep(d)
				for _, s := range sims {
					if s.cut {
						continue
					}
					s.logf("after a pause of %v", d)
					useZone(s.zone)
					if len(naps) > 0 && gen.Chance(t, "nap", 30) {
						s.nap = time.Duration(naps[0]) * time.Millisecond
						naps = naps[1:]
					}
					s.step(t, w)
				}
			}
			for _, s := range sims {
				if !s.cut {
					useZone(s.zone)
					s.finish(t)
				}
			}
			c.NonTrivial(fmt.Sprint(pauses, sims[0].history()))
			c.Sample(sims[0].history)
		})
}

func TestC32Slow(t *testing.T) {
	slowly(t, weights{provisional: 4, answer: 2, repeat: 2, redirect: 1, mismatch: 1, request: 2, hangup: 1, garbage: 1})
}

func TestC35Slow(t *testing.T) {
	slowly(t, weights{provisional: 4, answer: 3, request: 2, hangup: 2})
}

func TestC36Slow(t *testing.T) {
	slowly(t, weights{provisional: 2, answer: 3, request: 8})
}

// TestC29Slow is about transports whose messages come now and then, and are
// taken late.
func TestC29Slow(t *testing.T) {
	hx.Run(t, hx.Budget{Each: 1},
		"20 transports that get messages now and then, with pauses of up to 4.5 seconds (40 in the thorough tier), and whose messages are taken up to several pauses later: all are delivered in order; non-trivial: all",
		func(t *rapid.T, c *hx.Case) {
			pauses := hx.Pauses(t)
			type end struct {
				tp   *dialog.Transport
				sock *net.UDPConn
				due  []string
			}
			ends := make([]*end, 20)
			for i := range ends {
				e := &end{tp: transport(t, &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "127.0.0.1"}}, false), sock: socket("127.0.0.2", 0)}
				defer e.sock.Close()
				defer abandon(e.tp)
				ends[i] = e
			}
			n := 0
			take := func(e *end) {
				for len(e.due) > 0 {
					select {
					case m, ok := <-e.tp.C:
						if !ok {
							t.Fatalf("the transport ended after pauses of %v", pauses)
						}
						if m.CallID != e.due[0] {
							t.Fatalf("the message %s is delivered, not %s, after pauses of %v", m.CallID, e.due[0], pauses)
						}
						e.due = e.due[1:]
					case err := <-e.tp.E:
						t.Fatalf("the transport reported the error %v after pauses of %v", err, pauses)
					case <-time.After(patience):
						if !loopbackWorks() {
							hx.Inconclusive("the loopback interface delivers nothing")
						}
						impatient()
						t.Fatalf("the message %s is not delivered after pauses of %v", e.due[0], pauses)
					}
				}
			}
			for _, d := range pauses {
				time.Sleep(d)
				for _, e := range ends {
					for k := rapid.IntRange(0, 3).Draw(t, "messages"); k > 0; k-- {
						n++
						e.sock.WriteTo(barrierMsg(n), udp(e.tp.Sock))
						e.due = append(e.due, fmt.Sprintf("barrier-%d", n))
					}
					if rapid.Bool().Draw(t, "take") {
						take(e)
					}
				}
			}
			for _, e := range ends {
				take(e)
			}
			c.NonTrivial(fmt.Sprint(pauses, n))
			c.Samplef("%d messages in pauses of %v", n, pauses)
		})
}
