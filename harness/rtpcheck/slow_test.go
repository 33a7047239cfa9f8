package rtpcheck

import (
	"fmt"
	"testing"
	"time"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

// TestC17Slow is about sessions that send now and then.
func TestC17Slow(t *testing.T) {
	sink := socket()
	hx.Run(t, hx.Budget{Each: 1},
		"20 sessions that send frames, payloads and digits now and then, with pauses of up to 4.5 seconds (40 in the thorough tier): time changes nothing in their streams; non-trivial: all",
		func(t *rapid.T, c *hx.Case) {
			pauses := hx.Pauses(t)
			var all []*rtp.Session
			var models []*stream
			for i := 0; i < 20; i++ {
				rs := session(t)
				defer rs.Close()
				rs.Peer = addr(sink)
				all = append(all, rs)
				models = append(models, &stream{ssrc: rs.Header.Ssrc, seq: rs.Header.Seq, ts: rs.Header.TS})
			}
			for _, d := range pauses {
				time.Sleep(d)
				for i, rs := range all {
					m := models[i]
					what := fmt.Sprintf("session %d after a pause of %v", i, d)
					switch rapid.IntRange(0, 4).Draw(t, "op") {
					case 0, 1, 2:
						f := aFrame(t)
						if err := rs.Send(f); err != nil {
							hx.Inconclusive("cannot send: %v", err)
						}
						p := m.common(t, what, receive(sink))
						if p.PT != 0 || p.M || p.TS != m.ts || len(p.Payload) != 160 {
							t.Fatalf("%s: %+v, want the timestamp %d", what, p, m.ts)
						}
						for k, v := range f {
							if p.Payload[k] != ref.UlawEncode(int64(v)) {
								t.Fatalf("%s: sample %d is %d", what, k, p.Payload[k])
							}
						}
						m.ts += 160
					case 3:
						if err := rs.SendDTMF('5'); err != nil {
							hx.Inconclusive("cannot send: %v", err)
						}
						var event [][]byte
						for ends := 0; ends < 3; {
							b := append([]byte{}, receive(sink)...)
							if len(b) == 16 && b[13]&0x80 != 0 {
								ends++
							}
							event = append(event, b)
						}
						m.event(t, '5', event)
					}
				}
			}
			c.NonTrivial(fmt.Sprint(pauses, all[0].Header))
			c.Samplef("pauses of %v", pauses)
		})
}

// TestC19Slow is about sessions that receive now and then, and whose frames
// are taken late.
func TestC19Slow(t *testing.T) {
	from := socket()
	hx.Run(t, hx.Budget{Each: 1},
		"20 sessions that get packets now and then, with pauses of up to 4.5 seconds (40 in the thorough tier), and whose frames are taken, and handed back, up to several pauses later: all are delivered in order; non-trivial: all",
		func(t *rapid.T, c *hx.Case) {
			pauses := hx.Pauses(t)
			type end struct {
				rs   *rtp.Session
				due  []rtp.Frame
				held *rtp.Frame
			}
			var ends []*end
			defer func() {
				for _, e := range ends {
					e.rs.Sock.Close()
				}
			}()
			for i := 0; i < 20; i++ {
				ends = append(ends, &end{rs: session(t)})
			}
			key := uint32(0)
			back := func(e *end) {
				if e.held != nil {
					e.rs.R <- e.held
					e.held = nil
				}
			}
			take := func(e *end) {
				for len(e.due) > 0 {
					back(e)
					select {
					case f, ok := <-e.rs.C:
						if !ok {
							t.Fatalf("the session ended after pauses of %v: %v", pauses, <-e.rs.E)
						}
						if *f != e.due[0] {
							t.Fatalf("a frame is wrong or missing after pauses of %v", pauses)
						}
						e.due, e.held = e.due[1:], f
					case <-time.After(patience):
						t.Fatalf("a frame is not delivered after pauses of %v", pauses)
					}
				}
			}
			for _, d := range pauses {
				time.Sleep(d)
				for _, e := range ends {
					for k := rapid.IntRange(0, 3).Draw(t, "packets"); k > 0; k-- {
						b, f := audio(t, key)
						key++
						if _, err := from.WriteTo(b, addr(e.rs.Sock)); err != nil {
							hx.Inconclusive("cannot send: %v", err)
						}
						e.due = append(e.due, f)
					}
					if rapid.Bool().Draw(t, "take") {
						take(e)
					}
					if rapid.Bool().Draw(t, "back") {
						back(e)
					}
				}
			}
			for _, e := range ends {
				take(e)
				back(e)
			}
			for _, e := range ends {
				done := make(chan bool)
				go func() {
					e.rs.Close()
					close(done)
				}()
				select {
				case <-done:
				case <-time.After(patience):
					t.Fatalf("Close does not return after pauses of %v", pauses)
				}
			}
			ends = nil
			c.NonTrivial(fmt.Sprint(pauses, key))
			c.Samplef("%d packets in pauses of %v", key, pauses)
		})
}
