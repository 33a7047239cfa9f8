package rtpcheck

import (
	"fmt"
	"net"
	"testing"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
)

func TestC18Digits(t *testing.T) {
	sink := socket()
	hx.Run(t, hx.Budget{Quick: 150000, Thorough: 1000000},
		"any of the 256 characters sent on a session at any point of a stream (any sequence number, timestamp and payload type before), alone or after others, with audio after it; non-trivial: a digit",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			defer rs.Close()
			rs.Peer = addr(sink)
			if rapid.Bool().Draw(t, "set") {
				rs.Header.Seq = rapid.Uint16().Draw(t, "seq")
				if rapid.Bool().Draw(t, "wrap") {
					rs.Header.Seq |= 0xfff8
				}
				rs.Header.TS = rapid.Uint32().Draw(t, "ts")
			}
			m := &stream{ssrc: rs.Header.Ssrc, seq: rs.Header.Seq, ts: rs.Header.TS}
			desc := ""
			for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
				ch := rapid.Byte().Draw(t, "ch")
				if rapid.Bool().Draw(t, "digit") {
					ch = "0123456789*#ABCDabcd!"[rapid.IntRange(0, 20).Draw(t, "which")]
				}
				before := rs.Header
				err := rs.SendDTMF(ch)
				all := sent(rs, sink)
				desc += fmt.Sprintf("%q ", ch)
				if _, ok := isDigit(ch); ok {
					if err != nil {
						t.Fatalf("digit %q: %v", ch, err)
					}
					m.event(t, ch, all)
					c.NonTrivial(fmt.Sprint(ch, before))
				} else {
					c.Class("no digit")
					if err == nil || len(all) > 0 || rs.Header != before {
						t.Fatalf("character %q: error %v, %d packets, header %+v after %+v", ch, err, len(all), rs.Header, before)
					}
				}
				if rapid.Bool().Draw(t, "audio") {
					if err := rs.Send(aFrame(t)); err != nil {
						t.Fatal(err)
					}
					all := sent(rs, sink)
					if len(all) != 1 {
						t.Fatalf("%d packets for a frame", len(all))
					}
					p := m.common(t, "frame", all[0])
					if p.M || p.PT != 0 || p.TS != m.ts || len(p.Payload) != 160 {
						t.Fatalf("audio after digits: %+v, timestamp should be %d", p, m.ts)
					}
					m.ts += 160
				}
			}
			c.Samplef("%s from seq %d", desc, m.seq)
		})
}

// Without a peer, then with one.
func TestC18Peer(t *testing.T) {
	sink := socket()
	hx.Run(t, hx.Budget{Quick: 80000, Thorough: 1000000},
		"any of the 256 characters, without a peer, where digits do nothing, and then with one; non-trivial: any",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			defer rs.Close()
			ch := rapid.Byte().Draw(t, "ch")
			before := rs.Header
			err := rs.SendDTMF(ch)
			_, ok := isDigit(ch)
			if (err == nil) != ok || rs.Header != before {
				t.Fatalf("character %q without a peer: %v, header %+v after %+v", ch, err, rs.Header, before)
			}
			rs.Peer = addr(sink)
			err = rs.SendDTMF(ch)
			all := sent(rs, sink)
			if (err == nil) != ok || (len(all) > 0) != ok {
				t.Fatalf("character %q: %v, %d packets", ch, err, len(all))
			}
			c.NonTrivial(fmt.Sprint(ch))
			c.Samplef("%q", ch)
		})
}

// A peer that nothing can be sent to, and then one that is there.
func TestC18Failures(t *testing.T) {
	sink := socket()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 400000},
		"1 to 4 frames, raw payloads and digits to a peer that cannot be sent to, which is reported, and then a frame or a digit to one that can, which has the right marker bits and payload type and goes on counting; non-trivial: a digit among what could not be sent",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			defer rs.Close()
			desc := ""
			digits := false
			for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
				rs.Peer = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 0}
				if _, err := rs.Sock.WriteTo([]byte("x"), rs.Peer); err == nil {
					return // It can be sent to.
				}
				var err error
				switch rapid.IntRange(0, 2).Draw(t, "what") {
				case 0:
					err = rs.Send(new(rtp.Frame))
					desc += "frame "
				case 1:
					err = rs.SendRaw(8, []byte("data"), 80)
					desc += "raw "
				default:
					err = rs.SendDTMF('5')
					desc += "digit "
					digits = true
				}
				if err == nil {
					t.Fatalf("%s: no error, though it can't be sent", desc)
				}
			}
			rs.Peer = addr(sink)
			h := rs.Header
			digit := rapid.Bool().Draw(t, "digit")
			var err error
			if digit {
				err = rs.SendDTMF('7')
			} else {
				err = rs.Send(new(rtp.Frame))
			}
			if err != nil {
				t.Fatalf("%s: then %v", desc, err)
			}
			all := sent(rs, sink)
			if len(all) == 0 || !digit && len(all) != 1 {
				t.Fatalf("%s: then %d packets", desc, len(all))
			}
			for i, b := range all {
				p, ok := take(b)
				if !ok || p.Seq != h.Seq+uint16(i) || p.SSRC != h.Ssrc || p.TS != h.TS || p.M != (digit && i == 0) || (p.PT == 101) != digit {
					t.Fatalf("%s: then packet %d is %+v, of %+v", desc, i, p, h)
				}
			}
			if digits {
				c.NonTrivial(desc + fmt.Sprint(digit))
			}
			c.Samplef("%s, then digit %v", desc, digit)
		})
}
