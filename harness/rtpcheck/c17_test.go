package rtpcheck

import (
	"bytes"
	"fmt"
	"net"
	"testing"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

// stream is the model of the sending side of a session.
type stream struct {
	ssrc uint32
	seq  uint16 // of the next packet
	ts   uint32 // of the next audio or raw packet
}

func isDigit(ch byte) (code byte, ok bool) {
	for i := 0; i < 17; i++ {
		if "0123456789*#ABCD!"[i] == ch {
			return byte(i), true
		}
	}
	if ch >= 'a' && ch <= 'd' {
		return ch - 'a' + 12, true
	}
	return 0, false
}

// common checks what every packet of the stream has in common.
func (m *stream) common(t *rapid.T, what string, b []byte) packet {
	p, ok := take(b)
	if !ok || p.V != 2 || p.X || p.CC != 0 || p.P {
		t.Fatalf("%s: bad header %x", what, b)
	}
	if p.SSRC != m.ssrc {
		t.Fatalf("%s: SSRC %#x, not %#x", what, p.SSRC, m.ssrc)
	}
	if p.Seq != m.seq {
		t.Fatalf("%s: sequence number %d, not %d", what, p.Seq, m.seq)
	}
	m.seq++
	return p
}

// event checks the packets of a digit.
func (m *stream) event(t *rapid.T, digit byte, all [][]byte) {
	code, _ := isDigit(digit)
	what := fmt.Sprintf("digit %q", digit)
	if len(all) < 4 {
		t.Fatalf("%s: %d packets", what, len(all))
	}
	last := -1
	var ts uint32
	for i, b := range all {
		p := m.common(t, what, b)
		if i == 0 {
			ts = p.TS
		}
		if p.PT != 101 || p.TS != ts || p.M != (i == 0) || len(p.Payload) != 4 {
			t.Fatalf("%s: packet %d of %d is %+v, first timestamp %d", what, i, len(all), p, ts)
		}
		dur := int(p.Payload[2])<<8 | int(p.Payload[3])
		end := p.Payload[1]&0x80 != 0
		if p.Payload[0] != code || p.Payload[1]&0x40 != 0 {
			t.Fatalf("%s: packet %d is event %x", what, i, p.Payload)
		}
		if dur < last || dur == 0 || dur > 400 {
			t.Fatalf("%s: duration %d after %d", what, dur, last)
		}
		last = dur
		if end != (i >= len(all)-3) || end && dur != 400 {
			t.Fatalf("%s: packet %d of %d has end bit %v, duration %d", what, i, len(all), end, dur)
		}
	}
	if ts != m.ts {
		t.Fatalf("%s: timestamp %d, not %d", what, ts, m.ts)
	}
}

var edges16 = []int16{0, 1, -1, 3, 4, -4, -5, 123, 124, 32767, -32768, 32634, 32635, -32636, 8031, 16252, -16252, 1000}

func aFrame(t *rapid.T) *rtp.Frame {
	var f rtp.Frame
	x := rapid.Uint32().Draw(t, "fill") | 1
	flat := rapid.IntRange(0, 5).Draw(t, "flat") == 0
	v := edges16[rapid.IntRange(0, len(edges16)-1).Draw(t, "v")]
	for i := range f {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		switch {
		case flat:
			f[i] = v
		case x&0xf00 == 0:
			f[i] = edges16[int(x>>16)%len(edges16)]
		default:
			f[i] = int16(x >> 8 >> (x & 7))
		}
	}
	return &f
}

func TestC17Stream(t *testing.T) {
	sinks := []*net.UDPConn{socket(), socket()}
	hx.Run(t, hx.Budget{Quick: 150000, Thorough: 600000},
		"sequences of 1 to 15 audio frames, raw payloads, digits, peer changes and header settings on a new session, every datagram at the peers compared with a model of the stream; non-trivial: at least 3 packets of at least 2 kinds",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			defer rs.Close()
			if rs.Peer != nil {
				t.Fatalf("new session has a peer")
			}
			m := &stream{ssrc: rs.Header.Ssrc, seq: rs.Header.Seq, ts: rs.Header.TS}
			var peer *net.UDPConn
			if rapid.IntRange(0, 4).Draw(t, "peer") > 0 {
				peer = sinks[0]
				rs.Peer = addr(peer)
			}
			if rapid.IntRange(0, 2).Draw(t, "set") == 0 {
				rs.Header.Ssrc = rapid.Uint32().Draw(t, "ssrc")
				rs.Header.Seq = 65535 - rapid.Uint16Range(0, 20).Draw(t, "seq")
				rs.Header.TS = 1<<32 - 1 - rapid.Uint32Range(0, 3000).Draw(t, "ts")
				m = &stream{ssrc: rs.Header.Ssrc, seq: rs.Header.Seq, ts: rs.Header.TS}
				c.Class("near wrap-around")
			}
			kinds := map[string]bool{}
			packets := 0
			desc := ""
			for n := rapid.IntRange(1, 15).Draw(t, "n"); n > 0; n-- {
				before := rs.Header
				var err error
				var want func([][]byte)
				op := rapid.IntRange(0, 9).Draw(t, "op")
				switch {
				case op <= 3:
					f := aFrame(t)
					keep := *f
					desc += "send "
					err = rs.Send(f)
					if *f != keep {
						t.Fatalf("sending changed the frame")
					}
					want = func(all [][]byte) {
						if len(all) != 1 {
							t.Fatalf("frame: %d packets", len(all))
						}
						p := m.common(t, "frame", all[0])
						if p.PT != 0 || p.TS != m.ts || len(p.Payload) != 160 || p.M {
							t.Fatalf("frame: %+v, timestamp should be %d", p, m.ts)
						}
						for i, b := range p.Payload {
							if w := ref.UlawEncode(int64(f[i])); b != w {
								t.Fatalf("frame: sample %d, %d, is %#x, not %#x", i, f[i], b, w)
							}
						}
						m.ts += 160
						kinds["audio"] = true
					}
				case op <= 6:
					pt := rapid.Uint8Range(0, 127).Draw(t, "pt")
					size := rapid.IntRange(0, 40).Draw(t, "size")
					if rapid.IntRange(0, 4).Draw(t, "big") == 0 {
						size = []int{0, 160, 1400, 1487, 1488, 1489, 2000, 9000}[rapid.IntRange(0, 7).Draw(t, "bigsize")]
					}
					data := make([]byte, size)
					x := rapid.Byte().Draw(t, "data")
					for i := range data {
						data[i] = x + byte(i*7)
					}
					keep := append([]byte(nil), data...)
					samps := rapid.Uint32().Draw(t, "samps")
					if rapid.Bool().Draw(t, "few") {
						samps %= 1000
					}
					desc += fmt.Sprintf("raw(%d,%d,%d) ", pt, size, samps)
					err = rs.SendRaw(pt, data, samps)
					if !bytes.Equal(data, keep) {
						t.Fatalf("sending changed the payload")
					}
					want = func(all [][]byte) {
						if len(all) != 1 {
							t.Fatalf("raw: %d packets", len(all))
						}
						p := m.common(t, "raw", all[0])
						if p.PT != pt || p.TS != m.ts || !bytes.Equal(p.Payload, data) || p.M {
							t.Fatalf("raw: %+v, timestamp should be %d", p, m.ts)
						}
						m.ts += samps
						kinds["raw"] = true
					}
				case op <= 7:
					d := "0123456789*#ABCDabcd!"[rapid.IntRange(0, 20).Draw(t, "digit")]
					desc += fmt.Sprintf("dtmf(%c) ", d)
					err = rs.SendDTMF(d)
					want = func(all [][]byte) {
						m.event(t, d, all)
						kinds["dtmf"] = true
					}
				case op == 8:
					i := rapid.IntRange(0, 2).Draw(t, "to")
					desc += fmt.Sprintf("peer%d ", i)
					if i == 2 {
						peer, rs.Peer = nil, nil
					} else {
						peer = sinks[i]
						rs.Peer = addr(peer)
					}
					continue
				default:
					var none *rtp.Session
					if none.Send(new(rtp.Frame)) != nil || none.SendRaw(0, nil, 0) != nil || none.SendDTMF('1') != nil {
						t.Fatalf("sending on no session fails")
					}
					continue
				}
				if err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				for _, s := range sinks {
					all := sent(rs, s)
					if s == peer {
						packets += len(all)
						want(all)
					} else if len(all) > 0 {
						t.Fatalf("%s: %d packets sent elsewhere", desc, len(all))
					}
				}
				if peer == nil {
					c.Class("no peer")
					if rs.Header != before {
						t.Fatalf("%s: without a peer, %+v became %+v", desc, before, rs.Header)
					}
				}
			}
			if packets >= 3 && len(kinds) >= 2 {
				c.NonTrivial(fmt.Sprint(desc, m))
			}
			c.Samplef("%s: %d packets, at the end seq %d ts %d", desc, packets, m.seq, m.ts)
		})
}
