package rtpcheck

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"testing"
	"time"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

// length draws how long a stream is: up to more than a cycle of sequence
// numbers.
func length(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1, 5000), rapid.IntRange(65000, 75000)).Draw(t, "length")
}

// What holds for the first packets holds for all.
func TestC17Long(t *testing.T) {
	sinks := []*net.UDPConn{socket(), socket()}
	hx.Run(t, hx.Budget{Quick: 48, Thorough: 4000},
		"streams of up to 75000 operations, mostly frames, to peers that change now and then, each datagram compared with the model; non-trivial: 300 packets or more",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			defer rs.Close()
			m := &stream{ssrc: rs.Header.Ssrc, seq: rs.Header.Seq, ts: rs.Header.TS}
			n := length(t)
			r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "seed"), 0))
			usual := rapid.IntRange(0, 2).Draw(t, "usual") // raw, frame or anything
			at := 0
			rs.Peer = addr(sinks[0])
			packets := 0
			for i := 0; i < n; i++ {
				if r.IntN(500) == 0 {
					at = 1 - at
					rs.Peer = addr(sinks[at])
				}
				op := usual
				if r.IntN(50) == 0 || usual == 2 {
					op = r.IntN(3)
				}
				var err error
				var check func(all [][]byte)
				switch op {
				case 0:
					data := make([]byte, r.IntN(40))
					for i := range data {
						data[i] = byte(r.Uint32())
					}
					pt, samps := uint8(96+r.IntN(5)), r.Uint32N(2000)
					err = rs.SendRaw(pt, data, samps)
					check = func(all [][]byte) {
						if len(all) != 1 {
							t.Fatalf("operation %d, raw: %d packets", i, len(all))
						}
						if p := m.common(t, fmt.Sprintf("operation %d, raw", i), all[0]); p.PT != pt || p.TS != m.ts || p.M || !bytes.Equal(p.Payload, data) {
							t.Fatalf("operation %d, raw: %+v, timestamp should be %d", i, p, m.ts)
						}
						m.ts += samps
					}
				case 1:
					var f rtp.Frame
					for i := range f {
						f[i] = int16(r.Uint32())
					}
					err = rs.Send(&f)
					check = func(all [][]byte) {
						if len(all) != 1 {
							t.Fatalf("operation %d, frame: %d packets", i, len(all))
						}
						p := m.common(t, fmt.Sprintf("operation %d, frame", i), all[0])
						if p.PT != 0 || p.TS != m.ts || p.M || len(p.Payload) != 160 {
							t.Fatalf("operation %d, frame: %+v, timestamp should be %d", i, p, m.ts)
						}
						for k, b := range p.Payload {
							if w := ref.UlawEncode(int64(f[k])); b != w {
								t.Fatalf("operation %d, frame: sample %d, %d, is %#x, not %#x", i, k, f[k], b, w)
							}
						}
						m.ts += 160
					}
				case 2:
					d := "0123456789*#ABCDabcd!"[r.IntN(21)]
					err = rs.SendDTMF(d)
					check = func(all [][]byte) { m.event(t, d, all) }
				}
				if err != nil {
					t.Fatalf("operation %d: %v", i, err)
				}
				for k, s := range sinks {
					if k != at && r.IntN(100) > 0 {
						continue
					}
					all := sent(rs, s)
					packets += len(all)
					if k == at {
						check(all)
					} else if len(all) > 0 {
						t.Fatalf("operation %d: %d packets sent elsewhere", i, len(all))
					}
				}
			}
			if packets >= 300 {
				c.NonTrivial(fmt.Sprint(n, packets))
			}
			c.Class(fmt.Sprintf("more than a cycle: %v", packets > 65536))
			c.Samplef("%d operations, %d packets", n, packets)
		})
}

func TestC19Long(t *testing.T) {
	from := []*net.UDPConn{socket(), socket()}
	hx.Run(t, hx.Budget{Quick: 48, Thorough: 4000},
		"streams of up to 75000 packets, with consecutive, constant or random headers, from two senders that take turns, with datagrams that are no audio in between, each frame compared; non-trivial: 300 frames or more",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			defer rs.Close()
			n := length(t)
			r := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "seed"), 0))
			turn := rapid.SampledFrom([]int{2, 100, 5000}).Draw(t, "turn")
			other := rapid.SampledFrom([]int{2, 50, 1 << 30}).Draw(t, "other")
			headers := rapid.IntRange(0, 2).Draw(t, "headers")
			to := addr(rs.Sock)
			at := 0
			h := rtp.Header{Seq: uint16(r.Uint32()), TS: r.Uint32(), Ssrc: r.Uint32()}
			timer := time.NewTimer(10 * time.Minute)
			defer timer.Stop()
			timer.Reset(patience)
			last := 0
			for i := 0; i < n; i++ {
				if r.IntN(turn) == 0 {
					at = 1 - at
				}
				if i-last >= 1000 {
					last = i
					timer.Reset(patience)
				}
				switch headers {
				case 0:
					h.Seq++
					h.TS += 160
				case 2:
					h = rtp.Header{Seq: uint16(r.Uint32()), TS: r.Uint32(), Ssrc: r.Uint32(), Mark: r.IntN(2) == 0}
				}
				b := wire(h)
				var want rtp.Frame
				for k := range want {
					x := byte(r.Uint32())
					b = append(b, x)
					want[k] = int16(ref.UlawDecode(x))
				}
				if r.IntN(other) == 0 {
					bad := append([]byte{}, b...)
					switch r.IntN(4) {
					case 0:
						bad = bad[:r.IntN(172)]
					case 1:
						bad[1] |= 1 + byte(r.IntN(127))
					case 2:
						bad[0] ^= 0x40
					case 3:
						bad = append(bad, 0)
					}
					from[1-at].WriteTo(bad, to)
				}
				if _, err := from[at].WriteTo(b, to); err != nil {
					hx.Inconclusive("cannot send: %v", err)
				}
				select {
				case f, ok := <-rs.C:
					if !ok {
						t.Fatalf("frame %d: C closed", i)
					}
					if *f != want {
						t.Fatalf("frame %d is %v, not %v", i, *f, want)
					}
					rs.R <- f
				case err := <-rs.E:
					t.Fatalf("frame %d: error %v", i, err)
				case <-timer.C:
					t.Fatalf("frame %d is not delivered", i)
				}
			}
			if n >= 300 {
				c.NonTrivial(fmt.Sprint(n, h.Ssrc))
			}
			c.Class(fmt.Sprintf("more than a cycle: %v", n > 65536))
			c.Samplef("%d frames", n)
		})
}
