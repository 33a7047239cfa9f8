package rtpcheck

import (
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

// audio makes a valid packet; key makes its payload unique.
func audio(t *rapid.T, key uint32) ([]byte, rtp.Frame) {
	h := header(t, "h")
	h.PT = 0
	h.Pad = false
	b := wire(h)
	var f rtp.Frame
	x := key*2654435761 | 1
	for i := range f {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b = append(b, byte(x>>3))
		f[i] = int16(ref.UlawDecode(byte(x >> 3)))
	}
	return b, f
}

// noise makes a datagram that is no valid audio packet.
func noise(t *rapid.T) ([]byte, string) {
	b, _ := audio(t, rapid.Uint32().Draw(t, "key"))
	switch kind := gen.Pick(t, "noise", "version", "extension", "payload type", "short", "long", "tiny", "random", "event", "truncated after full"); kind {
	case "version":
		b[0] = b[0]&0x3f | []byte{0, 0x40, 0xc0}[rapid.IntRange(0, 2).Draw(t, "v")]
		return b, kind
	case "extension":
		b[0] |= 0x10
		return b, kind
	case "payload type":
		b[1] = b[1]&0x80 | rapid.Uint8Range(1, 127).Draw(t, "pt")
		return b, kind
	case "short":
		return b[:172-rapid.IntRange(1, 160).Draw(t, "cut")], kind
	case "long":
		return append(b, make([]byte, []int{1, 2, 4, 160, 1000, 1876, 1877, 2000, 2500}[rapid.IntRange(0, 8).Draw(t, "more")])...), kind
	case "tiny":
		return b[:rapid.IntRange(0, 11).Draw(t, "len")], kind
	case "event":
		b[1] = 101
		return b[:16], kind
	case "truncated after full":
		return b[:171], kind
	default:
		r := []byte(gen.Bytes(0, 100).Draw(t, "random"))
		return r, kind
	}
}

func TestC19Receive(t *testing.T) {
	from := []*net.UDPConn{socket(), socket()}
	hx.Run(t, hx.Budget{Quick: 150000, Thorough: 800000},
		"sequences of 1 to 20 steps: valid packets (from two senders), datagrams that are none, reading frames, holding one while more arrive, handing it, a new frame or one kept before back, and closing anywhere; delivered frames compared with the packets sent; non-trivial: at least 2 frames delivered and at least 1 datagram ignored",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			rs.Sock.SetReadBuffer(1 << 20)
			closed := false
			end := func() {
				closed = true
				done := make(chan bool)
				go func() {
					rs.Close()
					close(done)
				}()
				select {
				case <-done:
				case <-time.After(patience):
					t.Fatalf("Close does not return")
				}
				timeout := time.After(patience)
				select {
				case f, ok := <-rs.C:
					if ok {
						t.Fatalf("frame %p after Close", f)
					}
				case <-timeout:
					t.Fatalf("C still open after Close")
				}
				select {
				case err, ok := <-rs.E:
					if ok {
						t.Fatalf("error after Close: %v", err)
					}
				case <-timeout:
					t.Fatalf("E still open after Close")
				}
				rs.Close() // harmless
			}
			to := addr(rs.Sock)
			var queue []rtp.Frame // sent, not yet delivered
			type keep struct {
				f    *rtp.Frame
				want rtp.Frame
			}
			var kept []keep // delivered, another frame handed back instead
			intact := func() {
				for _, k := range kept {
					if *k.f != k.want {
						t.Fatalf("a frame that was kept changes")
					}
				}
			}
			sender := 0
			ignored, delivered := 0, 0
			key := rapid.Uint32().Draw(t, "start")
			desc := ""
			read := func() *rtp.Frame {
				select {
				case f, ok := <-rs.C:
					if !ok {
						t.Fatalf("%s: C closed: %v", desc, <-rs.E)
					}
					if len(queue) == 0 {
						t.Fatalf("%s: a frame too many", desc)
					}
					if *f != queue[0] {
						t.Fatalf("%s: frame %d is %v, not %v", desc, delivered, *f, queue[0])
					}
					for _, k := range kept {
						if k.f == f {
							t.Fatalf("%s: a frame that was kept is delivered again", desc)
						}
					}
					queue = queue[1:]
					delivered++
					return f
				case err := <-rs.E:
					t.Fatalf("%s: error %v", desc, err)
				case <-time.After(patience):
					t.Fatalf("%s: frame %d is not delivered", desc, delivered)
				}
				return nil
			}
			post := func(b []byte) {
				if _, err := from[sender].WriteTo(b, to); err != nil {
					hx.Inconclusive("cannot send: %v", err)
				}
			}
			push := func() {
				b, f := audio(t, key)
				key++
				post(b)
				queue = append(queue, f)
				desc += "audio "
			}
			for n := rapid.IntRange(1, 20).Draw(t, "n"); n > 0 && !closed; n-- {
				switch rapid.IntRange(0, 9).Draw(t, "op") {
				case 0, 1, 2:
					push()
				case 3, 4:
					b, kind := noise(t)
					post(b)
					ignored++
					c.Class(kind)
					desc += kind + " "
				case 5, 6, 7:
					if len(queue) == 0 {
						continue
					}
					desc += "read "
					f := read()
					if rapid.Bool().Draw(t, "hold") {
						keep := *f
						for k := rapid.IntRange(1, 3).Draw(t, "more"); k > 0; k-- {
							push()
						}
						if rapid.IntRange(0, 15).Draw(t, "wait") == 0 {
							time.Sleep(time.Millisecond)
						}
						if *f != keep {
							t.Fatalf("%s: a frame changes while it is held", desc)
						}
						desc += "hold "
					}
					switch rapid.IntRange(0, 4).Draw(t, "other") {
					case 0: // Another one; this one is kept.
						kept = append(kept, keep{f, *f})
						f = new(rtp.Frame)
						f[5] = 5
						desc += "keep "
						c.Class("kept")
					case 1: // One kept before; this one is kept.
						if len(kept) > 0 {
							k := rapid.IntRange(0, len(kept)-1).Draw(t, "which")
							f, kept[k] = kept[k].f, keep{f, *f}
							desc += "exchange "
						}
					}
					rs.R <- f
					intact()
				case 8:
					sender = 1 - sender
				case 9:
					if rapid.IntRange(0, 3).Draw(t, "close") == 0 {
						desc += "close"
						c.Class(fmt.Sprintf("close with %d pending", len(queue)))
						end()
					}
				}
			}
			if !closed {
				// Everything sent is delivered, and a last packet shows
				// that there is nothing else.
				push()
				for len(queue) > 0 {
					rs.R <- read()
				}
				end()
			}
			intact()
			if delivered >= 2 && ignored >= 1 {
				c.NonTrivial(fmt.Sprint(desc, key))
			}
			c.Samplef("%s", desc)
		})
}

// A broken socket is reported once and the session can be ended.
func TestC19Errors(t *testing.T) {
	from := socket()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 100000},
		"a session whose socket fails after 0 to 5 frames, because it is closed or its deadline is over, reports the error on E after closing C, and ends, once, releasing its socket; non-trivial: at least one frame before",
		func(t *rapid.T, c *hx.Case) {
			rs := session(t)
			n := rapid.IntRange(0, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				b, want := audio(t, uint32(i))
				from.WriteTo(b, addr(rs.Sock))
				select {
				case f := <-rs.C:
					if *f != want {
						t.Fatalf("frame %d is wrong", i)
					}
					rs.R <- f
				case <-time.After(patience):
					t.Fatalf("frame %d is not delivered", i)
				}
			}
			if n > 0 {
				c.NonTrivial(fmt.Sprint(n))
			}
			late := rapid.Bool().Draw(t, "late")
			c.Samplef("%d frames, deadline %v", n, late)
			at := addr(rs.Sock)
			if late {
				rs.Sock.SetReadDeadline(time.Now())
				c.Class("deadline")
			} else {
				rs.Sock.Close()
			}
			select {
			case _, ok := <-rs.C:
				if ok {
					t.Fatalf("frame from a broken socket")
				}
			case <-time.After(patience):
				t.Fatalf("C still open")
			}
			select {
			case err, ok := <-rs.E:
				if !ok || err == nil {
					t.Fatalf("no error: %v %v", err, ok)
				}
			case <-time.After(patience):
				t.Fatalf("no error")
			}
			done := make(chan bool)
			again := rapid.IntRange(0, 2).Draw(t, "again")
			go func() {
				rs.CloseAfterError()
				switch again {
				case 1:
					rs.CloseAfterError()
				case 2:
					rs.Close()
				}
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(patience):
				t.Fatalf("CloseAfterError does not return")
			}
			if _, ok := <-rs.E; ok {
				t.Fatalf("second error")
			}
			if free, err := net.ListenUDP("udp", at); err == nil {
				free.Close()
			} else if late && hx.OwnSocket(at.Port) { // Else it is somebody else's by now.
				t.Fatalf("the socket of the ended session is still open: %v", err)
			}
			rs.Peer = addr(from)
			if err := rs.Send(new(rtp.Frame)); err != nil {
				t.Fatalf("sending on an ended session: %v", err)
			}
		})
}
