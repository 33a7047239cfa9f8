package rtpcheck

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
)

func TestC16Events(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000000, Thorough: 100000000},
		"event headers with every field random, written over random bytes and read back with anything behind; non-trivial: a bit set and no zero number",
		func(t *rapid.T, c *hx.Case) {
			h := rtp.EventHeader{
				Event:    rapid.Byte().Draw(t, "event"),
				E:        rapid.Bool().Draw(t, "e"),
				R:        rapid.Bool().Draw(t, "r"),
				Volume:   rapid.Uint8Range(0, 63).Draw(t, "volume"),
				Duration: rapid.Uint16().Draw(t, "duration"),
			}
			if (h.E || h.R) && h.Event != 0 && h.Volume != 0 && h.Duration != 0 {
				c.NonTrivial(fmt.Sprint(h))
			}
			c.Samplef("%+v", h)
			b := rapid.SliceOfN(rapid.Byte(), 4, 12).Draw(t, "b")
			want := binary.BigEndian.AppendUint32(nil, uint32(h.Event)<<24|b2u(h.E)<<23|b2u(h.R)<<22|uint32(h.Volume)<<16|uint32(h.Duration))
			want = append(want, b[4:]...)
			orig := h
			h.Write(b)
			if h != orig {
				t.Fatalf("writing changed %+v to %+v", orig, h)
			}
			if !bytes.Equal(b, want) {
				t.Fatalf("%+v is %x, not %x", h, b, want)
			}
			back := rtp.EventHeader{Event: 99, E: !h.E, R: !h.R, Volume: 99, Duration: 99}
			back.Read(b)
			if back != h {
				t.Fatalf("%+v came back as %+v", h, back)
			}
			if !bytes.Equal(b, want) {
				t.Fatalf("reading changed its input")
			}
		})
}

func TestC16Read(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000000, Thorough: 100000000},
		"random quadruples of bytes, read and written back, compared with a word-wise reader; all non-trivial",
		func(t *rapid.T, c *hx.Case) {
			b := rapid.SliceOfN(rapid.Byte(), 4, 9).Draw(t, "b")
			keep := append([]byte(nil), b...)
			h := rtp.EventHeader{Event: 99, E: true, R: true, Volume: 99, Duration: 99}
			h.Read(b)
			w := binary.BigEndian.Uint32(b)
			want := rtp.EventHeader{Event: uint8(w >> 24), E: w&(1<<23) != 0, R: w&(1<<22) != 0, Volume: uint8(w >> 16 & 63), Duration: uint16(w)}
			c.NonTrivial(string(b[:4]))
			c.Samplef("%x", b)
			if h != want {
				t.Fatalf("%x is %+v, not %+v", b, h, want)
			}
			out := make([]byte, 4)
			h.Write(out)
			if !bytes.Equal(out, keep[:4]) || !bytes.Equal(b, keep) {
				t.Fatalf("%x written back is %x", keep, out)
			}
		})
}

func TestC16Digits(t *testing.T) {
	const digits = "0123456789*#ABCD!"
	hx.Exhaustive(t, "all 256 characters and all 256 event numbers", func(count func(string)) {
		for i := 0; i < 256; i++ {
			count(fmt.Sprint("char", i))
			ev, err := rtp.CharToDtmf(byte(i))
			want := strings.IndexByte(digits, byte(i))
			if i >= 'a' && i <= 'd' {
				want = i - 'a' + 12
			}
			if (err == nil) != (want >= 0) || err == nil && int(ev) != want {
				hx.Failf(t, "%q is event %d, %v, not %d", byte(i), ev, err, want)
			}
			count(fmt.Sprint("event", i))
			ch, err := rtp.DtmfToChar(uint8(i))
			if (err == nil) != (i < len(digits)) || err == nil && ch != digits[i] {
				hx.Failf(t, "event %d is %q, %v", i, ch, err)
			}
			if err == nil {
				if back, err := rtp.CharToDtmf(ch); err != nil || int(back) != i {
					hx.Failf(t, "event %d is %q, which is event %d, %v", i, ch, back, err)
				}
			}
		}
	})
}
