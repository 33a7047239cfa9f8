package rtpcheck

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/jart/gosip/rtp"
	"pgregory.net/rapid"

	"verif/hx"
)

func header(t *rapid.T, label string) rtp.Header {
	return rtp.Header{
		Pad:  rapid.Bool().Draw(t, label+"pad"),
		Mark: rapid.Bool().Draw(t, label+"mark"),
		PT:   rapid.Uint8Range(0, 127).Draw(t, label+"pt"),
		Seq:  rapid.Uint16().Draw(t, label+"seq"),
		TS:   rapid.Uint32().Draw(t, label+"ts"),
		Ssrc: rapid.Uint32().Draw(t, label+"ssrc"),
	}
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

// wire is RFC 3550's picture of a header, word by word.
func wire(h rtp.Header) (b []byte) {
	b = binary.BigEndian.AppendUint32(b, 2<<30|b2u(h.Pad)<<29|b2u(h.Mark)<<23|uint32(h.PT)<<16|uint32(h.Seq))
	b = binary.BigEndian.AppendUint32(b, h.TS)
	return binary.BigEndian.AppendUint32(b, h.Ssrc)
}

func TestC15Write(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000000, Thorough: 100000000},
		"headers with every field random, appended to buffers of any length and capacity and read back with anything behind; non-trivial: at least one flag and no zero number",
		func(t *rapid.T, c *hx.Case) {
			h := header(t, "")
			if (h.Pad || h.Mark) && h.PT != 0 && h.Seq != 0 && h.TS != 0 && h.Ssrc != 0 {
				c.NonTrivial(fmt.Sprint(h))
			}
			c.Samplef("%+v", h)
			before := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "before")
			room := make([]byte, len(before), len(before)+rapid.IntRange(0, 30).Draw(t, "room"))
			copy(room, before)
			orig := h
			got := h.Write(room)
			if h != orig {
				t.Fatalf("writing changed %+v to %+v", orig, h)
			}
			if want := append(append([]byte(nil), before...), wire(h)...); !bytes.Equal(got, want) {
				t.Fatalf("%+v after %x is %x, not %x", h, before, got, want)
			}
			after := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "after")
			in := append(append([]byte(nil), got[len(before):]...), after...)
			keep := append([]byte(nil), in...)
			back := header(t, "old")
			if err := back.Read(in); err != nil {
				t.Fatalf("%+v as %x: %v", h, in, err)
			}
			if back != h {
				t.Fatalf("%+v came back as %+v from %x", h, back, in)
			}
			if !bytes.Equal(in, keep) {
				t.Fatalf("reading changed its input")
			}
		})
}

func TestC15Read(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000000, Thorough: 100000000},
		"byte strings of 0 to 40 bytes, any content with all versions and bits, compared with a word-wise reader; non-trivial: at least 12 bytes",
		func(t *rapid.T, c *hx.Case) {
			n := rapid.IntRange(0, 40).Draw(t, "len")
			if rapid.Bool().Draw(t, "short") {
				n = rapid.IntRange(9, 14).Draw(t, "len")
			}
			b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "b")
			if n > 0 && rapid.IntRange(0, 3).Draw(t, "v2") > 0 {
				b[0] = b[0]&0x3f | 0x80
			}
			keep := append([]byte(nil), b...)
			h := header(t, "old")
			err := h.Read(b)
			if !bytes.Equal(b, keep) {
				t.Fatalf("reading changed its input")
			}
			p, ok := take(b)
			if n >= 12 {
				c.NonTrivial(string(b))
			}
			c.Samplef("%x", b)
			if want := ok && p.V == 2 && !p.X; want != (err == nil) {
				t.Fatalf("%x: %v", b, err)
			}
			switch {
			case !ok:
				c.Class("short")
				if err != rtp.ErrTruncatedPacket {
					t.Fatalf("%x: %v", b, err)
				}
			case p.V != 2:
				c.Class("version")
				if err != rtp.ErrBadVersion {
					t.Fatalf("%x: %v", b, err)
				}
			case p.X:
				c.Class("extension")
				if err != rtp.ErrExtendedHeadersNotSupported {
					t.Fatalf("%x: %v", b, err)
				}
			default:
				c.Class("good")
				if want := (rtp.Header{Pad: p.P, Mark: p.M, PT: p.PT, Seq: p.Seq, TS: p.TS, Ssrc: p.SSRC}); h != want {
					t.Fatalf("%x: %+v, not %+v", b, h, want)
				}
			}
		})
}
