package dspcheck

import (
	"fmt"
	"runtime/debug"
	"syscall"
	"testing"
	"unsafe"

	"github.com/jart/gosip/dsp"
	"pgregory.net/rapid"

	"verif/hx"
)

const (
	page = 4096
	size = 320
)

// arena is a readable page between two that are not.
func arena() []byte {
	b, err := syscall.Mmap(-1, 0, 3*page, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err == nil {
		err = syscall.Mprotect(b[page:2*page], syscall.PROT_READ|syscall.PROT_WRITE)
	}
	if err != nil {
		hx.Inconclusive("cannot map memory: %v", err)
	}
	return b[page : 2*page : 2*page]
}

func get(b []byte, i int) int16 { return int16(uint16(b[2*i]) | uint16(b[2*i+1])<<8) }
func put(b []byte, i int, v int16) {
	b[2*i], b[2*i+1] = byte(uint16(v)), byte(uint16(v)>>8)
}

func clamp(n int) int16 {
	if n > 32767 {
		return 32767
	}
	if n < -32768 {
		return -32768
	}
	return int16(n)
}

func TestC22Mix(t *testing.T) {
	a, b := arena(), arena()
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	hx.Run(t, hx.Budget{Quick: 300000, Thorough: 20000000},
		"two frames of random, extreme and nearly cancelling samples anywhere in memory, up against unmapped pages, in the same page or the same frame, in guarded memory compared byte for byte with a scalar model; non-trivial: at least one sum saturates and one does not",
		func(t *rapid.T, c *hx.Case) {
			offset := func(label string) int {
				switch rapid.IntRange(0, 3).Draw(t, label+"where") {
				case 0:
					return 0
				case 1:
					return page - size
				case 2:
					return 2 * rapid.IntRange(0, (page-size)/2).Draw(t, label)
				default:
					return 16 * rapid.IntRange(0, (page-size)/16).Draw(t, label)
				}
			}
			dp, sp := a, b
			do, so := offset("dst"), offset("src")
			where := rapid.IntRange(0, 4).Draw(t, "where")
			switch where {
			case 0: // the same frame
				sp, so = a, do
				c.Class("same frame")
			case 1: // right before or after
				sp = a
				if do+2*size <= page {
					so = do + size
				} else {
					so = do - size
				}
				c.Class("adjacent")
			}
			// Fill everything with a pattern that differs from place to place.
			seed := rapid.Uint32().Draw(t, "fill")
			for _, m := range [][]byte{a, b} {
				x := seed | 1
				for i := 0; i < len(m); i += 4 {
					x ^= x << 13
					x ^= x >> 17
					x ^= x << 5
					*(*uint32)(unsafe.Pointer(&m[i])) = x
				}
				seed = ^seed
			}
			// Some samples in detail, some whole runs of an extreme.
			for n := rapid.IntRange(0, 12).Draw(t, "n"); n > 0; n-- {
				i := rapid.IntRange(0, 159).Draw(t, "i")
				x := rapid.Int16().Draw(t, "x")
				y := x
				switch rapid.IntRange(0, 4).Draw(t, "kind") {
				case 0:
					x, y = 32767, 1
				case 1:
					x, y = -32768, -1
				case 2:
					y = int16(32767 - int(x)&0x7fff + rapid.IntRange(-1, 1).Draw(t, "edge"))
				case 3:
					y = rapid.Int16().Draw(t, "y")
				}
				put(dp[do:], i, x)
				put(sp[so:], i, y)
			}
			if rapid.IntRange(0, 9).Draw(t, "flat") == 0 {
				v := []int16{0, 1, -1, 32767, -32768}[rapid.IntRange(0, 4).Draw(t, "v")]
				for i := 0; i < 160; i++ {
					put(sp[so:], i, v)
				}
			}
			// The model.
			want := [2][]byte{append([]byte(nil), a...), append([]byte(nil), b...)}
			sat, unsat := 0, 0
			for i := 0; i < 160; i++ {
				sum := int(get(dp[do:], i)) + int(get(sp[so:], i))
				put(want[0][do:], i, clamp(sum))
				if sum != int(clamp(sum)) {
					sat++
				} else {
					unsat++
				}
			}
			if sat > 0 && unsat > 0 {
				c.NonTrivial(fmt.Sprint(seed, do, so, where, want[0][do:do+size]))
			}
			c.Samplef("dst at %d src at %d, %d of 160 saturate, result %v...", do, so, sat, want[0][do:do+16])
			dsp.L16MixSat160((*int16)(unsafe.Pointer(&dp[do])), (*int16)(unsafe.Pointer(&sp[so])))
			for k, m := range [][]byte{a, b} {
				for i := range m {
					if m[i] != want[k][i] {
						if k == 0 && i >= do && i < do+size {
							j := (i - do) / 2
							t.Fatalf("dst at %d, src at %d: sample %d is %d, not %d", do, so, j, get(m[do:], j), get(want[0][do:], j))
						}
						t.Fatalf("dst at %d, src at %d: byte %d of page %d changed", do, so, i, k)
					}
				}
			}
		})
}

// Every pair of classes of samples in every lane.
func TestC22Lanes(t *testing.T) {
	hx.Exhaustive(t, "all pairs of 27 edge samples in every one of the 160 places; all non-trivial", func(count func(string)) {
		edge := []int16{0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, -255, -256, 16383, 16384, 16385, -16383, -16384, -16385, 32766, 32767, -32766, -32767, -32768, 1000, -1000, 12345}
		for _, x := range edge {
			for _, y := range edge {
				for i := 0; i < 160; i++ {
					var d, s [160]int16
					d[i], s[i] = x, y
					dsp.L16MixSat160(&d[0], &s[0])
					for k := 0; k < 160; k++ {
						want, src := int16(0), int16(0)
						if k == i {
							want, src = clamp(int(x)+int(y)), y
						}
						if d[k] != want || s[k] != src {
							hx.Failf(t, "%d + %d in place %d: place %d is %d (source %d)", x, y, i, k, d[k], s[k])
						}
					}
				}
				count(fmt.Sprint(x, y))
			}
		}
	})
}
