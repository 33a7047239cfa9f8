package dspcheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/jart/gosip/dsp"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// rank orders code bytes by the value they stand for; the two zeros are apart.
func rank(code byte) int {
	if code&0x80 == 0 {
		return int(code) - 128 // negative, -128 is the loudest
	}
	return 255 - int(code)
}

func TestC21All(t *testing.T) {
	hx.Exhaustive(t, "all 256 code bytes and all 65536 16-bit samples, against the reference coder, with monotonicity, idempotence and error bound; all non-trivial", func(count func(string)) {
		for code := 0; code < 256; code++ {
			count(fmt.Sprint("code", code))
			got, want := dsp.UlawToLinear(int64(code)), int64(ref.UlawDecode(byte(code)))
			if got != want {
				hx.Failf(t, "code %#x is %d, not %d", code, got, want)
			}
			if again := dsp.UlawToLinear(dsp.LinearToUlaw(got)); again != got {
				hx.Failf(t, "code %#x is %d, which is encoded as %#x, which is %d", code, got, dsp.LinearToUlaw(got), again)
			}
		}
		prev := math.MinInt
		for x := int64(-32768); x <= 32767; x++ {
			count(fmt.Sprint("sample", x))
			code := dsp.LinearToUlaw(x)
			if code < 0 || code > 255 {
				hx.Failf(t, "%d is encoded as %d", x, code)
			}
			if want := ref.UlawEncode(x); byte(code) != want {
				hx.Failf(t, "%d is encoded as %#x, not %#x", x, code, want)
			}
			if r := rank(byte(code)); r < prev {
				hx.Failf(t, "encoding is not monotonic at %d", x)
			} else {
				prev = r
			}
			if e := abs(dsp.UlawToLinear(code) - x); e > int64(ref.UlawStep(byte(code))) {
				hx.Failf(t, "%d comes back as %d", x, dsp.UlawToLinear(code))
			}
		}
	})
}

func TestC21Wide(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000000, Thorough: 200000000},
		"pairs of samples of up to 64 bits, near powers of two, segment boundaries and the limits, against the reference coder and each other; non-trivial: at least one beyond 16 bits",
		func(t *rapid.T, c *hx.Case) {
			any := func(label string) int64 {
				switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
				case 0:
					return int64(rapid.Int16().Draw(t, label))
				case 1:
					x := int64(1)<<rapid.IntRange(0, 62).Draw(t, label+"bit") - 132 + rapid.Int64Range(-10, 10).Draw(t, label)
					if rapid.Bool().Draw(t, label+"neg") {
						x = -x
					}
					return x
				case 2:
					x := math.MaxInt64 - rapid.Int64Range(0, 300).Draw(t, label)
					if rapid.Bool().Draw(t, label+"neg") {
						x = -x - 1
					}
					return x
				default:
					return rapid.Int64().Draw(t, label)
				}
			}
			x, y := any("x"), any("y")
			if x > y {
				x, y = y, x
			}
			a, b := dsp.LinearToUlaw(x), dsp.LinearToUlaw(y)
			c.Samplef("%d %d", x, y)
			if x < math.MinInt16 || y > math.MaxInt16 {
				c.NonTrivial(fmt.Sprint(x, y))
			}
			for _, p := range [][2]int64{{x, a}, {y, b}} {
				if want := ref.UlawEncode(p[0]); p[1] != int64(want) {
					t.Fatalf("%d is encoded as %#x, not %#x", p[0], p[1], want)
				}
			}
			if rank(byte(a)) > rank(byte(b)) {
				t.Fatalf("%d < %d but %#x > %#x", x, y, a, b)
			}
		})
}
