package dspcheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/jart/gosip/dsp"
	"pgregory.net/rapid"

	"verif/hx"
)

func anySeed(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 259200, -259200, 259199, 54773, -54773, 7162534, math.MaxInt32, math.MinInt32,
			math.MaxInt64 - 54773, math.MinInt64 + 54773, math.MaxInt64 - 60000, math.MinInt64 + 60000}[rapid.IntRange(0, 17).Draw(t, label)]
	case 1:
		return rapid.Int64Range(-300000, 300000).Draw(t, label)
	default:
		return rapid.Int64().Draw(t, label)
	}
}

func anyLevel(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0:
		return []float64{0, -50, 6.16, -6.16, 3.14, -10, -100, 20, 100, -300, 300, 1e6, -1e6}[rapid.IntRange(0, 12).Draw(t, label)]
	default:
		return float64(rapid.IntRange(-900, 300).Draw(t, label)) / 10
	}
}

func make1(t *rapid.T, label string) (mk func() *dsp.AWGN, seed int64, dbov float64, desc string) {
	seed = anySeed(t, label+"seed")
	level := anyLevel(t, label+"level")
	switch rapid.IntRange(0, 2).Draw(t, label+"scale") {
	case 0:
		return func() *dsp.AWGN { return dsp.NewAWGN_DBOV(seed, level) }, seed, level, fmt.Sprintf("DBOV(%d,%v)", seed, level)
	case 1:
		return func() *dsp.AWGN { return dsp.NewAWGN_DBM0(seed, level) }, seed, level - 6.16, fmt.Sprintf("DBM0(%d,%v)", seed, level)
	default:
		return func() *dsp.AWGN { return dsp.NewAWGN(level) }, 0, level - 6.16, fmt.Sprintf("NewAWGN(%v)", level)
	}
}

// Streams depend on seed and level only.
func TestC23Streams(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 2000000},
		"two to five generators of random seeds (including the extremes) and levels, advanced in random turns, each compared with a generator of its own seed and level that runs alone; non-trivial: at least 2 different generators that both made 2 or more samples",
		func(t *rapid.T, c *hx.Case) {
			n := rapid.IntRange(2, 5).Draw(t, "n")
			gens := make([]*dsp.AWGN, n)
			mks := make([]func() *dsp.AWGN, n)
			out := make([][]int16, n)
			desc := ""
			for i := range gens {
				var d string
				if i > 0 && rapid.IntRange(0, 3).Draw(t, "twin") == 0 {
					mks[i], d = mks[i-1], "same"
				} else {
					mks[i], _, _, d = make1(t, fmt.Sprint(i))
				}
				desc += d + " "
				gens[i] = mks[i]()
			}
			for k := rapid.IntRange(1, 40).Draw(t, "turns"); k > 0; k-- {
				i := rapid.IntRange(0, n-1).Draw(t, "i")
				if rapid.IntRange(0, 7).Draw(t, "again") == 0 {
					gens[i] = mks[i]()
					out[i] = nil
				}
				for j := rapid.IntRange(1, 7).Draw(t, "samples"); j > 0; j-- {
					out[i] = append(out[i], gens[i].Get())
				}
			}
			active := 0
			for i := range gens {
				alone := mks[i]()
				for k, v := range out[i] {
					if w := alone.Get(); v != w {
						t.Fatalf("generator %d of %s: sample %d is %d among others, %d alone", i, desc, k, v, w)
					}
				}
				if len(out[i]) >= 2 {
					active++
				}
			}
			if active >= 2 {
				c.NonTrivial(desc + fmt.Sprint(out))
			}
			c.Samplef("%s: %v", desc, out)
		})
}

// Two scales of level.
func TestC23Scales(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 2000000},
		"a seed and a level on both scales, 6.16 dB apart, give the same stream but for rounding; non-trivial: not all samples zero",
		func(t *rapid.T, c *hx.Case) {
			seed, level := anySeed(t, "seed"), anyLevel(t, "level")
			a, b := dsp.NewAWGN_DBM0(seed, level), dsp.NewAWGN_DBOV(seed, level-6.16)
			sound := false
			for k := 0; k < 50; k++ {
				x, y := int(a.Get()), int(b.Get())
				if x-y > 1 || y-x > 1 {
					t.Fatalf("seed %d level %v dBm0: sample %d is %d, but %d at %v dBov", seed, level, k, x, y, level-6.16)
				}
				sound = sound || x != 0
			}
			if sound {
				c.NonTrivial(fmt.Sprint(seed, level))
			}
			c.Samplef("seed %d level %v", seed, level)
		})
}

func phi(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// statistics checks a stream against a Gaussian of RMS sigma that is rounded
// to integers, either way, and clipped.
func statistics(get func() int16, sigma float64, n int) string {
	x := make([]float64, n)
	var sum, sq, quad float64
	hi, lo := 0, 0
	for i := range x {
		v := get()
		x[i] = float64(v)
		sum += x[i]
		sq += x[i] * x[i]
		quad += x[i] * x[i] * x[i] * x[i]
		if v == math.MaxInt16 {
			hi++
		}
		if v == math.MinInt16 {
			lo++
		}
	}
	N := float64(n)
	const k = 7.5 // standard errors
	// Moments of the clipped Gaussian, by quadrature.
	var m2, m4 float64
	const steps = 4000
	for i := 0; i < steps; i++ {
		z := -8 + 16*(float64(i)+0.5)/steps
		w := math.Exp(-z*z/2) / math.Sqrt(2*math.Pi) * 16 / steps
		v := math.Max(-32768, math.Min(32767, z*sigma))
		m2 += w * v * v
		m4 += w * v * v * v * v
	}
	rms, want := math.Sqrt(sq/N), math.Sqrt(m2)
	tol := k*math.Sqrt((m4-m2*m2)/N)/(2*want+1) + 1
	if sigma > 8000 {
		tol += 10 / N * 32768 // a few samples more or less within the limits
	}
	if math.Abs(rms-want) > tol {
		return fmt.Sprintf("RMS %.2f, should be %.2f +- %.2f", rms, want, tol)
	}
	if mean := sum / N; math.Abs(mean) > k*want/math.Sqrt(N)+0.6 {
		return fmt.Sprintf("mean %.2f at RMS %.2f", mean, want)
	}
	// Clipping at the limits.
	p := 1 - phi(32767/sigma)
	ctol := k*math.Sqrt(N*p*(1-p)) + 12
	if math.Abs(float64(hi)-N*p) > ctol || math.Abs(float64(lo)-N*p) > ctol {
		return fmt.Sprintf("%d and %d of %d samples at the limits, should be %.0f +- %.0f", hi, lo, n, N*p, ctol)
	}
	// Distribution.
	if sigma >= 40 {
		for _, z := range []float64{-2.5, -2, -1.5, -1, -0.5, -0.1, 0.1, 0.5, 1, 1.5, 2, 2.5} {
			cut := z * sigma
			if math.Abs(cut) > 32000 {
				continue
			}
			cnt := 0
			for _, v := range x {
				if v <= cut {
					cnt++
				}
			}
			p := phi(z)
			if tol := k*math.Sqrt(N*p*(1-p)) + N*0.5/sigma; math.Abs(float64(cnt)-N*p) > tol {
				return fmt.Sprintf("%d of %d samples up to %.1f times the RMS, should be %.0f +- %.0f", cnt, n, z, N*p, tol)
			}
		}
		// No correlation, of the samples or their sizes.
		for _, lag := range []int{1, 2, 3, 4, 5, 7, 8, 16, 97, 98, 160} {
			var r, s float64
			for i := lag; i < n; i++ {
				r += x[i] * x[i-lag]
				s += (math.Abs(x[i]) - want*0.7979) * (math.Abs(x[i-lag]) - want*0.7979)
			}
			if r /= sq; math.Abs(r) > k/math.Sqrt(N) {
				return fmt.Sprintf("correlation %.4f at lag %d", r, lag)
			}
			if sigma < 8000 {
				if s /= sq * 0.3634; math.Abs(s) > k/math.Sqrt(N)*1.2 {
					return fmt.Sprintf("correlation of magnitudes %.4f at lag %d", s, lag)
				}
			}
		}
	}
	return ""
}

func TestC23Statistics(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 16000, Thorough: 400000},
		"4000 samples of a generator of random seed and level: RMS, mean, clipping, distribution function at 12 points, correlation of samples and of their magnitudes at 11 lags, all within 7.5 standard errors; non-trivial: RMS of at least 40 units",
		func(t *rapid.T, c *hx.Case) {
			mk, _, dbov, desc := make1(t, "g")
			sigma := 32768 * math.Pow(10, dbov/20)
			c.Samplef("%s", desc)
			switch {
			case sigma < 40:
				c.Class("quiet")
			case sigma > 8000:
				c.Class("clipping")
			default:
				c.Class("normal")
			}
			if sigma >= 40 {
				c.NonTrivial(desc)
			}
			g := mk()
			if msg := statistics(g.Get, sigma, 4000); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
		})
}

// Distinct seeds give distinct noise, and the long run of one is as good.
func TestC23Long(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 800, Thorough: 8000},
		"200000 samples of a generator of random seed at a level between -45 and -15 dBov, checked like 4000, and compared with the stream of another seed; all non-trivial",
		func(t *rapid.T, c *hx.Case) {
			seed := anySeed(t, "seed")
			other := seed ^ (1 + rapid.Int64Range(0, 1000).Draw(t, "other"))
			dbov := float64(rapid.IntRange(-450, -150).Draw(t, "level")) / 10
			c.NonTrivial(fmt.Sprint(seed, dbov))
			c.Samplef("seed %d level %v", seed, dbov)
			g := dsp.NewAWGN_DBOV(seed, dbov)
			if msg := statistics(g.Get, 32768*math.Pow(10, dbov/20), 200000); msg != "" {
				t.Fatalf("seed %d level %v: %s", seed, dbov, msg)
			}
			if (seed-other)%259200 == 0 || (seed+other)%259200 == 0 {
				return // the generator has 259200 streams
			}
			a, b := dsp.NewAWGN_DBOV(seed, -10), dsp.NewAWGN_DBOV(other, -10)
			same := 0
			for i := 0; i < 100; i++ {
				if a.Get() == b.Get() {
					same++
				}
			}
			if same > 20 {
				t.Fatalf("seeds %d and %d give the same noise", seed, other)
			}
		})
}
