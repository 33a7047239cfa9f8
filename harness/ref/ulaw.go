package ref

// G.711 mu-law, on the 16-bit scale (four times the 14-bit one of the
// recommendation). A code byte is inverted: sign, segment, step.

// UlawDecode gives the value of a code byte.
func UlawDecode(code byte) int {
	code = ^code
	seg, step := int(code>>4&7), int(code&15)
	v := 4 * ((33+2*step)*(1<<seg) - 33)
	if code&0x80 != 0 {
		return -v
	}
	return v
}

// ulawFrom[i] is the least magnitude that belongs to step i%16 of segment
// i/16.
var ulawFrom [128]uint64

func init() {
	for i := range ulawFrom {
		seg, step := i/16, i%16
		if i == 0 {
			continue
		}
		// Segment boundaries are at 31, 95, 223, 479, 991, 2015 and 4063 of
		// the 14-bit scale; steps within are 2, 4, 8 ... apart.
		lo := uint64(32)<<seg - 33
		if seg == 0 {
			ulawFrom[i] = 4 * uint64(2*step-1)
		} else {
			ulawFrom[i] = 4 * (lo + uint64(step)*(2<<seg))
		}
	}
}

// UlawEncode gives the code byte of a sample of any size.
func UlawEncode(x int64) byte {
	mag := uint64(x)
	sign := byte(0)
	if x < 0 {
		mag = -mag
		sign = 0x80
	}
	i := 127
	for ulawFrom[i] > mag {
		i--
	}
	return ^(sign | byte(i))
}

// UlawStep is the size of the step that a code byte stands for.
func UlawStep(code byte) int { return 8 << (^code >> 4 & 7) }
