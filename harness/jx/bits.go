// Package jx is an independent JPEG XL codestream writer together with a
// reference model of what a decoder must reconstruct from what it wrote.
package jx

import "math/bits"

// BW writes bits, least significant first.
type BW struct {
	B []byte
	n uint // bits in total
}

func (w *BW) Bits(v uint64, n int) {
	for i := 0; i < n; i++ {
		if w.n%8 == 0 {
			w.B = append(w.B, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.B[w.n/8] |= 1 << (w.n % 8)
		}
		w.n++
	}
}
func (w *BW) Len() int { return int(w.n) }
func (w *BW) Bool(b bool) {
	if b {
		w.Bits(1, 1)
	} else {
		w.Bits(0, 1)
	}
}

// Align pads to a byte boundary with zeros.
func (w *BW) Align() {
	for w.n%8 != 0 {
		w.Bits(0, 1)
	}
}

// Append appends a byte-aligned section.
func (w *BW) Append(b []byte) {
	if w.n%8 != 0 {
		panic("unaligned append")
	}
	w.B = append(w.B, b...)
	w.n += uint(8 * len(b))
}

// AppendBW appends the bits of another writer.
func (w *BW) AppendBW(o *BW) {
	n := int(o.n)
	for i := 0; i < n; i += 8 {
		w.Bits(uint64(o.B[i/8]), min(8, n-i))
	}
}

// U32d describes one of the four U32 distributions: value = off + u(bits).
type U32d struct{ Off, Bits uint32 }

// U32 writes v using the distributions; pick chooses among the ones that can
// hold v (nil: the first).
func (w *BW) U32(v uint32, pick func(n int) int, d ...U32d) {
	var can []int
	for i, x := range d {
		if v >= x.Off && uint64(v-x.Off) < uint64(1)<<x.Bits {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		panic("U32: no distribution for value")
	}
	k := 0
	if pick != nil && len(can) > 1 {
		k = pick(len(can))
	}
	i := can[k]
	w.Bits(uint64(i), 2)
	w.Bits(uint64(v-d[i].Off), int(d[i].Bits))
}

// U64 writes in the format's variable length form.
func (w *BW) U64(v uint64) {
	switch {
	case v == 0:
		w.Bits(0, 2)
	case v <= 16:
		w.Bits(1, 2)
		w.Bits(v-1, 4)
	case v <= 272:
		w.Bits(2, 2)
		w.Bits(v-17, 8)
	default:
		w.Bits(3, 2)
		w.Bits(v&0xfff, 12)
		v >>= 12
		shift := 12
		for v > 0 {
			w.Bits(1, 1)
			if shift == 60 {
				w.Bits(v&15, 4)
				return
			}
			w.Bits(v&0xff, 8)
			v >>= 8
			shift += 8
		}
		w.Bits(0, 1)
	}
}

// U8 writes the ANS-header variable length byte.
func (w *BW) U8(v int) {
	if v == 0 {
		w.Bits(0, 1)
		return
	}
	w.Bits(1, 1)
	n := bits.Len(uint(v)) - 1
	w.Bits(uint64(n), 3)
	w.Bits(uint64(v)-(1<<uint(n)), n)
}

// F16 writes the half float with the given bits.
func (w *BW) F16(h uint16) { w.Bits(uint64(h), 16) }

// Enum writes the format's enum encoding.
func (w *BW) Enum(v uint32) {
	w.U32(v, nil, U32d{0, 0}, U32d{1, 0}, U32d{2, 4}, U32d{18, 6})
}

// CeilLog2 is ceil(log2(x)) for x>=1.
func CeilLog2(x int) int {
	if x <= 1 {
		return 0
	}
	return bits.Len(uint(x - 1))
}
func FloorLog2(x uint32) int { return bits.Len32(x) - 1 }

func PackSigned(v int64) uint32 {
	if v >= 0 {
		return uint32(v) << 1
	}
	return uint32(-v)*2 - 1
}

// Half converts a float exactly representable as half to its bits.
func Half(f float64) uint16 {
	if f == 0 {
		return 0
	}
	s := uint16(0)
	if f < 0 {
		s, f = 0x8000, -f
	}
	e := 0
	for f >= 2 {
		f /= 2
		e++
	}
	for f < 1 && e > -14 {
		f *= 2
		e--
	}
	if f < 1 { // subnormal
		return s | uint16(f*1024)
	}
	return s | uint16(e+15)<<10 | uint16((f-1)*1024)
}

// HalfVal is the value of half bits.
func HalfVal(h uint16) float64 {
	e := int(h>>10) & 31
	m := float64(h & 1023)
	v := 0.0
	if e == 0 {
		v = m / 1024 / 16384
	} else {
		v = 1 + m/1024
		for ; e > 15; e-- {
			v *= 2
		}
		for ; e < 15; e++ {
			v /= 2
		}
	}
	if h&0x8000 != 0 {
		v = -v
	}
	return v
}
