package unit

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/pbt"
)

func init() { reg("C04", c04) }

// slowReader returns the data in pieces.
type slowReader struct {
	*bytes.Reader
	rng *pbt.RNG
}

func (s *slowReader) Read(b []byte) (int, error) {
	if len(b) > 1 && s.rng.N(2) == 0 {
		b = b[:1+s.rng.N(len(b)-1)]
	}
	return s.Reader.Read(b)
}

// bitModel is the stream as a position in its bits.
type bitModel struct {
	data []byte
	pos  uint64
}

func (m *bitModel) left() uint64 { return uint64(len(m.data))*8 - m.pos }
func (m *bitModel) at(n int) uint64 {
	v := uint64(0)
	for i := 0; i < n; i++ {
		p := m.pos + uint64(i)
		if p < uint64(len(m.data))*8 {
			v |= uint64(m.data[p/8]>>(p%8)&1) << uint(i)
		}
	}
	return v
}

// take reads n bits, and reports if they exist.
func (m *bitModel) take(n int) (uint64, bool) {
	v := m.at(n)
	if uint64(n) > m.left() {
		m.pos = uint64(len(m.data)) * 8
		return 0, false
	}
	m.pos += uint64(n)
	return v, true
}

func (m *bitModel) u32(c, u [4]int) (uint32, bool) {
	s, ok := m.take(2)
	if !ok {
		return 0, false
	}
	v, ok := m.take(u[s])
	return uint32(c[s]) + uint32(v), ok
}

func (m *bitModel) u64() (uint64, bool) {
	s, ok := m.take(2)
	if !ok || s == 0 {
		return 0, ok
	}
	switch s {
	case 1:
		v, ok := m.take(4)
		return v + 1, ok
	case 2:
		v, ok := m.take(8)
		return v + 17, ok
	}
	v, ok := m.take(12)
	for shift := uint(12); ok; shift += 8 {
		var more, b uint64
		if more, ok = m.take(1); !ok || more == 0 {
			break
		}
		n := 8
		if shift == 60 {
			n = 4
		}
		if b, ok = m.take(n); !ok {
			break
		}
		v |= b << shift
		if shift == 60 {
			break
		}
	}
	return v, ok
}

func (m *bitModel) u8() (int, bool) {
	b, ok := m.take(1)
	if !ok || b == 0 {
		return 0, ok
	}
	n, ok := m.take(3)
	if !ok {
		return 0, false
	}
	v, ok := m.take(int(n))
	return 1<<n + int(v), ok
}

// genBits draws the stream: random bytes, or fields written by the encoder.
func genBits(t *pbt.T) []byte {
	n := t.Size(0, 600)
	if t.Chance(1, 40) {
		n = t.Range(4000, 40000)
	}
	r := t.RNG()
	b := make([]byte, n)
	mode := t.N(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Next())
		case 1:
			b[i] = byte(r.Next() | r.Next())
		case 2:
			b[i] = byte(r.Next() & r.Next())
		case 3:
			b[i] = []byte{0, 255, 128, 1, byte(r.Next())}[r.N(5)]
		}
	}
	return b
}

// c04: the bit reader against a model of the stream.
func c04(t *pbt.T) {
	data := genBits(t)
	m := &bitModel{data: data}
	var in io.ReadSeeker = bytes.NewReader(data)
	if t.Bool() {
		in = &slowReader{bytes.NewReader(data), t.RNG()}
	}
	var br jxlio.BitReader
	if t.Chance(1, 4) {
		br = jxlio.NewBitStreamReaderWithIndex(in, t.N(5))
	} else {
		br = jxlio.NewBitStreamReader(in)
	}
	counted := true
	ops, unaligned, near := 0, false, false
	for step, n := 0, t.Size(1, 60); step < n; step++ {
		what := ""
		// fail is what a read of missing bits has to give.
		check := func(got, want any, err error, ok bool) bool {
			if !ok {
				if err == nil {
					t.Failf("step %d, %s beyond the end of %d bytes: got %v and no error", step, what, len(data), got)
				}
				return false
			}
			if err != nil {
				t.Failf("step %d, %s at bit %d of %d bytes: %v", step, what, m.pos, len(data), err)
			}
			if got != want {
				t.Failf("step %d, %s before bit %d of %d bytes: got %v, want %v", step, what, m.pos, len(data), got, want)
			}
			return true
		}
		if m.pos%8 != 0 {
			unaligned = true
		}
		if m.left() < 64 {
			near = true
		}
		alive := true
		start := m.pos
		t.Sig([]byte{byte(start), byte(start >> 8)})
		switch op := t.W(8, 3, 2, 2, 3, 3, 2, 2, 2, 5, 4, 1, 3, 2, 1, 2, 2, 2, 2, 1); op {
		case 0:
			k := t.N(65)
			what = fmt.Sprintf("ReadBits(%d)", k)
			want, ok := m.take(k)
			got, err := br.ReadBits(uint32(k))
			alive = check(got, want, err, ok)
		case 1:
			what = "ReadBool"
			want, ok := m.take(1)
			got, err := br.ReadBool()
			alive = check(got, want == 1, err, ok)
		case 2:
			what = "ReadByte"
			want, ok := m.take(8)
			got, err := br.ReadByte()
			alive = check(got, byte(want), err, ok)
		case 3:
			what = "ReadU8"
			want, ok := m.u8()
			got, err := br.ReadU8()
			alive = check(got, want, err, ok)
		case 4:
			var c, u [4]int
			for i := range c {
				c[i] = t.N(1 << uint(t.N(31)))
				u[i] = t.N(33)
			}
			what = fmt.Sprintf("ReadU32(%v,%v)", c, u)
			want, ok := m.u32(c, u)
			got, err := br.ReadU32(c[0], u[0], c[1], u[1], c[2], u[2], c[3], u[3])
			alive = check(got, want, err, ok)
		case 5:
			what = "ReadU64"
			want, ok := m.u64()
			got, err := br.ReadU64()
			alive = check(got, want, err, ok)
		case 6:
			what = "ReadF16"
			want, ok := m.take(16)
			got, err := br.ReadF16()
			if ok && want>>10&31 == 31 {
				if err == nil {
					t.Failf("step %d, ReadF16 of %#x gave %v", step, want, got)
				}
				break
			}
			alive = check(math.Float32bits(got), math.Float32bits(f16(uint16(want))), err, ok)
		case 7:
			what = "ReadEnum"
			want, ok := m.u32([4]int{0, 1, 2, 18}, [4]int{0, 0, 4, 6})
			got, err := br.ReadEnum()
			if ok && want > 63 {
				if err == nil {
					t.Failf("step %d, ReadEnum of %d gave %d", step, want, got)
				}
				break
			}
			alive = check(got, int32(want), err, ok)
		case 8:
			what = "ReadICCVarint"
			// only numbers below 2^31 have a meaning here
			var v uint64
			ok, small := true, true
			for i := uint(0); i < 9; i++ {
				var b uint64
				if b, ok = m.take(8); !ok {
					break
				}
				if i >= 4 && b&127 > 0 && (i > 4 || b&127 > 7) {
					small = false
				}
				v |= b & 127 << (7 * i)
				if b < 128 {
					break
				}
			}
			got, err := br.ReadICCVarint()
			if ok && !small {
				break
			}
			alive = check(got, int32(v), err, ok)
		case 9:
			k := t.Range(1, 64)
			what = fmt.Sprintf("ShowBits(%d)", k)
			want, ok := m.at(k), m.left() > 0
			got, err := br.ShowBits(k)
			check(got, want, err, ok)
		case 10:
			k := t.N(200)
			switch t.N(6) {
			case 0:
				k = t.N(40000)
			case 1:
				k = int(m.left())
				if t.Chance(1, 4) {
					k++
				}
			}
			what = fmt.Sprintf("SkipBits(%d)", k)
			ok := uint64(k) <= m.left()
			m.pos += uint64(k)
			alive = check(0, 0, br.SkipBits(uint32(k)), ok)
		case 11:
			k := uint32(t.N(20))
			if t.Chance(1, 8) {
				k = uint32(1)<<uint(t.Range(14, 31)) + uint32(t.N(20))
			}
			what = fmt.Sprintf("Skip(%d)", k)
			ok := uint64(k)*8 <= m.left()
			m.pos += uint64(k) * 8
			got, err := br.Skip(k)
			alive = check(got, int64(k), err, ok)
		case 12:
			what = "ZeroPadToByte"
			m.pos = (m.pos + 7) / 8 * 8
			alive = check(0, 0, br.ZeroPadToByte(), true)
		case 13:
			what = "AtEnd"
			check(br.AtEnd(), m.left() == 0, nil, true)
		case 14:
			what = "Reset"
			m.pos, counted = 0, false
			check(0, 0, br.Reset(), true)
		case 15:
			k := t.N(len(data) + 1)
			what = fmt.Sprintf("Seek(%d)", k)
			m.pos, counted = uint64(k)*8, false
			got, err := br.Seek(int64(k), io.SeekStart)
			check(got, int64(k), err, true)
		case 16:
			what = "Seek(0, current)"
			got, err := br.Seek(0, io.SeekCurrent)
			check(got, int64((m.pos+7)/8), err, true)
		case 17:
			k := t.N(12)
			if t.Chance(1, 4) {
				k = t.N(5000)
			}
			what = fmt.Sprintf("ReadBytesToBuffer(%d)", k)
			buf := bytes.Repeat([]byte{0xA5}, k+3)
			err := br.ReadBytesToBuffer(buf, uint32(k))
			if m.pos%8 != 0 {
				if err == nil {
					t.Failf("step %d, %s within a byte gave no error", step, what)
				}
				break
			}
			ok := uint64(k)*8 <= m.left()
			p := int(m.pos / 8)
			m.pos += uint64(k) * 8
			if alive = check(0, 0, err, ok); alive {
				check(string(buf), string(data[p:p+k])+"\xA5\xA5\xA5", nil, true)
			}
		case 18:
			k := t.Range(-1, 10)
			what = fmt.Sprintf("ReadBytesUint64(%d)", k)
			got, err := br.ReadBytesUint64(k)
			if k < 1 || k > 8 || m.pos%8 != 0 {
				if err == nil {
					t.Failf("step %d, %s at bit %d gave no error", step, what, m.pos)
				}
				break
			}
			want, ok := m.take(8 * k)
			alive = check(got, want, err, ok)
		case 19:
			p := t.N(len(data) + 1)
			k := t.N(len(data) - p + 1)
			if t.Chance(1, 6) {
				k += t.N(4)
			}
			what = fmt.Sprintf("ReadByteArrayWithOffsetAndLength(%d,%d)", p, k)
			buf := make([]byte, k)
			err := br.ReadByteArrayWithOffsetAndLength(buf, int64(p), uint32(k))
			if k == 0 {
				check(0, 0, err, true)
				break
			}
			counted = false
			m.pos = uint64(p+k) * 8
			if alive = check(0, 0, err, p+k <= len(data)); alive {
				check(string(buf), string(data[p:p+k]), nil, true)
			}
		}
		t.Logf("%s: bit %d to %d", what, start, m.pos)
		ops++
		if !alive {
			t.Label("reached-end")
			break
		}
		if counted {
			if br.BitsRead() != m.pos || br.GetBitsCount() != m.pos {
				t.Failf("step %d, %s: %d bits read, want %d", step, what, br.BitsRead(), m.pos)
			}
		}
	}
	t.Eval(ops)
	t.Sig(data)
	if near {
		t.Label("near-end")
	}
	if unaligned && ops > 3 {
		t.NonTrivial()
	}
}

// f16 is the value of a half-precision number that is finite.
func f16(h uint16) float32 {
	e, f := int(h>>10&31), float64(h&1023)
	if e > 0 {
		e, f = e-1, f+1024
	}
	v := math.Ldexp(f, e-24)
	if h>>15 == 1 {
		v = -v
		if v == 0 {
			v = math.Copysign(0, -1)
		}
	}
	return float32(v)
}
