package unit

import (
	"fmt"
	"math"

	"github.com/kpfaulkner/jxl-go/image"

	"verif/pbt"
)

func init() { reg("C25", c25) }

// bufModel is what an image buffer holds.
type bufModel struct {
	b     *image.ImageBuffer
	w, h  int
	float bool
	i     []int32
	f     []float32
	had   bool // the buffer was cast before
}

func (m *bufModel) copy() *bufModel {
	n := *m
	n.i, n.f = append([]int32(nil), m.i...), append([]float32(nil), m.f...)
	return &n
}

func sameFloat(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b
}

// check compares the buffer with its model.
func (m *bufModel) check(t *pbt.T, what string) {
	b := m.b
	if int(b.Width) != m.w || int(b.Height) != m.h || b.IsFloat() != m.float || b.IsInt() == m.float {
		t.Failf("%s: the buffer is %dx%d, float %v, int %v, want %dx%d, float %v", what, b.Width, b.Height, b.IsFloat(), b.IsInt(), m.w, m.h, m.float)
	}
	for y := 0; y < m.h; y++ {
		for x := 0; x < m.w; x++ {
			k := y*m.w + x
			if m.float && !sameFloat(b.FloatBuffer[y][x], m.f[k]) {
				t.Failf("%s: sample (%d,%d) is %v, want %v", what, x, y, b.FloatBuffer[y][x], m.f[k])
			}
			if !m.float && b.IntBuffer[y][x] != m.i[k] {
				t.Failf("%s: sample (%d,%d) is %d, want %d", what, x, y, b.IntBuffer[y][x], m.i[k])
			}
		}
	}
	if m.float && len(b.FloatBuffer) != m.h || !m.float && len(b.IntBuffer) != m.h {
		t.Failf("%s: the buffer has another number of rows than %d", what, m.h)
	}
}

// equal tells if the models hold the same samples.
func (m *bufModel) equal(o *bufModel) bool {
	if m.w != o.w || m.h != o.h || m.float != o.float {
		return false
	}
	for k := 0; k < m.w*m.h; k++ {
		if m.float && m.f[k] != o.f[k] || !m.float && m.i[k] != o.i[k] {
			return false
		}
	}
	return true
}

func genInt(t *pbt.T, r *pbt.RNG, max int32) int32 {
	switch r.N(6) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return int32(r.Next())
	case 3:
		return int32(r.Next()) >> uint(r.N(32))
	}
	return int32(r.Next() % (uint64(max) + 1))
}

func genFloat(r *pbt.RNG) float32 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return math.Float32frombits(uint32(r.Next()))
	case 3:
		return float32(r.Float()*4 - 2)
	case 4:
		return float32((float64(r.N(256)) + 0.5) / 255)
	}
	return float32(r.Float())
}

func c25(t *pbt.T) {
	maxes := []int32{1, 3, 15, 255, 1023, 4095, 65535, 1<<18 - 1, 1<<22 - 1}
	max := maxes[t.N(len(maxes))]
	if t.Chance(1, 3) {
		max = int32(1 + t.N(1<<22))
	}
	var all []*bufModel
	casts, copies := 0, 0
	for step, n := 0, t.Range(2, 16); step < n; step++ {
		op := 0
		if len(all) > 0 {
			op = t.W(1, 3, 3, 3, 2, 3, 2, 3, 2)
		}
		var m *bufModel
		k := 0
		if op > 0 {
			k = t.N(len(all))
			m = all[k]
		}
		what := ""
		switch op {
		case 0:
			if len(all) > 4 {
				break
			}
			if t.Chance(1, 10) {
				ty, h, w := t.N(2), t.Range(-1, 3), t.Range(-1, 3)
				switch t.N(3) {
				case 0:
					ty = 2 + t.N(3)
				case 1:
					h = 1<<30 + 1 + t.N(1<<20)
				case 2:
					w = 1<<30 + 1 + t.N(1<<20)
				}
				what = fmt.Sprintf("NewImageBuffer(%d,%d,%d)", ty, h, w)
				if b, err := image.NewImageBuffer(ty, int32(h), int32(w)); err == nil || b != nil {
					t.Failf("%s gave no error", what)
				}
				break
			}
			r := t.RNG()
			m = &bufModel{w: t.Size(1, 12), h: t.Size(1, 12), float: t.Bool()}
			m.i, m.f = make([]int32, m.w*m.h), make([]float32, m.w*m.h)
			if t.Chance(1, 3) {
				ty := 0
				if m.float {
					ty = 1
				}
				b, err := image.NewImageBuffer(ty, int32(m.h), int32(m.w))
				if err != nil {
					t.Failf("NewImageBuffer(%d,%d,%d): %v", ty, m.h, m.w, err)
				}
				m.b = b
				what = "new buffer"
			} else {
				is, fs := make([][]int32, m.h), make([][]float32, m.h)
				for y := range is {
					is[y], fs[y] = make([]int32, m.w), make([]float32, m.w)
					for x := range is[y] {
						if m.float {
							fs[y][x] = genFloat(r)
						} else {
							is[y][x] = genInt(t, r, max)
						}
						m.i[y*m.w+x], m.f[y*m.w+x] = is[y][x], fs[y][x]
					}
				}
				if m.float {
					m.b = image.NewImageBufferFromFloats(fs)
				} else {
					m.b = image.NewImageBufferFromInts(is)
				}
				what = "buffer of samples"
			}
			all = append(all, m)
			k = len(all) - 1
		case 1: // edit
			x, y, r := t.N(m.w), t.N(m.h), t.RNG()
			if m.float {
				v := genFloat(r)
				m.b.FloatBuffer[y][x], m.f[y*m.w+x] = v, v
			} else {
				v := genInt(t, r, max)
				m.b.IntBuffer[y][x], m.i[y*m.w+x] = v, v
			}
			what = "edit"
		case 2, 3:
			v := max
			bad := t.Chance(1, 8)
			if bad {
				v = int32(t.N(5)) - 4
			}
			what = fmt.Sprintf("CastToFloatIfMax(%d)", v)
			var err error
			if op == 3 {
				what = fmt.Sprintf("CastToIntIfMax(%d)", v)
				err = m.b.CastToIntIfMax(v)
			} else {
				err = m.b.CastToFloatIfMax(v)
			}
			done := m.float == (op == 2)
			if bad && !done {
				if err == nil {
					t.Failf("%s gave no error", what)
				}
				break
			}
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			if done {
				break
			}
			casts++
			m.had = true
			for k := range m.i {
				if op == 2 {
					want := float64(m.i[k]) / float64(v)
					got := m.b.FloatBuffer[k/m.w][k%m.w]
					if math.Abs(float64(got)-want) > math.Abs(want)*3e-7 {
						t.Failf("%s: %d became %v, want %v", what, m.i[k], got, want)
					}
					m.f[k] = got
				} else {
					f := m.f[k]
					got := m.b.IntBuffer[k/m.w][k%m.w]
					want := float64(f) * float64(v)
					tol := 0.5 + math.Abs(want)*1.5e-7
					if f != f {
						want = 0
					}
					want = math.Min(math.Max(want, 0), float64(v))
					if math.Abs(float64(got)-want) > tol || got < 0 || got > v {
						t.Failf("%s: %v became %d, want %v", what, f, got, want)
					}
					m.i[k] = got
				}
			}
			m.float = op == 2
		case 4: // there and back
			if m.float {
				break
			}
			in := true
			for _, v := range m.i {
				in = in && v >= 0 && v <= max
			}
			what = fmt.Sprintf("casts to float and back with %d", max)
			if err := m.b.CastToFloatIfMax(max); err != nil {
				t.Failf("%s: %v", what, err)
			}
			if err := m.b.CastToIntIfMax(max); err != nil {
				t.Failf("%s: %v", what, err)
			}
			if !in {
				for k, v := range m.i {
					m.i[k] = m.b.IntBuffer[k/m.w][k%m.w]
					if v >= 0 && v <= max && m.i[k] != v || v < 0 && m.i[k] != 0 || v > max && m.i[k] != max {
						t.Failf("%s: %d became %d", what, v, m.i[k])
					}
				}
			}
			casts++
		case 5:
			if len(all) > 4 {
				break
			}
			deep := t.Chance(3, 4)
			what = fmt.Sprintf("copy of buffer %d, deep %v", k, deep)
			n := m.copy()
			n.b = image.NewImageBufferFromImageBuffer(m.b, deep)
			if !deep {
				clear(n.i)
				clear(n.f)
			}
			all = append(all, n)
			copies++
		case 6:
			v := max
			if t.Chance(1, 3) {
				v = int32(t.N(1 << uint(t.N(31))))
			}
			what = fmt.Sprintf("Clamp(%d)", v)
			err := m.b.Clamp(v)
			if m.float {
				if err == nil {
					t.Failf("%s of floats gave no error", what)
				}
				break
			}
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			for k, s := range m.i {
				m.i[k] = min(maxi(s, 0), v)
			}
		case 7:
			j := t.N(len(all))
			o := all[j]
			what = fmt.Sprintf("comparison of buffers %d and %d", k, j)
			want := m.equal(o)
			if got := m.b.Equals(*o.b); got != want {
				t.Failf("%s: %v, want %v", what, got, want)
			}
			a, b := []image.ImageBuffer{*m.b, *o.b}, []image.ImageBuffer{*o.b, *m.b}
			if got := image.ImageBufferSliceEquals(a, b); got != want {
				t.Failf("%s within slices: %v, want %v", what, got, want)
			}
			if image.ImageBufferSliceEquals(a, b[:1]) || image.ImageBufferSliceEquals(nil, b) {
				t.Failf("%s: slices of other lengths are equal", what)
			}
			if want {
				t.Label("equal")
			}
		case 8:
			what = "maximum"
			if m.float {
				v, ok := float32(0), true
				for _, f := range m.f {
					ok = ok && f == f
					if f > v {
						v = f
					}
				}
				if got := m.b.MaxFloat(); ok && got != v {
					t.Failf("MaxFloat is %v, want %v", got, v)
				}
			} else {
				v := int32(0)
				for _, i := range m.i {
					v = maxi(v, i)
				}
				if got := m.b.MaxInt(); got != v {
					t.Failf("MaxInt is %v, want %v", got, v)
				}
			}
		}
		if what == "" {
			continue
		}
		t.Logf("%d: %s;", k, what)
		t.Sig([]byte(what))
		for j, o := range all {
			o.check(t, fmt.Sprintf("step %d, %s on buffer %d: buffer %d", step, what, k, j))
			t.Eval(o.w * o.h)
		}
	}
	if casts > 0 && copies > 0 {
		t.NonTrivial()
	}
}

func maxi(a, b int32) int32 {
	if a > b {
		return a
	}
	return b
}
