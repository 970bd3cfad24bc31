package props

import (
	"math"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C22", c22) }

// F16 decodes a half float.
func F16(h uint16) float64 {
	e, f := int(h>>10)&31, float64(h&1023)
	v := 0.0
	if e == 0 {
		v = f * math.Pow(2, -24)
	} else {
		v = (1024 + f) * math.Pow(2, float64(e-25))
	}
	if h&0x8000 != 0 {
		v = -v
	}
	return v
}

// ToF16 gives a half float near v.
func ToF16(v float64) uint16 {
	s := uint16(0)
	if v < 0 {
		s, v = 0x8000, -v
	}
	if v < math.Pow(2, -24) {
		return s
	}
	if v >= 65504 {
		return s | 30<<10 | 1023
	}
	e := int(math.Floor(math.Log2(v)))
	if e < -14 {
		return s | uint16(math.Round(v*math.Pow(2, 24)))
	}
	m := int(math.Round((v/math.Pow(2, float64(e)) - 1) * 1024))
	if m == 1024 {
		m = 0
		e++
	}
	return s | uint16(e+15)<<10 | uint16(m)
}

func mirror(i, n int) int {
	for i < 0 || i >= n {
		if i < 0 {
			i = -i - 1
		} else {
			i = 2*n - 1 - i
		}
	}
	return i
}

// upsample enlarges a plane by k with the format's 5x5 kernels.
func upsample(p *FP, k int, weights []float64) *FP {
	if k == 1 {
		return p
	}
	n := 5 * k / 2
	// the symmetric matrix the weights are the upper triangle of
	mat := make([][]float64, n)
	for i := range mat {
		mat[i] = make([]float64, n)
	}
	idx := 0
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			mat[i][j], mat[j][i] = weights[idx], weights[idx]
			idx++
		}
	}
	out := newFP(p.W*k, p.H*k)
	for Y := 0; Y < out.H; Y++ {
		for X := 0; X < out.W; X++ {
			x, y, ox, oy := X/k, Y/k, X%k, Y%k
			fx, fy := ox >= k/2, oy >= k/2
			if fx {
				ox = k - 1 - ox
			}
			if fy {
				oy = k - 1 - oy
			}
			sum, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
			for iy := -2; iy <= 2; iy++ {
				for ix := -2; ix <= 2; ix++ {
					v := p.at(mirror(x+ix, p.W), mirror(y+iy, p.H))
					lo, hi = math.Min(lo, v), math.Max(hi, v)
					jx, jy := ix+2, iy+2
					if fx {
						jx = 4 - jx
					}
					if fy {
						jy = 4 - jy
					}
					sum += v * mat[oy*5+jy][ox*5+jx]
				}
			}
			out.D[Y*out.W+X] = math.Max(lo, math.Min(hi, sum))
		}
	}
	return out
}

// upWeights draws the image's upsampling weights, sometimes custom ones.
func upWeights(t *pbt.T, m *jx.Meta) [9][]float64 {
	var ws [9][]float64
	ws[2], ws[4], ws[8] = up2Default, up4Default, up8Default
	if !t.Chance(1, 2) {
		return ws
	}
	m.DefaultTransform = false
	m.OpsinM.Default = true
	r := t.RNG()
	cust := func(k int) []uint16 {
		def := ws[k]
		hs := make([]uint16, len(def))
		fs := make([]float64, len(def))
		for i := range def {
			v := def[i] * (0.5 + r.Float())
			if r.N(8) == 0 {
				v = r.Float() - 0.3
			}
			hs[i] = ToF16(v)
			fs[i] = F16(hs[i])
		}
		ws[k] = fs
		return hs
	}
	if t.Bool() {
		m.Up2 = cust(2)
	}
	if t.Bool() {
		m.Up4 = cust(4)
	}
	if t.Bool() {
		m.Up8 = cust(8)
	}
	return ws
}

// c22: channels coded at a lower resolution are enlarged as the format says.
func c22(t *pbt.T) {
	w, h := smallSize(t, 60)
	if t.Chance(1, 12) { // groups
		w, h = t.Range(100, 500), t.Range(100, 300)
	}
	m, f, _, bits := modImage(t, w, h, []int{8, 8, 8, 1, 4, 10, 12, 16})
	ws := upWeights(t, m)
	f.Ups = t.W(2, 3, 2, 2)
	for i := range m.ECs {
		// total between the colours' and 8
		tot := t.Range(f.Ups, 3)
		m.ECs[i].Shift = t.Range(0, tot)
		f.ECUps[i] = tot - m.ECs[i].Shift
	}
	feat := map[string]bool{}
	if t.Chance(1, 4) {
		f.Crop = true
		f.W, f.H = t.Range(1, w+5), t.Range(1, h+5)
		f.X0, f.Y0 = t.Range(0, w+4)-4, t.Range(0, h+4)-4
		feat["crop"] = true
	}
	planes := jx.Planes(m, f)
	fillPlanes(t, m, planes)
	if bits <= 12 && t.Chance(1, 3) {
		feat["out-of-range"] = true
		for _, p := range planes {
			for k := range p.D {
				p.D[k] = -p.D[k]
			}
		}
	}
	o := plainOpts(bits)
	secs, dec := jx.EncodeModular(t, m, f, planes, o, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, false, feat)
	nc := m.NumColour()
	var want []*FP
	rich := false
	for c, p := range dec {
		k := 1 << uint(f.Ups)
		b := bits
		if c >= nc {
			k = 1 << uint(f.ECUps[c-nc]+m.ECs[c-nc].Shift)
			b = m.ECs[c-nc].Depth.Bits
		}
		fp := newFP(p.W, p.H)
		for i, v := range p.D {
			fp.D[i] = float64(v) / float64(int(1)<<uint(b)-1)
		}
		if k > 1 && len(p.D) >= 4 && !constant(p) {
			rich = true
		}
		t.Label("ups-" + string(rune('0'+k)))
		up := upsample(fp, k, ws[k])
		res := newFP(w, h)
		for y := 0; y < f.H; y++ {
			for x := 0; x < f.W; x++ {
				X, Y := x+f.X0, y+f.Y0
				if X >= 0 && Y >= 0 && X < w && Y < h {
					res.D[Y*w+X] = up.at(x, y)
				}
			}
		}
		want = append(want, res)
	}
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("upsampling %d, extra %v, custom weights %v %v %v crop %v (%d,%d) %dx%d", 1<<uint(f.Ups), f.ECUps, m.Up2 != nil, m.Up4 != nil, m.Up8 != nil, f.Crop, f.X0, f.Y0, f.W, f.H)
	describe(t, m, f, data, feat)
	if rich {
		t.NonTrivial()
	}
	checkReal(t, m, data, want, 3e-5)
}
