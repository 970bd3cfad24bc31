package props

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/pbt"
)

func init() {
	reg("C20", c20)
	reg("C21", c21)
	reg("C29", c29)
}

// enlargeRP upsamples a plane.
func enlargeRP(p *jx.RP, k int, weights []float64) *jx.RP {
	if k == 1 {
		return p
	}
	fp := newFP(p.W, p.H)
	copy(fp.D, p.D)
	u := upsample(fp, k, weights)
	o := jx.NewRP(u.W, u.H)
	copy(o.D, u.D)
	norm := 0.0
	for _, w := range weights {
		norm += 2 * math.Abs(w)
	}
	norm = math.Max(1, math.Min(norm, 30))
	for y := 0; y < o.H; y++ {
		for x := 0; x < o.W; x++ {
			e, a := 0.0, 0.0
			for iy := -2; iy <= 2; iy++ {
				for ix := -2; ix <= 2; ix++ {
					i := mirror(y/k+iy, p.H)*p.W + mirror(x/k+ix, p.W)
					e, a = math.Max(e, p.E[i]), math.Max(a, math.Abs(p.D[i]))
				}
			}
			o.E[y*o.W+x] = norm * (e + 1e-6*a)
		}
	}
	return o
}

// finish takes the coded planes to the image's colours.
func (x *varImage) finish(ps [3]*jx.RP, op opsin, ws [9][]float64) [3]*jx.RP {
	ps = filters(x.f, x.v, frameColours(x.f, ps))
	if x.f.Ups > 0 {
		k := 1 << uint(x.f.Ups)
		for c := range ps {
			ps[c] = cropRP(enlargeRP(ps[c], k, ws[k]), x.f.W, x.f.H)
		}
	}
	if x.m.XYB {
		return op.invert(ps)
	}
	if x.f.YCbCr {
		return ycbcr(ps)
	}
	return ps
}

// encodeModular makes a modular image's bits and gives its colour planes.
func (x *varImage) encodeModular(t *pbt.T, o jx.ModOpts) (out [3]*jx.RP) {
	x.data, x.ecs, out = nil, nil, [3]*jx.RP{}
	planes := jx.Planes(x.m, x.f)
	deq := [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	for c, h := range o.Dequant {
		deq[c] = F16(h) / 128
	}
	r := t.RNG()
	for i, p := range planes {
		switch {
		case i >= 3:
			fill(t, p, x.m.ECs[i-3].Depth.Bits)
		case x.m.XYB:
			// coded as Y, X, B-Y
			c := []int{1, 0, 2}[i]
			amp := []float64{0.03, 0.9, 0.3}[c]
			lo := 0.0
			if c != 1 {
				lo = -amp
			}
			g := t.N(3)
			for k := range p.D {
				v := lo + (amp-lo)*r.Float()
				if g == 1 {
					v = amp * math.Sin(float64(k%p.W)*0.2+float64(k/p.W)*0.1)
				}
				p.D[k] = int64(math.Round(v / deq[c]))
				if x.grey {
					// B = Y, at half the resolution of Y
					p.D[k] = p.D[k] / 2 * 2
					if c == 0 {
						p.D[k] = 0
					} else if c == 2 {
						p.D[k] = -planes[0].D[k] / 2
					}
				}
			}
		default:
			fill(t, p, x.m.Depth.Bits)
			if x.f.YCbCr {
				for k := range p.D {
					p.D[k] -= int64(1) << uint(x.m.Depth.Bits-1)
					if x.grey && i != 1 {
						p.D[k] = 0
					}
				}
			}
		}
	}
	secs, dec := jx.EncodeModular(t, x.m, x.f, planes, o, x.feat)
	x.ecs = dec[3:]
	bw := x.start()
	jx.WriteFrame(t, bw, x.m, x.f, secs, t.Chance(1, 4), x.feat)
	x.data = bw.B
	t.Attach("image.jxl", x.data)
	sig(t, x.data)
	describe(t, x.m, x.f, x.data, x.feat)
	max := float64(int64(1)<<uint(x.m.Depth.Bits) - 1)
	for i, p := range dec[:3] {
		q := jx.NewRP(p.W, p.H)
		c := i
		if x.m.XYB {
			c = []int{1, 0, 2}[i]
		}
		for k, v := range p.D {
			if x.m.XYB {
				if c == 2 {
					v += dec[0].D[k]
				}
				q.D[k] = float64(v) * deq[c]
			} else {
				q.D[k] = float64(v) / max
			}
			q.E[k] = 2e-7 * math.Abs(q.D[k])
		}
		out[c] = q
	}
	return
}

// c29: JPEG colours, with chroma of lower resolution, become RGB.
func c29(t *pbt.T) {
	w, h := varSize(t)
	x := newVar(t, w, h)
	x.f.YCbCr = true
	if t.Chance(4, 5) {
		if t.Bool() { // usual ones: 4:4:4, 4:2:0, 4:2:2, 4:4:0
			x.f.JpegUps = [][3]int{{0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {0, 3, 0}}[t.N(4)]
		} else {
			for i := range x.f.JpegUps {
				x.f.JpegUps[i] = t.N(4)
			}
		}
	}
	hs, vs := x.f.Subsampling()
	if hs != [3]int{} || vs != [3]int{} {
		x.feat["subsampled"] = true
	}
	x.genGrey(t)
	if t.Chance(1, 4) {
		e := genEC(t, 0, x.m.Depth.Bits)
		x.m.ECs = append(x.m.ECs, e)
		x.f.ECUps = make([]int, 1)
		x.f.ECBl = make([]jx.Blend, 1)
	}
	if t.Chance(1, 3) {
		genFilters(t, x.f, x.feat)
	}
	var ps [3]*jx.RP
	if t.Chance(1, 3) {
		x.modular()
		ps = x.encodeModular(t, plainOpts(x.m.Depth.Bits))
		t.NonTrivial()
	} else {
		o := jx.VOpts{Amp: 0.5, Grey: x.grey}
		if t.Bool() {
			o.Matrices, o.Contexts = t.Chance(1, 3), true
		}
		x.encode(t, o, plainOpts(x.m.Depth.Bits))
		if x.nonzero() > 10 {
			t.NonTrivial()
		}
		ps = x.v.Planes(x.v.LFImage())
	}
	x.check(t, x.finish(ps, opsin{}, [9][]float64{}))
}

// genGrey makes some images grey: all colour channels are coded, and the image
// has one.
func (x *varImage) genGrey(t *pbt.T) {
	if !t.Chance(1, 6) {
		return
	}
	x.grey = true
	x.m.Colour = genColour(t)
	x.m.Colour.AllDefault = false
	x.m.Colour.Space = 1
	x.feat["grey"] = true
}

// modular turns the frame into a modular one.
func (x *varImage) modular() {
	x.f.Modular = true
	x.f.Flags = 0
	x.f.Passes, x.f.Shifts = 1, nil
	x.feat["modular"] = true
}

func (x *varImage) check(t *pbt.T, want [3]*jx.RP) {
	img := x.decode(t)
	if d := x.compare(t, img, want); d != "" {
		t.Failf("%s", d)
	}
}

// c20: restoration filters.
func c20(t *pbt.T) {
	w, h := varSize(t)
	x := newVar(t, w, h)
	genFilters(t, x.f, x.feat)
	if t.Chance(1, 80) {
		c20Custom(t)
		return
	}
	if t.Chance(1, 8) {
		c20Default(t, x)
		return
	}
	x.f.XQM, x.f.BQM = 2, 2
	x.m.XYB = t.Bool()
	var ps [3]*jx.RP
	if t.Chance(1, 5) {
		x.modular()
		if !x.f.LF.AllDefault {
			x.f.LF = jx.LoopF{Gab: true}
			if t.Bool() {
				x.f.LF.GabCustom = true
				for i := range x.f.LF.GabW {
					x.f.LF.GabW[i] = ToF16(t.RNG().Float()*0.4 - 0.1)
				}
			}
		}
		ps = x.encodeModular(t, plainOpts(x.m.Depth.Bits))
		t.NonTrivial()
	} else {
		amp := []float64{0.02, 0.1, 0.3, 1}[t.N(4)]
		x.encode(t, jx.VOpts{XYB: x.m.XYB, Amp: amp}, plainOpts(x.m.Depth.Bits))
		if x.nonzero() > 10 && (x.f.LF.AllDefault || x.f.LF.Gab || x.f.LF.EPF > 0) {
			t.NonTrivial()
		}
		ps = x.v.Planes(x.v.LFImage())
	}
	x.check(t, x.finish(ps, defaultOpsin(), [9][]float64{}))
}

// c20Default: the frame header says nothing but that all is as usual, perhaps the
// image header too. The LF image has one colour, so smoothing does nothing.
func c20Default(t *pbt.T, x *varImage) {
	x.m.XYB = t.Bool()
	if x.m.XYB && t.Bool() {
		x.m.AllDefault = true
		x.m.Depth.Bits = 8
		x.m.Colour = jx.ColourEnc{AllDefault: true}
	}
	f := jx.NewFHdr(x.m)
	f.Pick = t.N
	f.AllDefault = true
	f.Modular = false
	f.Flags = 0
	f.GroupShift = 1
	f.Passes = 1
	f.XQM, f.BQM = 2, 2
	if x.m.XYB {
		f.XQM = 3
	}
	f.LF = jx.LoopF{AllDefault: true}
	x.f = f
	x.feat["default-header"] = true
	x.encode(t, jx.VOpts{XYB: x.m.XYB, FlatLF: true, Amp: []float64{0.02, 0.1, 0.3, 1}[t.N(4)]}, plainOpts(x.m.Depth.Bits))
	if x.nonzero() > 10 {
		t.NonTrivial()
	}
	x.check(t, x.finish(x.v.Planes(x.v.LFImage()), defaultOpsin(), [9][]float64{}))
}

// c20Custom: parameters of the edge preserving filter, which the decoder reads
// from the wrong place.
func c20Custom(t *pbt.T) {
	x := newVar(t, t.Range(8, 40), t.Range(8, 40))
	r := t.RNG()
	x.f.LF = jx.LoopF{EPF: t.Range(1, 3), Gab: t.Bool()}
	l := &x.f.LF
	l.WeightCustom, l.SigmaCustom = t.Bool(), t.Bool()
	for i := range l.ChanScale {
		l.ChanScale[i] = ToF16([]float64{40, 5, 3.5}[i] * (0.3 + r.Float()))
	}
	l.QuantMul, l.Pass0, l.Pass2, l.Border = ToF16(0.2+0.5*r.Float()), ToF16(0.5+r.Float()), ToF16(3+5*r.Float()), ToF16(0.3+0.7*r.Float())
	l.Mod = ToF16(0.5 + 2*r.Float())
	if !l.WeightCustom && !l.SigmaCustom {
		x.modular()
	}
	var ps [3]*jx.RP
	x.m.XYB = true
	x.f.XQM, x.f.BQM = 2, 2
	if x.f.Modular {
		ps = x.encodeModular(t, plainOpts(x.m.Depth.Bits))
	} else {
		x.encode(t, jx.VOpts{XYB: true, Amp: 0.1}, plainOpts(x.m.Depth.Bits))
		ps = x.v.Planes(x.v.LFImage())
	}
	t.Label("epf-custom")
	t.NonTrivial()
	want := x.finish(ps, defaultOpsin(), [9][]float64{})
	img, err := Decode(x.data)
	d := ""
	if err != nil || img == nil {
		d = fmt.Sprintf("decoding a valid image failed: %v", err)
	} else if d = x.shape(img); d == "" {
		d = x.compare(t, img, want)
	}
	if d != "" {
		t.Known("epf-weight-flag")
		t.Failf("parameters of the edge preserving filter: %s", d)
	}
}

// genOpsin draws the parameters of the XYB colour space.
func genOpsin(t *pbt.T, m *jx.Meta) opsin {
	o := defaultOpsin()
	r := t.RNG()
	if t.Bool() {
		m.DefaultTransform = false
		p := &m.OpsinM
		p.Default = t.Chance(1, 4)
		if !p.Default {
			for i := range p.M {
				v := o.m[i/3][i%3]
				if t.Bool() {
					v += r.Float()*2 - 1
				}
				p.M[i] = ToF16(v)
				o.m[i/3][i%3] = F16(p.M[i])
			}
			for i := range p.Bias {
				v := o.bias[i]
				switch t.N(3) {
				case 1:
					v = -0.02 * r.Float()
				case 2:
					v = 0.02*r.Float() - 0.01
				}
				p.Bias[i] = ToF16(v)
				o.bias[i] = F16(p.Bias[i])
				p.QBias[i] = ToF16(0.5 + 0.6*r.Float())
			}
			p.QNum = ToF16(0.3 * r.Float())
		}
	}
	if t.Bool() {
		m.ExtraFields = true
		m.ToneM.AllDefault = false
		v := []float64{255, 100, 1000, 4000, 203, 10000}[t.N(6)]
		m.ToneM.Intensity = ToF16(v)
		o.peak = F16(m.ToneM.Intensity)
	}
	return o
}

// convert makes the output use the primaries the image's header names.
func (o *opsin) convert(m *jx.Meta) {
	h := outImage{m: m}
	w, p := h.white(), h.prims()
	if nearP(p, srgbPrim) && near(w, d65) {
		return
	}
	c := primMatrix(p, w).inv()
	if !near(w, d65) {
		c = c.mul(adapt(d65, w))
	}
	c = c.mul(primMatrix(srgbPrim, d65))
	o.slack = 3e-6
	o.abs = mat(o.m)
	for i := range o.abs {
		for k := range o.abs[i] {
			o.abs[i][k] = 0
			for j := range o.abs {
				o.abs[i][k] += math.Abs(c[i][j] * o.m[j][k])
			}
		}
	}
	o.m = c.mul(mat(o.m))
}

// c21: images in the XYB colour space become linear RGB.
func c21(t *pbt.T) {
	w, h := varSize(t)
	x := newVar(t, w, h)
	x.m.XYB = true
	x.f.XQM, x.f.BQM = t.N(8), t.N(8)
	x.genGrey(t)
	if t.Chance(1, 4) {
		e := genEC(t, 0, x.m.Depth.Bits)
		x.m.ECs = append(x.m.ECs, e)
		x.f.ECUps = make([]int, 1)
		x.f.ECBl = make([]jx.Blend, 1)
	}
	var ws [9][]float64
	if t.Chance(1, 6) {
		ws = upWeights(t, x.m)
		x.f.Ups = t.Range(1, 3)
		for i := range x.m.ECs {
			x.f.ECUps[i] = x.f.Ups
		}
		x.feat["upsampled"] = true
	}
	op := defaultOpsin()
	if !x.grey {
		op = genOpsin(t, x.m)
	}
	if !x.grey && t.Chance(1, 3) {
		x.m.Colour = genColour(t)
		op.convert(x.m)
		x.feat["primaries"] = true
	}
	if t.Chance(1, 4) {
		genFilters(t, x.f, x.feat)
		if x.grey { // B stays Y
			for i := range x.f.LF.GabW {
				x.f.LF.GabW[i] = x.f.LF.GabW[i%2]
			}
		}
	}
	mo := plainOpts(x.m.Depth.Bits)
	if !x.grey && t.Chance(1, 3) {
		for i := 0; i < 3; i++ {
			mo.Dequant = append(mo.Dequant, ToF16([]float64{1.0 / 32, 0.25, 0.5}[i]*(0.3+1.5*t.RNG().Float())))
		}
	}
	var ps [3]*jx.RP
	if t.Chance(1, 3) {
		x.modular()
		ps = x.encodeModular(t, mo)
		t.NonTrivial()
	} else {
		x.encode(t, jx.VOpts{XYB: true, Orders: t.Chance(1, 6), Grey: x.grey}, mo)
		if x.nonzero() > 10 {
			t.NonTrivial()
		}
		ps = x.v.Planes(x.v.LFImage())
	}
	want := x.finish(ps, op, ws)
	if len(x.ecs) > 0 && x.f.Ups > 0 {
		x.ecs = nil // compared by C22
	}
	x.check(t, want)
}
