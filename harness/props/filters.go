package props

import (
	"math"

	"verif/jx"
	"verif/pbt"
)

// planes of real numbers with error bounds; an infinite bound: not compared.

func cropRP(p *jx.RP, w, h int) *jx.RP {
	if p.W == w && p.H == h {
		return p
	}
	o := jx.NewRP(w, h)
	for y := 0; y < h; y++ {
		copy(o.D[y*w:(y+1)*w], p.D[y*p.W:])
		copy(o.E[y*w:(y+1)*w], p.E[y*p.W:])
	}
	return o
}

func cloneRP(p *jx.RP) *jx.RP {
	return &jx.RP{W: p.W, H: p.H, D: append([]float64(nil), p.D...), E: append([]float64(nil), p.E...)}
}

// doubleRP doubles a plane's resolution with weights 3/4 and 1/4.
func doubleRP(p *jx.RP, horizontal bool) *jx.RP {
	var o *jx.RP
	if horizontal {
		o = jx.NewRP(2*p.W, p.H)
	} else {
		o = jx.NewRP(p.W, 2*p.H)
	}
	for y := 0; y < o.H; y++ {
		for x := 0; x < o.W; x++ {
			a, b, nx, ny := x, y, x, y
			if horizontal {
				a = x / 2
				nx = min(max(a+x%2*2-1, 0), p.W-1)
			} else {
				b = y / 2
				ny = min(max(b+y%2*2-1, 0), p.H-1)
			}
			i, j, k := y*o.W+x, b*p.W+a, ny*p.W+nx
			o.D[i] = 0.75*p.D[j] + 0.25*p.D[k]
			o.E[i] = 0.75*p.E[j] + 0.25*p.E[k] + 1.2e-7*(math.Abs(p.D[j])+math.Abs(p.D[k]))
		}
	}
	return o
}

// frameColours brings the coded planes to the frame's size.
func frameColours(f *jx.FHdr, ps [3]*jx.RP) (out [3]*jx.RP) {
	hs, vs := f.Subsampling()
	d := f.Dims()
	for c, p := range ps {
		p = cropRP(p, jx.CeilDiv(d.W, 1<<uint(hs[c])), jx.CeilDiv(d.H, 1<<uint(vs[c])))
		for i := 0; i < hs[c]; i++ {
			p = doubleRP(p, true)
		}
		for i := 0; i < vs[c]; i++ {
			p = doubleRP(p, false)
		}
		out[c] = cropRP(p, d.W, d.H)
	}
	return
}

// gabor applies the 3x3 filter to a plane.
func gabor(p *jx.RP, w1, w2 float64) *jx.RP {
	o := jx.NewRP(p.W, p.H)
	div := 1 + 4*(w1+w2)
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			v, e := 0.0, 0.0
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					k := 1.0
					if dx != 0 && dy != 0 {
						k = w2
					} else if dx != 0 || dy != 0 {
						k = w1
					}
					k /= div
					i := mirror(y+dy, p.H)*p.W + mirror(x+dx, p.W)
					v += k * p.D[i]
					e += math.Abs(k) * (p.E[i] + 3e-7*math.Abs(p.D[i]))
				}
			}
			o.D[y*p.W+x], o.E[y*p.W+x] = v, e
		}
	}
	return o
}

type epfParams struct {
	iter                 int
	scale                [3]float64
	pass0, pass2, border float64
	inv                  func(bx, by int) float64 // inverse sigma of a block
}

var crossPts = [][2]int{{0, 0}, {0, -1}, {0, 1}, {-1, 0}, {1, 0}}
var doubleCross = [][2]int{{0, 0}, {0, -1}, {0, 1}, {-1, 0}, {1, 0}, {0, -2}, {0, 2}, {-2, 0}, {2, 0}, {-1, -1}, {-1, 1}, {1, -1}, {1, 1}}

// epf applies the edge preserving filter.
func epf(in [3]*jx.RP, q epfParams) [3]*jx.RP {
	w, h := in[0].W, in[0].H
	for pass := 0; pass < 3; pass++ {
		if pass == 0 && q.iter < 3 || pass == 2 && q.iter < 2 {
			continue
		}
		var out [3]*jx.RP
		for c := range out {
			out[c] = jx.NewRP(w, h)
		}
		scale := []float64{q.pass0, 1, q.pass2}[pass] * 1.65 * 4 * (1 - math.Sqrt(0.5))
		pts := crossPts
		if pass == 0 {
			pts = doubleCross
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				s := q.inv(x/8, y/8)
				i := y*w + x
				unsure := math.Abs(s-1/0.3) < 1e-4
				if s > 1/0.3 && !unsure {
					for c := range out {
						out[c].D[i], out[c].E[i] = in[c].D[i], in[c].E[i]
					}
					continue
				}
				k := scale * s
				if x%8 == 0 || x%8 == 7 || y%8 == 0 || y%8 == 7 {
					k *= q.border
				}
				var sum, esum [3]float64
				var ws, wes []float64
				var idx []int
				total := 0.0
				for _, p := range pts {
					dist, de := 0.0, 0.0
					add := func(ax, ay, bx, by int) {
						a := mirror(ay, h)*w + mirror(ax, w)
						b := mirror(by, h)*w + mirror(bx, w)
						if a == b {
							return
						}
						for c := range in {
							dist += q.scale[c] * math.Abs(in[c].D[a]-in[c].D[b])
							de += math.Abs(q.scale[c]) * (in[c].E[a] + in[c].E[b] + 2e-7*(math.Abs(in[c].D[a])+math.Abs(in[c].D[b])))
						}
					}
					if pass == 2 {
						add(x, y, x+p[0], y+p[1])
					} else {
						for _, o := range crossPts {
							add(x+o[0], y+o[1], x+p[0]+o[0], y+p[1]+o[1])
						}
					}
					wt := math.Max(0, 1-k*dist)
					we := math.Abs(k)*(de+1e-6*dist) + 1e-6
					if 1-k*dist < -we {
						we = 0
					}
					total += wt
					ws, wes = append(ws, wt), append(wes, we)
					idx = append(idx, mirror(y+p[1], h)*w+mirror(x+p[0], w))
				}
				for c := range in {
					for j, wt := range ws {
						sum[c] += wt * in[c].D[idx[j]]
					}
					v := sum[c] / total
					for j, wt := range ws {
						esum[c] += wt*(in[c].E[idx[j]]+5e-7*math.Abs(in[c].D[idx[j]])) + wes[j]*math.Abs(in[c].D[idx[j]]-v)
					}
					out[c].D[i], out[c].E[i] = v, esum[c]/total
					if unsure {
						out[c].E[i] = math.Inf(1)
					}
				}
			}
		}
		in = out
	}
	return in
}

// filters applies a frame's restoration filters.
func filters(f *jx.FHdr, v *jx.VarDCT, ps [3]*jx.RP) [3]*jx.RP {
	l := &f.LF
	gab, iter := l.Gab, l.EPF
	if l.AllDefault {
		gab, iter = true, 2
	}
	if gab {
		for c := range ps {
			w1, w2 := 0.115169525, 0.061248592
			if !l.AllDefault && l.GabCustom {
				w1, w2 = F16(l.GabW[2*c]), F16(l.GabW[2*c+1])
			}
			ps[c] = gabor(ps[c], w1, w2)
		}
	}
	if iter == 0 {
		return ps
	}
	q := epfParams{iter: iter, scale: [3]float64{40, 5, 3.5}, pass0: 0.9, pass2: 6.5, border: 2.0 / 3}
	quant, mod := 0.46, 1.0
	var lut [8]float64
	for i := range lut {
		lut[i] = float64(i) / 7
	}
	if !l.AllDefault {
		if l.WeightCustom {
			for c := range q.scale {
				q.scale[c] = F16(l.ChanScale[c])
			}
		}
		if l.SigmaCustom {
			quant, q.pass0, q.pass2, q.border = F16(l.QuantMul), F16(l.Pass0), F16(l.Pass2), F16(l.Border)
		}
		if f.Modular {
			mod = F16(l.Mod)
		} else if l.SharpCustom {
			for i := range lut {
				lut[i] = F16(l.Sharp[i])
			}
		}
	}
	q.inv = func(bx, by int) float64 {
		if f.Modular {
			return 1 / mod
		}
		sigma := 65536 / float64(v.GS) * quant * lut[v.Sharp.At(bx, by)] / float64(v.QF.At(bx, by))
		return 1 / sigma
	}
	return epf(ps, q)
}

// ycbcr converts planes of Cb, Y, Cr.
func ycbcr(ps [3]*jx.RP) (out [3]*jx.RP) {
	for c := range out {
		out[c] = jx.NewRP(ps[0].W, ps[0].H)
	}
	for i := range out[0].D {
		cb, y, cr := ps[0].D[i], ps[1].D[i]+128.0/255, ps[2].D[i]
		eb, ey, er := ps[0].E[i], ps[1].E[i], ps[2].E[i]
		out[0].D[i] = y + 1.402*cr
		out[1].D[i] = y - 0.114*1.772/0.587*cb - 0.299*1.402/0.587*cr
		out[2].D[i] = y + 1.772*cb
		e := 3e-7 * (math.Abs(y) + 2*math.Abs(cb) + 2*math.Abs(cr))
		out[0].E[i] = ey + 1.402*er + e
		out[1].E[i] = ey + 0.35*eb + 0.72*er + e
		out[2].E[i] = ey + 1.772*eb + e
	}
	return
}

// opsin is the inverse of the XYB colour space.
type opsin struct {
	m    [3][3]float64
	bias [3]float64
	peak float64 // intensity target
	// error of a conversion's matrix
	slack float64
	abs   mat
}

func defaultOpsin() opsin {
	b := -0.0037930732552754493
	return opsin{m: [3][3]float64{
		{11.031566901960783, -9.866943921568629, -0.16462299647058826},
		{-3.254147380392157, 4.418770392156863, -0.16462299647058826},
		{-3.6588512862745097, 2.7129230470588235, 1.9459282392156863}}, bias: [3]float64{b, b, b}, peak: 255}
}

func (o opsin) invert(ps [3]*jx.RP) (out [3]*jx.RP) {
	for c := range out {
		out[c] = jx.NewRP(ps[0].W, ps[0].H)
	}
	for i := range out[0].D {
		x, y, b := ps[0].D[i], ps[1].D[i], ps[2].D[i]
		exy := ps[0].E[i] + ps[1].E[i] + 2e-7*(math.Abs(x)+math.Abs(y)+0.2)
		g := [3]float64{y + x - math.Cbrt(o.bias[0]), y - x - math.Cbrt(o.bias[1]), b - math.Cbrt(o.bias[2])}
		e := [3]float64{exy, exy, ps[2].E[i] + 2e-7*(math.Abs(b)+0.2)}
		var mix, em [3]float64
		for k := range g {
			mix[k] = g[k]*g[k]*g[k] + o.bias[k]
			em[k] = 3*(math.Abs(g[k])+e[k])*(math.Abs(g[k])+e[k])*e[k] + 4e-7*(math.Abs(g[k]*g[k]*g[k])+math.Abs(o.bias[k]))
		}
		for c := range out {
			for k := range mix {
				out[c].D[i] += o.m[c][k] * mix[k] * 255 / o.peak
				out[c].E[i] += math.Abs(o.m[c][k]) * (em[k] + 4e-7*math.Abs(mix[k])) * 255 / o.peak
				out[c].E[i] += o.slack * o.abs[c][k] * math.Abs(mix[k]) * 255 / o.peak
			}
		}
	}
	return
}

// genFilters draws restoration filters a decoder is known to read correctly:
// the parameters of the edge preserving filter stay default.
func genFilters(t *pbt.T, f *jx.FHdr, feat map[string]bool) {
	l := &f.LF
	r := t.RNG()
	switch t.W(1, 3, 3, 2) {
	case 0:
	case 1:
		if f.Modular && t.Bool() {
			return
		}
		l.AllDefault = true
	case 2:
		l.Gab = true
	case 3:
		l.EPF = 1
	}
	if l.AllDefault {
		feat["filters-default"] = true
		return
	}
	if l.EPF == 0 && !f.Modular && t.Bool() {
		l.EPF = t.Range(1, 3)
	} else if l.EPF > 0 {
		l.EPF = t.Range(1, 3)
		l.Gab = t.Bool()
	}
	if f.Modular {
		l.EPF = 0
	}
	if l.Gab {
		feat["gab"] = true
		if t.Bool() {
			l.GabCustom = true
			feat["gab-custom"] = true
			for i := range l.GabW {
				l.GabW[i] = ToF16(r.Float()*0.4 - 0.1)
			}
		}
	}
	if l.EPF > 0 {
		feat["epf"] = true
		if t.Chance(1, 3) {
			l.SharpCustom = true
			feat["epf-sharp-custom"] = true
			for i := range l.Sharp {
				l.Sharp[i] = ToF16(r.Float() * 1.5)
			}
		}
	}
}
