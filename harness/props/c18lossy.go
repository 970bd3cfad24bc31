package props

import (
	"math"

	"verif/jx"
	"verif/pbt"
)

// blendRP is blendPixel for samples with errors.
func blendRP(b jx.Blend, hasAlpha, self, premult bool, bg, eb, fg, ef, ba, fa float64) (v, e float64) {
	v = blendPixel(b.Mode, b.Clamp, hasAlpha, self, premult, bg, fg, ba, fa)
	for i := 0; i < 4; i++ {
		u := blendPixel(b.Mode, b.Clamp, hasAlpha, self, premult, bg+eb*float64(i%2*2-1), fg+ef*float64(i/2*2-1), ba, fa)
		e = math.Max(e, math.Abs(u-v))
	}
	if b.Mode != jx.BReplace {
		e += 3e-6 * (math.Abs(bg) + math.Abs(fg) + math.Abs(v))
		if b.Mode == jx.BBlend {
			e += 3e-5 * math.Max(1, math.Abs(v)) // as much as for integers
		}
	}
	return
}

// c18Lossy: frames of VarDCT and modular coding, filtered, converted from XYB or
// YCbCr and upsampled each for itself, are composed.
func c18Lossy(t *pbt.T) {
	w, h := t.Range(1, 40), t.Range(1, 40)
	if t.Chance(1, 6) {
		w, h = t.Range(100, 300), t.Range(1, 150)
		if t.Bool() {
			w, h = h, w
		}
	}
	bw := &jx.BW{}
	m := newVar(t, w, h).m
	feat := map[string]bool{"lossy-frames": true}
	m.XYB = t.Bool()
	hasAlpha := t.Chance(1, 2)
	if hasAlpha {
		e := jx.EC{Type: jx.ECAlpha, Depth: jx.BitDepth{Bits: m.Depth.Bits}, Assoc: t.Chance(1, 3)}
		m.ECs = append(m.ECs, e)
	}
	premult := hasAlpha && m.ECs[0].Assoc
	ws := upWeights(t, m)
	m.Write(bw)
	nf := t.Range(2, 4)
	var refs [4][]*jx.RP
	var out []*jx.RP
	rich := false
	var all []byte
	for fi := 0; fi < nf; fi++ {
		f := jx.NewFHdr(m)
		f.Pick = t.N
		f.Last = fi == nf-1
		f.GroupShift = t.N(4)
		if !f.Last {
			f.Type = []int{jx.FRegular, jx.FRegular, jx.FSkip, jx.FRef}[t.N(4)]
			f.SaveRef = t.N(4)
		}
		if f.Type != jx.FRef && t.Bool() {
			f.Crop = true
			f.W, f.H = t.Range(1, w+8), t.Range(1, h+8)
			f.X0, f.Y0 = t.Range(0, w+12)-6, t.Range(0, h+12)-6
			feat["crop"] = true
		}
		full := f.FullFrame(m)
		if f.Type != jx.FRef {
			src := t.N(4)
			for k := 0; k < 4; k++ {
				if refs[(src+k)%4] != nil {
					src = (src + k) % 4
					break
				}
			}
			modes := []int{jx.BReplace, jx.BAdd, jx.BMul, jx.BBlend, jx.BMulAdd}
			gen := func() jx.Blend {
				return jx.Blend{Mode: modes[t.N(5)], Clamp: t.Bool(), Source: src}
			}
			f.Bl = gen()
			for i := range f.ECBl {
				f.ECBl[i] = gen()
				if f.Bl.Mode == jx.BBlend {
					f.ECBl[i] = f.Bl
				}
			}
			fix := func(b *jx.Blend) {
				if !hasAlpha && b.Mode != jx.BMul || b.Mode == jx.BReplace || b.Mode == jx.BAdd {
					b.Clamp = false
				}
				if b.Mode == jx.BReplace && full {
					b.Source = 0
				}
			}
			fix(&f.Bl)
			for i := range f.ECBl {
				fix(&f.ECBl[i])
			}
		}
		f.YCbCr = !m.XYB && t.Chance(1, 3)
		if f.YCbCr && t.Bool() {
			f.JpegUps = [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {1, 0, 1}}[t.N(4)]
		}
		if !hasAlpha && f.Type != jx.FRef && !f.YCbCr && t.Chance(1, 6) {
			f.Ups = t.Range(1, 3)
			feat["upsampled"] = true
		}
		f.XQM, f.BQM = 2, 2
		f.Modular = t.Chance(1, 3)
		if !f.Modular {
			feat["vardct"] = true
			if f.Type != jx.FRef {
				f.Passes = t.W(0, 4, 1, 1)
			}
			for i := 1; i < f.Passes; i++ {
				f.Shifts = append(f.Shifts, t.N(4))
			}
			f.Flags = 0x80
			if m.XYB {
				f.XQM, f.BQM = t.N(8), t.N(8)
			}
		}
		if t.Chance(1, 3) {
			genFilters(t, f, feat)
		}
		x := &varImage{m: m, f: f, feat: feat, bw: bw}
		var ps [3]*jx.RP
		if f.Modular {
			ps = x.encodeModular(t, plainOpts(m.Depth.Bits))
		} else {
			x.encode(t, jx.VOpts{XYB: m.XYB, Amp: []float64{0.1, 0.5, 1}[t.N(3)]}, plainOpts(m.Depth.Bits))
			ps = x.v.Planes(x.v.LFImage())
		}
		all = x.data
		t.Logf("frame %d: type %d modular %v crop %v (%d,%d) %dx%d upsampled %d YCbCr %v blend %+v ec %+v save %d;", fi, f.Type, f.Modular, f.Crop, f.X0, f.Y0, f.W, f.H, f.Ups, f.YCbCr, f.Bl, f.ECBl, f.SaveRef)
		ps = x.finish(ps, defaultOpsin(), ws)
		fg := []*jx.RP{ps[0], ps[1], ps[2]}
		ecs := x.ecs
		if hasAlpha {
			p := ecs[len(ecs)-1]
			q := jx.NewRP(p.W, p.H)
			max := float64(int(1)<<uint(m.ECs[0].Depth.Bits) - 1)
			for k, v := range p.D {
				q.D[k] = float64(v) / max
			}
			fg = append(fg, q)
		}
		if f.Type == jx.FRef {
			refs[f.SaveRef] = fg
			feat["reference-only"] = true
			continue
		}
		comp := make([]*jx.RP, len(fg))
		for c := range fg {
			b := f.Bl
			if c == 3 {
				b = f.ECBl[0]
			}
			res := jx.NewRP(w, h)
			var alpha *jx.RP
			if r := refs[b.Source]; r != nil {
				copy(res.D, r[c].D)
				copy(res.E, r[c].E)
				if hasAlpha {
					alpha = r[3]
				}
				if !full || b.Mode != jx.BReplace {
					rich = true
				}
			}
			for y := 0; y < f.H; y++ {
				for xx := 0; xx < f.W; xx++ {
					X, Y := xx+f.X0, y+f.Y0
					if X < 0 || Y < 0 || X >= w || Y >= h {
						continue
					}
					var ba, fa float64
					if hasAlpha {
						fa = fg[3].D[y*fg[3].W+xx]
						if alpha != nil {
							ba = alpha.D[Y*w+X]
						}
					}
					k, l := Y*w+X, y*fg[c].W+xx
					res.D[k], res.E[k] = blendRP(b, hasAlpha, c == 3, premult, res.D[k], res.E[k], fg[c].D[l], fg[c].E[l], ba, fa)
				}
			}
			comp[c] = res
		}
		if !f.Last {
			refs[f.SaveRef] = comp
		}
		out = comp
	}
	for k := range feat {
		t.Label(k)
	}
	if rich {
		t.NonTrivial()
	}
	x := &varImage{m: m, f: jx.NewFHdr(m), data: all}
	x.f.Modular = true
	img := x.decode(t)
	if d := x.compare(t, img, [3]*jx.RP{out[0], out[1], out[2]}); d != "" {
		t.Failf("%s", d)
	}
	if hasAlpha {
		fp := newFP(w, h)
		copy(fp.D, out[3].D)
		checkChannel(t, m, img, 3, 3, fp, 3e-5)
	}
}
