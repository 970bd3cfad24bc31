package props

import (
	"fmt"
	"math"

	"github.com/kpfaulkner/jxl-go/core"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C18", c18) }

// FP is a plane of real samples, 1 being the nominal maximum.
type FP struct {
	W, H int
	D    []float64
}

func newFP(w, h int) *FP { return &FP{w, h, make([]float64, w*h)} }

func (p *FP) at(x, y int) float64 { return p.D[y*p.W+x] }

func clamp01(v float64) float64 { return math.Max(0, math.Min(1, v)) }

// blendPixel combines one sample.  self: the channel is the alpha channel the
// blending refers to.
func blendPixel(mode int, clampA, hasAlpha, self, premult bool, bg, fg, ba, fa float64) float64 {
	switch mode {
	case jx.BReplace:
		return fg
	case jx.BAdd:
		return bg + fg
	case jx.BMul:
		if clampA {
			fg = clamp01(fg)
		}
		return bg * fg
	case jx.BBlend:
		if !hasAlpha {
			return fg
		}
		if clampA {
			fa = clamp01(fa)
		}
		na := 1 - (1-fa)*(1-ba)
		if self {
			return na
		}
		if premult {
			return fg + bg*(1-fa)
		}
		if na == 0 {
			return 0
		}
		if na < 0.003 {
			return math.NaN() // too close to a division by zero to compare
		}
		return (fg*fa + bg*ba*(1-fa)) / na
	case jx.BMulAdd:
		if !hasAlpha {
			return bg + fg
		}
		if self {
			return bg
		}
		if clampA {
			fa = clamp01(fa)
		}
		return bg + fg*fa
	}
	panic("mode")
}

// c18: frames are composed as the format says.
func c18(t *pbt.T) {
	if t.Chance(1, 5) {
		c18Lossy(t)
		return
	}
	w, h := t.Range(1, 24), t.Range(1, 24)
	if t.Chance(1, 30) { // several groups
		w, h = t.Range(120, 300), t.Range(1, 200)
		if t.Bool() {
			w, h = h, w
		}
	}
	bits := []int{8, 8, 8, 1, 4, 10, 12, 16}[t.N(8)]
	m := jx.DefaultMeta(w, h)
	m.Depth.Bits = bits
	m.Mod16 = bits <= 12
	m.Pick = t.N
	if t.Chance(1, 3) {
		m.Colour.Space = 1
	}
	nec := t.W(2, 4, 2, 1)
	var alphas []int
	for i := 0; i < nec; i++ {
		e := genEC(t, i, bits)
		if t.Chance(2, 3) {
			e.Type = jx.ECAlpha
		}
		if e.Type == jx.ECAlpha {
			e.Assoc = t.Chance(1, 3)
			alphas = append(alphas, i)
		}
		m.ECs = append(m.ECs, e)
	}
	hasAlpha := len(alphas) > 0
	nc := m.NumColour()
	maxOf := func(c int) float64 {
		if c < nc {
			return float64(int(1)<<uint(bits) - 1)
		}
		return float64(int(1)<<uint(m.ECs[c-nc].Depth.Bits) - 1)
	}
	bw := &jx.BW{}
	m.Write(bw)
	nf := t.Range(1, 5)
	var refs [4][]*FP
	var out []*FP
	feat := map[string]bool{}
	rich := false
	for fi := 0; fi < nf; fi++ {
		f := jx.NewFHdr(m)
		f.Pick = t.N
		f.Last = fi == nf-1
		f.GroupShift = t.N(4)
		if !f.Last {
			f.Type = []int{jx.FRegular, jx.FRegular, jx.FSkip, jx.FRef}[t.N(4)]
			f.SaveRef = t.N(4)
		} else if t.Chance(1, 4) {
			f.Type = jx.FSkip
		}
		if f.Type != jx.FRef && t.Chance(2, 3) {
			f.Crop = true
			f.W, f.H = t.Range(1, w+8), t.Range(1, h+8)
			f.X0, f.Y0 = t.Range(0, w+12)-6, t.Range(0, h+12)-6
			if t.Chance(1, 3) { // inside
				f.W, f.H = t.Range(1, w), t.Range(1, h)
				f.X0, f.Y0 = t.N(w-f.W+1), t.N(h-f.H+1)
			}
			feat["crop"] = true
			if f.X0 < 0 || f.Y0 < 0 {
				feat["crop-negative"] = true
			}
			if f.X0+f.W > w || f.Y0+f.H > h {
				feat["crop-overhang"] = true
			}
		}
		full := f.FullFrame(m)
		if f.Type == jx.FRef {
			f.SaveBefore = t.Bool()
			feat["reference-only"] = true
		} else {
			src := t.N(4)
			if t.Chance(1, 2) { // a source that holds something
				for k := 0; k < 4; k++ {
					if refs[(src+k)%4] != nil {
						src = (src + k) % 4
						break
					}
				}
			}
			split := t.Chance(1, 4)
			mode := func() int {
				if split {
					return []int{jx.BReplace, jx.BAdd, jx.BMul}[t.N(3)]
				}
				return []int{jx.BReplace, jx.BAdd, jx.BMul, jx.BBlend, jx.BMulAdd, jx.BBlend}[t.N(6)]
			}
			gen := func() jx.Blend {
				b := jx.Blend{Mode: mode(), Clamp: t.Bool(), Source: src}
				if split {
					b.Source = t.N(4)
				}
				if hasAlpha {
					b.Alpha = alphas[t.N(len(alphas))]
				}
				return b
			}
			f.Bl = gen()
			for i := range f.ECBl {
				f.ECBl[i] = gen()
			}
			if f.Bl.Mode == jx.BBlend && hasAlpha {
				f.ECBl[f.Bl.Alpha] = f.Bl
			}
			if f.Bl.Mode == jx.BReplace && !f.Crop && !f.Last && t.Chance(1, 3) {
				f.SaveBefore = true
				for i := range f.ECBl {
					f.ECBl[i].Mode = jx.BReplace
				}
			}
			// what the header does not carry
			fix := func(b *jx.Blend) {
				if nec == 0 && b.Mode != jx.BMul || b.Mode == jx.BReplace || b.Mode == jx.BAdd {
					b.Clamp = false
				}
				if b.Mode == jx.BReplace && full {
					b.Source = 0
				}
			}
			fix(&f.Bl)
			for i := range f.ECBl {
				fix(&f.ECBl[i])
			}
		}
		planes := jx.Planes(m, f)
		fillPlanes(t, m, planes)
		for i, p := range planes { // alpha channels need zeros and ones
			if i >= nc && m.ECs[i-nc].Type == jx.ECAlpha && t.Bool() {
				r := t.RNG()
				for k := range p.D {
					switch r.N(3) {
					case 0:
						p.D[k] = 0
					case 1:
						p.D[k] = int64(maxOf(i))
					}
				}
			}
		}
		if bits <= 12 && t.Chance(1, 4) { // samples beyond the nominal range
			feat["out-of-range"] = true
			for i, p := range planes {
				off := int64(maxOf(i)) / 2
				for k := range p.D {
					p.D[k] = p.D[k]*2 - off
				}
			}
		}
		o := plainOpts(bits)
		secs, dec := jx.EncodeModular(t, m, f, planes, o, feat)
		jx.WriteFrame(t, bw, m, f, secs, false, feat)
		// the model
		fg := make([]*FP, len(dec))
		for i, p := range dec {
			fg[i] = newFP(p.W, p.H)
			for k, v := range p.D {
				fg[i].D[k] = float64(v) / maxOf(i)
			}
		}
		if f.Type == jx.FRef {
			refs[f.SaveRef] = fg
			t.Logf("frame %d: reference only, saved in %d", fi, f.SaveRef)
			continue
		}
		comp := make([]*FP, len(dec))
		for c := range dec {
			b := f.Bl
			self := false
			if c >= nc {
				b = f.ECBl[c-nc]
				self = c-nc == b.Alpha
			}
			bg := newFP(w, h)
			if r := refs[b.Source]; r != nil {
				copy(bg.D, r[c].D)
			}
			premult := hasAlpha && m.ECs[b.Alpha].Assoc
			var ba *FP
			if hasAlpha {
				ba = newFP(w, h)
				if r := refs[b.Source]; r != nil {
					copy(ba.D, r[nc+b.Alpha].D)
				}
			}
			if b.Mode > jx.BReplace {
				feat[fmt.Sprintf("mode-%d", b.Mode)] = true
				if refs[b.Source] != nil {
					feat["blend-on-reference"] = true
					rich = true
				}
			}
			if !full && refs[b.Source] != nil {
				rich = true
			}
			res := newFP(w, h)
			copy(res.D, bg.D)
			for y := 0; y < f.H; y++ {
				for x := 0; x < f.W; x++ {
					X, Y := x+f.X0, y+f.Y0
					if X < 0 || Y < 0 || X >= w || Y >= h {
						continue
					}
					var av, fv float64
					if hasAlpha {
						av, fv = ba.at(X, Y), fg[nc+b.Alpha].at(x, y)
					}
					res.D[Y*w+X] = blendPixel(b.Mode, b.Clamp, hasAlpha, self, premult, bg.at(X, Y), fg[c].at(x, y), av, fv)
				}
			}
			comp[c] = res
		}
		if !f.Last {
			refs[f.SaveRef] = comp
		}
		out = comp
		t.Logf("frame %d: type %d crop %v (%d,%d) %dx%d blend %+v ec %+v last %v save %d before %v", fi, f.Type, f.Crop, f.X0, f.Y0, f.W, f.H, f.Bl, f.ECBl, f.Last, f.SaveRef, f.SaveBefore)
	}
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	f0 := jx.NewFHdr(m)
	describe(t, m, f0, data, feat)
	if rich {
		t.NonTrivial()
	}
	checkReal(t, m, data, out, 3e-5)
}

// norm gives a decoded sample with 1 as the nominal maximum.
func checkReal(t *pbt.T, m *jx.Meta, data []byte, want []*FP, tol float64) {
	img, err := Decode(data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	if img == nil {
		t.Failf("decoder returned neither an image nor an error")
	}
	if len(img.Buffer) != len(want) {
		t.Failf("%d channels decoded, want %d", len(img.Buffer), len(want))
	}
	nc := len(want) - len(m.ECs)
	for c, p := range want {
		checkChannel(t, m, img, c, nc, p, tol)
	}
}

// checkChannel compares one channel.
func checkChannel(t *pbt.T, m *jx.Meta, img *core.JXLImage, c, nc int, p *FP, tol float64) {
	{
		bits := m.Depth.Bits
		if c >= nc {
			bits = m.ECs[c-nc].Depth.Bits
		}
		b := img.Buffer[c]
		gw, gh := dims(b)
		if gw != p.W || gh != p.H || int(b.Width) != gw || int(b.Height) != gh {
			t.Failf("channel %d: decoded size %dx%d (declared %dx%d), want %dx%d", c, gw, gh, b.Width, b.Height, p.W, p.H)
		}
		max := float64(int(1)<<uint(bits) - 1)
		for y := 0; y < p.H; y++ {
			for x := 0; x < p.W; x++ {
				v := p.at(x, y)
				g := sampleAt(b, x, y)
				if b.IsInt() {
					g /= max
				}
				if math.IsNaN(v) {
					continue
				}
				lim := tol * math.Max(1, math.Abs(v))
				if d := math.Abs(g - v); d <= lim {
					continue
				}
				if b.IsInt() && math.Abs(g-clamp01(v)) <= 0.5/max+lim {
					continue
				}
				t.Failf("channel %d sample (%d,%d): decoded %g, want %g", c, x, y, g, v)
			}
		}
		t.Eval(p.W * p.H)
	}
}
