package props

import (
	"bytes"
	"math"
	"reflect"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/frame"
	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C05", c05) }

// half draws a finite half float.
func half(t *pbt.T) uint16 {
	h := uint16(t.Bits(16))
	if h>>10&31 == 31 {
		h &^= 1 << 10
	}
	return h
}

func halves(t *pbt.T, n int) []uint16 {
	out := make([]uint16, n)
	r := t.RNG()
	for i := range out {
		out[i] = uint16(r.Next())
		if out[i]>>10&31 == 31 {
			out[i] &^= 1 << 14
		}
	}
	return out
}

// headerDepth draws any valid sample format.
func headerDepth(t *pbt.T) jx.BitDepth {
	if t.Chance(1, 3) {
		e := t.Range(2, 8)
		return jx.BitDepth{Float: true, Exp: e, Bits: t.Range(e+3, min(32, e+24))}
	}
	return jx.BitDepth{Bits: t.Range(1, 31)}
}

// sizeField draws a size and the way to write it.
func sizeField(t *pbt.T) (w, h, ratio int, small bool) {
	small = t.Chance(1, 3)
	if small {
		w, h = 8*t.Range(1, 32), 8*t.Range(1, 32)
	} else {
		w, h = 1+t.N(1<<uint(t.Range(0, 14))), 1+t.N(1<<uint(t.Range(0, 14)))
		if t.Chance(1, 10) {
			w, h = t.Range(1, 1<<18), t.Range(1, 500)
			if t.Bool() {
				w, h = h, w
			}
		}
	}
	if ratio = t.N(8); ratio > 0 {
		if r := jx.RatioWidth(h, ratio); r <= 1<<18 && r > 0 && r*h <= 1<<28 {
			w = r
		} else {
			ratio = 0
		}
	}
	return
}

// anyXY draws a chromaticity.
func anyXY(t *pbt.T) jx.XY {
	v := func() int32 {
		n := int32(t.N(1 << uint(t.Range(1, 21))))
		if t.Bool() {
			return -n
		}
		return n
	}
	return jx.XY{X: v(), Y: v()}
}

// headerColour draws any valid colour encoding.
func headerColour(t *pbt.T, bad func(int) bool) jx.ColourEnc {
	c := jx.ColourEnc{}
	if t.Chance(1, 5) {
		c.AllDefault = true
		return c
	}
	c.Space = t.N(4)
	c.White = []int{1, 2, 10, 11}[t.N(4)]
	c.WhiteXY = anyXY(t)
	c.Prim = []int{1, 2, 9, 11}[t.N(4)]
	for i := range c.PrimXY {
		c.PrimXY[i] = anyXY(t)
	}
	c.HaveGamma = t.Bool() && c.Space != 2
	c.Gamma = uint32(t.Range(1221, 10000000))
	c.TF = []int{1, 2, 8, 13, 16, 17, 18}[t.N(7)]
	c.Intent = t.N(4)
	wrong := func(ok ...int) int {
		for {
			v := t.N(82)
			if t.Bool() {
				v = t.N(20)
			}
			hit := false
			for _, o := range ok {
				hit = hit || o == v
			}
			if !hit {
				return v
			}
		}
	}
	if bad(0) {
		c.Space = wrong(0, 1, 2, 3)
	} else if bad(1) {
		c.Space = 0
		c.White = wrong(1, 2, 10, 11)
	} else if bad(2) {
		c.Space = 0
		c.Prim = wrong(1, 2, 9, 11)
	} else if bad(3) {
		c.Space, c.HaveGamma = t.N(2), false
		c.TF = wrong(1, 2, 8, 13, 16, 17, 18)
	} else if bad(4) {
		c.Space, c.HaveGamma = t.N(2), true
		c.Gamma = uint32(t.Range(10000001, 1<<24-1))
		if t.Bool() {
			c.Gamma = uint32(t.N(1221))
		}
	} else if bad(5) {
		c.Intent = wrong(0, 1, 2, 3)
	}
	return c
}

// c05: every field of the image and frame headers is read as it was written.
func c05(t *pbt.T) {
	badAt := -1
	if t.Chance(1, 4) {
		badAt = t.N(14)
	}
	used := false
	bad := func(k int) bool {
		if badAt == k {
			used = true
		}
		return badAt == k
	}
	w, h, ratio, small := sizeField(t)
	m := jx.DefaultMeta(w, h)
	m.Pick = t.N
	m.Ratio = ratio
	if small {
		m.SizeForm = 1
	}
	level := int32(5)
	if t.Chance(1, 3) {
		level = 10
	}
	if bad(6) { // beyond the level's limits
		m.SizeForm = 0
		m.Ratio = 0
		switch t.N(3) {
		case 0:
			m.W, m.H = 1<<18+t.Range(1, 1<<29), t.Range(1, 100)
			if level == 10 {
				m.W += 1 << 28
			}
			if t.Bool() {
				m.W, m.H = m.H, m.W
			}
		case 1: // the area alone
			m.W, m.H = t.Range(1<<17, 1<<18), t.Range(1<<17, 1<<18)
			if level == 10 {
				m.W, m.H = m.W<<10, m.H<<10
			}
			if t.Bool() { // powers of two
				m.W &^= m.W - 1
				m.H = 1 << 18
				if level == 10 {
					m.H = 1 << 28
				}
				for m.W*m.H <= 1<<40 && level == 10 || m.W*m.H <= 1<<30 {
					m.W <<= 1
				}
			}
		default: // a width given as a ratio
			m.Ratio = t.Range(1, 7)
			m.H = t.Range(1<<28+1, 1<<30)
			m.W = jx.RatioWidth(m.H, m.Ratio)
		}
	}
	m.AllDefault = t.Chance(1, 12) && (badAt < 0 || badAt == 6)
	var icc *jx.ICC
	if m.AllDefault {
		m.XYB = true
		m.Colour = jx.ColourEnc{AllDefault: true}
		m.Depth = jx.BitDepth{Bits: 8}
	} else {
		m.ExtraFields = t.Bool() || badAt == 7 || badAt == 8
		if m.ExtraFields {
			m.Orient = t.Range(1, 8)
			if m.HaveIntr = t.Chance(1, 3); m.HaveIntr {
				m.IntrW, m.IntrH, m.IntrRatio, m.IntrSmall = sizeField(t)
			}
			if m.HavePreview = t.Chance(1, 3); m.HavePreview {
				m.PrevW, m.PrevH = t.Range(1, 4096), t.Range(1, 4096)
				if t.Bool() {
					m.PrevW, m.PrevH = t.Range(1, 400), t.Range(1, 400)
				}
				if m.PrevSmall = t.Bool(); m.PrevSmall {
					m.PrevW, m.PrevH = 8*t.Range(1, 512), 8*t.Range(1, 512)
				}
				if m.PrevRatio = t.N(8); m.PrevRatio > 0 {
					m.PrevW = jx.RatioWidth(m.PrevH, m.PrevRatio)
					if m.PrevW > 4096 || m.PrevW == 0 {
						m.PrevRatio, m.PrevW = 1, m.PrevH
					}
				}
				t.Label("preview")
			}
			m.ToneM.AllDefault = t.Bool() && badAt != 8
			m.ToneM.Intensity = 1 + uint16(t.N(0x7bff))
			m.ToneM.MinNits = uint16(t.N(int(m.ToneM.Intensity) + 1))
			m.ToneM.Relative = t.Bool()
			m.ToneM.Below = uint16(t.N(0x7c00))
			if m.ToneM.Relative {
				m.ToneM.Below = uint16(t.N(0x3c01))
			}
			if bad(7) {
				m.ToneM.AllDefault = false
				switch t.N(5) {
				case 0:
					m.ToneM.Intensity = 0
					m.ToneM.MinNits = 0
				case 1:
					m.ToneM.Intensity |= 0x8000
				case 2:
					m.ToneM.Intensity, m.ToneM.MinNits = uint16(t.Range(1, 0x7bfe)), 0x7bff
				case 3:
					m.ToneM.Relative, m.ToneM.Below = true, uint16(t.Range(0x3c01, 0x7bff))
				case 4:
					m.ToneM.Below = 0x8000 | uint16(t.Range(1, 0x7bff))
				}
			}
			if bad(8) { // infinite or not a number
				x := 0x7c00 | uint16(t.N(1024)) | uint16(t.N(2))<<15
				switch t.N(3) {
				case 0:
					m.ToneM.Intensity = x
				case 1:
					m.ToneM.MinNits = x
				default:
					m.ToneM.Below = x
				}
			}
		}
		m.Depth = headerDepth(t)
		if bad(9) {
			m.Depth = badDepth(t)
		}
		m.Mod16 = t.Bool()
		n := t.W(4, 3, 2, 2)
		if n == 3 {
			n = t.Range(3, 20)
		}
		if badAt == 10 || badAt == 11 {
			n = max(1, n)
		}
		for i := 0; i < n; i++ {
			e := jx.EC{Default: t.Chance(1, 4), Depth: jx.BitDepth{Bits: 8}}
			if !e.Default {
				e.Type = []int{0, 0, 1, 2, 3, 4, 5, 6, 16}[t.N(9)]
				e.Depth = headerDepth(t)
				e.Shift = t.N(4)
				if t.Bool() {
					r := t.RNG()
					b := make([]byte, t.N([]int{5, 20, 60, 1072}[t.N(4)]))
					for k := range b {
						b[k] = byte(r.Next())
					}
					e.Name = string(b)
				}
				e.Assoc = t.Bool()
				for k := range e.Spot {
					e.Spot[k] = half(t)
				}
				e.CFA = t.N(19 + 256)
			}
			m.ECs = append(m.ECs, e)
		}
		if bad(10) {
			e := &m.ECs[t.N(n)]
			e.Default = false
			e.Type = []int{7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 40, 63, 81}[t.N(13)]
		}
		if bad(11) {
			e := &m.ECs[t.N(n)]
			e.Default = false
			e.Depth = badDepth(t)
		}
		m.XYB = t.Bool()
		m.Colour = headerColour(t, bad)
		if !m.Colour.AllDefault && badAt < 0 && t.Chance(1, 4) {
			icc = jx.GenICC(t)
			m.Colour.ICC = true
			m.ICCCode = icc.Code(t)
		}
		if badAt >= 0 && badAt < 6 && m.Colour.AllDefault {
			used = false
		}
		m.Exts = jx.GenExts(t, 2000)
		if len(m.Exts) > 0 {
			t.Label("extensions")
		}
	}
	m.DefaultTransform = t.Bool() && badAt != 12 && badAt != 13
	if !m.DefaultTransform {
		m.OpsinM.Default = t.Bool() && badAt != 12
		copy(m.OpsinM.M[:], halves(t, 9))
		copy(m.OpsinM.Bias[:], halves(t, 3))
		copy(m.OpsinM.QBias[:], halves(t, 3))
		m.OpsinM.QNum = half(t)
		if t.Bool() {
			m.Up2 = halves(t, 15)
		}
		if t.Bool() {
			m.Up4 = halves(t, 55)
		}
		if t.Bool() {
			m.Up8 = halves(t, 210)
		}
		if m.XYB && bad(12) {
			m.OpsinM.Bias[t.N(3)] |= 0x7c00
		}
		if bad(13) {
			m.Up2 = halves(t, 15)
			m.Up2[t.N(15)] |= 0x7c00
		}
	}
	bw := &jx.BW{}
	m.Write(bw)
	n := len(bw.B)
	data := append([]byte(nil), bw.B...)
	for i := t.N(20); i >= 0; i-- {
		data = append(data, byte(t.Bits(8)))
	}
	t.Attach("header", data)
	sig(t, data)
	t.Logf("image header of %d bytes for %dx%d, orientation %d, %d extra channels, %d extensions, preview %v, ICC %v, invalid field %v;", n, m.W, m.H, m.Orient, len(m.ECs), len(m.Exts), m.HavePreview, m.Colour.ICC, used)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	ih, err := bundle.ParseImageHeader(br, level)
	if used {
		t.Label("invalid")
		t.NonTrivial()
		if err == nil {
			t.Failf("a header with an invalid field (kind %d) was accepted: size %+v, depth %+v, colour %+v, tone %+v", badAt, ih.Size, *ih.BitDepth, *ih.ColourEncoding, *ih.ToneMapping)
		}
		return
	}
	if err != nil {
		t.Failf("a valid header was refused: %v", err)
	}
	if len(m.ECs) > 0 || len(m.Exts) > 0 || m.ExtraFields || !m.DefaultTransform {
		t.NonTrivial()
	}
	if got := int(br.GetBitsCount()); got != 8*n {
		t.Failf("the header has %d bits, %d were read", 8*n, got)
	}
	checkHeader(t, m, ih, icc)
	if !m.AllDefault {
		t.Eval(20 + 8*len(m.ECs))
	}
	for i := t.W(1, 3, 1); i > 0; i-- {
		frameHeader(t, m, ih)
	}
}

// badDepth draws an invalid sample format.
func badDepth(t *pbt.T) jx.BitDepth {
	switch t.N(4) {
	case 0:
		return jx.BitDepth{Bits: t.Range(32, 64)}
	case 1:
		return jx.BitDepth{Float: true, Exp: 1, Bits: t.Range(4, 25)}
	case 2:
		e := t.Range(9, 16)
		return jx.BitDepth{Float: true, Exp: e, Bits: t.Range(e+3, 32)}
	default:
		e := t.Range(2, 8)
		if t.Bool() {
			return jx.BitDepth{Float: true, Exp: e, Bits: t.Range(1, e+2)}
		}
		return jx.BitDepth{Float: true, Exp: e, Bits: t.Range(e+25, 64)}
	}
}

func f32s(h []uint16) []float32 {
	out := make([]float32, len(h))
	for i, x := range h {
		out[i] = float32(F16(x))
	}
	return out
}

func same[T any](t *pbt.T, name string, got, want T) {
	if !reflect.DeepEqual(got, want) {
		t.Failf("%s is %v, want %v", name, got, want)
	}
}

func sameBits(t *pbt.T, name string, got, want []float32) {
	if len(got) != len(want) {
		t.Failf("%s has %d values, want %d", name, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			t.Failf("%s[%d] is %g, want %g", name, i, got[i], want[i])
		}
	}
}

func sameXY(t *pbt.T, name string, got *colour.CIEXY, want jx.XY) {
	if got == nil || math.Abs(float64(got.X)-float64(want.X)*1e-6) > 1e-6*(0.1+math.Abs(float64(want.X))*1e-6) ||
		math.Abs(float64(got.Y)-float64(want.Y)*1e-6) > 1e-6*(0.1+math.Abs(float64(want.Y))*1e-6) {
		t.Failf("%s is %v, want %v", name, got, want)
	}
}

func sameDepth(t *pbt.T, name string, got *bundle.BitDepthHeader, want jx.BitDepth) {
	if !want.Float {
		want.Exp = 0
	}
	same(t, name, *got, bundle.BitDepthHeader{BitsPerSample: uint32(want.Bits), ExpBits: uint32(want.Exp), UsesFloatSamples: want.Float})
}

func checkHeader(t *pbt.T, m *jx.Meta, ih *bundle.ImageHeader, icc *jx.ICC) {
	same(t, "width", int(ih.Size.Width), m.W)
	same(t, "height", int(ih.Size.Height), m.H)
	same(t, "GetSize", ih.GetSize(), ih.Size)
	same(t, "orientation", int(ih.Orientation), m.Orient)
	ow, oh := m.W, m.H
	if m.Orient > 4 {
		ow, oh = oh, ow
	}
	same(t, "oriented width", int(ih.OrientedWidth), ow)
	same(t, "oriented height", int(ih.OrientedHeight), oh)
	if m.HavePreview && !m.AllDefault {
		if ih.PreviewSize == nil {
			t.Failf("no preview size")
		}
		same(t, "preview width", int(ih.PreviewSize.Width), m.PrevW)
		same(t, "preview height", int(ih.PreviewSize.Height), m.PrevH)
	} else if ih.PreviewSize != nil {
		t.Failf("a preview of %v", ih.PreviewSize)
	}
	if ih.AnimationHeader != nil {
		t.Failf("an animation")
	}
	sameDepth(t, "bit depth", ih.BitDepth, m.Depth)
	same(t, "modular 16 bit", ih.Modular16BitBuffers, m.AllDefault || m.Mod16)
	same(t, "XYB", ih.XybEncoded, m.XYB)
	same(t, "extra channels", len(ih.ExtraChannelInfo), len(m.ECs))
	var alphas []int32
	for i, e := range m.ECs {
		g := &ih.ExtraChannelInfo[i]
		if e.Type == jx.ECAlpha {
			alphas = append(alphas, int32(i))
		}
		same(t, "extra channel type", int(g.EcType), e.Type)
		sameDepth(t, "extra channel depth", &g.BitDepth, e.Depth)
		same(t, "extra channel shift", int(g.DimShift), e.Shift)
		same(t, "extra channel name", g.Name, e.Name)
		same(t, "extra channel association", g.AlphaAssociated, e.Type == jx.ECAlpha && !e.Default && e.Assoc)
		spot := [4]float32{}
		if e.Type == jx.ECSpot {
			copy(spot[:], f32s(e.Spot[:]))
		}
		sameBits(t, "spot colour", []float32{g.Red, g.Green, g.Blue, g.Solidity}, spot[:])
		cfa := 1
		if e.Type == jx.ECCFA {
			cfa = e.CFA
		}
		same(t, "colour filter index", int(g.CfaIndex), cfa)
	}
	if len(alphas) > 0 || len(ih.AlphaIndices) > 0 {
		same(t, "alpha channels", ih.AlphaIndices, alphas)
	}
	same(t, "HasAlpha", ih.HasAlpha(), len(alphas) > 0)
	nc := m.NumColour()
	same(t, "colour channels", ih.GetColourChannelCount(), nc)
	same(t, "channels", ih.GetTotalChannelCount(), nc+len(m.ECs))
	// colour encoding
	c := m.Colour
	g := ih.ColourEncoding
	if c.AllDefault {
		c = jx.SRGB()
	} else if c.ICC {
		s := c.Space
		c = jx.SRGB()
		c.Space, c.ICC = s, true
	}
	same(t, "ICC", g.UseIccProfile, c.ICC)
	same(t, "colour space", int(g.ColourEncoding), c.Space)
	same(t, "GetColourModel", int(ih.GetColourModel()), c.Space)
	if c.Space == 2 {
		c.White = 1
		c.HaveGamma, c.Gamma = true, 3333333
		if c.ICC {
			c.HaveGamma, c.TF = false, 13
		}
	}
	if c.Space == 1 || c.Space == 2 {
		c.Prim = 1
	}
	same(t, "white point", int(g.WhitePoint), c.White)
	xy := map[int]jx.XY{1: {X: 312700, Y: 329000}, 10: {X: 333333, Y: 333333}, 11: {X: 314000, Y: 351000}}
	if c.White == 2 {
		sameXY(t, "white", g.White, c.WhiteXY)
	} else if p := xy[c.White]; math.Abs(float64(g.White.X)-float64(p.X)*1e-6)+math.Abs(float64(g.White.Y)-float64(p.Y)*1e-6) > 2e-6 {
		t.Failf("white is %v, want %v", g.White, p)
	}
	same(t, "primaries", int(g.Primaries), c.Prim)
	want := c.PrimXY
	switch c.Prim {
	case 1:
		want = [3]jx.XY{{X: 640000, Y: 330000}, {X: 300000, Y: 600000}, {X: 150000, Y: 60000}}
	case 9:
		want = [3]jx.XY{{X: 708000, Y: 292000}, {X: 170000, Y: 797000}, {X: 131000, Y: 46000}}
	case 11:
		want = [3]jx.XY{{X: 680000, Y: 320000}, {X: 265000, Y: 690000}, {X: 150000, Y: 60000}}
	}
	for i, p := range []*colour.CIEXY{g.Prim.Red, g.Prim.Green, g.Prim.Blue} {
		if c.Prim == 2 {
			sameXY(t, "primary", p, want[i])
		} else if math.Abs(float64(p.X)-float64(want[i].X)*1e-6)+math.Abs(float64(p.Y)-float64(want[i].Y)*1e-6) > 2e-5 {
			t.Failf("primary %d is %v, want %v", i, p, want[i])
		}
	}
	tf := int32(1<<24 + c.TF)
	if c.HaveGamma {
		tf = int32(c.Gamma)
	}
	same(t, "transfer function", g.Tf, tf)
	same(t, "rendering intent", int(g.RenderingIntent), c.Intent)
	// tone mapping
	tone := colour.ToneMapping{IntensityTarget: 255}
	if m.ExtraFields && !m.AllDefault && !m.ToneM.AllDefault {
		tone = colour.ToneMapping{
			IntensityTarget: float32(F16(m.ToneM.Intensity)), MinNits: float32(F16(m.ToneM.MinNits)),
			LinearBelow: float32(F16(m.ToneM.Below)), RelativeToMaxDisplay: m.ToneM.Relative,
		}
	}
	same(t, "tone mapping", *ih.ToneMapping, tone)
	same(t, "GetIntensityTarget", ih.ToneMapping.GetIntensityTarget(), tone.IntensityTarget)
	// extensions
	key := uint64(0)
	pay := [64][]byte{}
	for _, e := range m.Exts {
		key |= 1 << uint(e.Idx)
		pay[e.Idx] = e.Data
	}
	same(t, "extensions", ih.Extensions.ExtensionsKey, key)
	for i := range pay {
		if !bytes.Equal(pay[i], ih.Extensions.Payloads[i]) {
			t.Failf("extension %d holds %x, want %x", i, ih.Extensions.Payloads[i], pay[i])
		}
	}
	// transforms
	oim := colour.NewOpsinInverseMatrix()
	if m.XYB && !m.DefaultTransform && !m.OpsinM.Default {
		oim.Matrix = [][]float32{f32s(m.OpsinM.M[:3]), f32s(m.OpsinM.M[3:6]), f32s(m.OpsinM.M[6:])}
		oim.OpsinBias = f32s(m.OpsinM.Bias[:])
		oim.QuantBias = f32s(m.OpsinM.QBias[:])
		oim.QuantBiasNumerator = float32(F16(m.OpsinM.QNum))
	}
	for i := range oim.Matrix {
		sameBits(t, "opsin matrix", ih.OpsinInverseMatrix.Matrix[i], oim.Matrix[i])
	}
	sameBits(t, "opsin bias", ih.OpsinInverseMatrix.OpsinBias, oim.OpsinBias)
	sameBits(t, "quantisation bias", ih.OpsinInverseMatrix.QuantBias, oim.QuantBias)
	same(t, "quantisation bias numerator", ih.OpsinInverseMatrix.QuantBiasNumerator, oim.QuantBiasNumerator)
	for i, u := range [][]uint16{m.Up2, m.Up4, m.Up8} {
		got := [][]float32{ih.Up2Weights, ih.Up4Weights, ih.Up8Weights}[i]
		want := [][]float32{bundle.DEFAULT_UP2, bundle.DEFAULT_UP4, bundle.DEFAULT_UP8}[i]
		if u != nil && !m.DefaultTransform {
			want = f32s(u)
		}
		sameBits(t, "upsampling weights", got, want)
	}
	if icc != nil {
		if got, err := ih.GetDecodedICC(); err != nil || !bytes.Equal(got, icc.Out) {
			t.Failf("ICC profile of %d bytes, want %d (%v)", len(got), len(icc.Out), err)
		}
	}
}

// frameHeader writes and reads a frame header.
func frameHeader(t *pbt.T, m *jx.Meta, ih *bundle.ImageHeader) {
	f := jx.NewFHdr(m)
	f.Pick = t.N
	f.AllDefault = t.Chance(1, 10)
	if f.AllDefault {
		f.Modular = false
	} else {
		f.Type = t.N(4)
		f.Modular = t.Bool()
		f.Flags = uint64(t.N(256))
		if t.Chance(1, 4) {
			f.Flags = t.U64()
		}
		f.YCbCr = t.Bool() && !m.XYB
		for i := range f.JpegUps {
			f.JpegUps[i] = t.N(4)
		}
		f.Ups = t.N(4)
		for i := range f.ECUps {
			f.ECUps[i] = t.N(4)
		}
		f.GroupShift = t.N(4)
		f.XQM, f.BQM = t.N(8), t.N(8)
		genPasses(t, f)
		f.LFLevel = t.Range(1, 4)
		f.Crop = t.Bool()
		if f.Type == jx.FLF {
			f.Crop = false
		}
		if f.Crop {
			f.W, f.H = 1+t.N(1<<uint(t.Range(0, 16))), 1+t.N(1<<uint(t.Range(0, 16)))
			if t.Chance(1, 3) {
				f.W, f.H = m.W+t.N(10), m.H+t.N(10)
			}
			if f.Type != jx.FRef {
				f.X0, f.Y0 = t.N(1<<uint(t.Range(0, 16))), t.N(1<<uint(t.Range(0, 16)))
				if t.Bool() {
					f.X0, f.Y0 = t.N(10), t.N(10)
				}
				if t.Bool() {
					f.X0 = -f.X0
				}
				if t.Bool() {
					f.Y0 = -f.Y0
				}
			}
		}
		bl := func() jx.Blend {
			return jx.Blend{Mode: t.N(5), Alpha: t.N(11), Clamp: t.Bool(), Source: t.N(4)}
		}
		f.Bl = bl()
		for i := range f.ECBl {
			f.ECBl[i] = bl()
		}
		f.Last = t.Bool()
		f.SaveRef = t.N(4)
		f.SaveBefore = t.Bool()
		if t.Bool() {
			r := t.RNG()
			b := make([]byte, t.N([]int{5, 20, 60, 1072}[t.N(4)]))
			for k := range b {
				b[k] = byte(r.Next())
			}
			f.Name = string(b)
		}
		f.LF.AllDefault = t.Bool()
		f.LF.Gab = t.Bool()
		f.LF.GabCustom = t.Bool()
		for i := range f.LF.GabW {
			f.LF.GabW[i] = ToF16(float64(t.N(100)) / 1000)
		}
		f.LF.Exts = jx.GenExts(t, 1000)
		f.Exts = jx.GenExts(t, 1000)
	}
	bw := &jx.BW{}
	f.Write(bw, m)
	n := bw.Len()
	data := append([]byte(nil), bw.B...)
	for i := t.N(20); i >= 0; i-- {
		data = append(data, byte(t.Bits(8)))
	}
	t.Attach("frame header", data)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	g, err := frame.NewFrameHeaderWithReader(br, ih)
	if err != nil {
		t.Failf("a valid frame header was refused: %v", err)
	}
	if got := int(br.GetBitsCount()); got != n {
		t.Failf("the frame header has %d bits, %d were read", n, got)
	}
	t.Eval(20)
	same(t, "frame type", int(g.FrameType), f.Type)
	same(t, "encoding", g.Encoding == frame.MODULAR, f.Modular)
	same(t, "flags", g.Flags, f.Flags)
	same(t, "YCbCr", g.DoYCbCr, f.YCbCr)
	ups := func(u int) uint32 {
		if f.AllDefault || f.Flags&32 != 0 {
			return 1
		}
		return 1 << uint(u)
	}
	same(t, "upsampling", g.Upsampling, ups(f.Ups))
	same(t, "extra channels of the frame", len(g.EcUpsampling), len(m.ECs))
	for i, u := range f.ECUps {
		same(t, "extra channel upsampling", g.EcUpsampling[i], ups(u))
	}
	level := 0
	if f.Type == jx.FLF {
		level = f.LFLevel
	}
	same(t, "LF level", int(g.LfLevel), level)
	x0, y0, w, h := 0, 0, m.W, m.H
	if f.Crop {
		x0, y0, w, h = f.X0, f.Y0, f.W, f.H
	}
	down := int(ups(f.Ups)) << uint(3*level)
	same(t, "frame x", int(g.Bounds.Origin.X), x0)
	same(t, "frame y", int(g.Bounds.Origin.Y), y0)
	// a coded size of ceil(ceil(n/a)/b) is ceil(n/(ab))
	same(t, "frame width", int(g.Bounds.Size.Width), (w+down-1)/down)
	same(t, "frame height", int(g.Bounds.Size.Height), (h+down-1)/down)
	normal := (f.Type == jx.FRegular || f.Type == jx.FSkip) && !f.AllDefault
	blend := func(name string, got frame.BlendingInfo, b jx.Blend) {
		want := frame.BlendingInfo{}
		if normal {
			want.Mode = uint32(b.Mode)
			alpha := len(m.ECs) > 0 && (b.Mode == jx.BBlend || b.Mode == jx.BMulAdd)
			if alpha {
				want.AlphaChannel = uint32(b.Alpha)
			}
			want.Clamp = b.Clamp && (alpha || b.Mode == jx.BMul)
			if b.Mode != jx.BReplace || !f.FullFrame(m) {
				want.Source = uint32(b.Source)
			}
		}
		same(t, name, got, want)
	}
	blend("blending", *g.BlendingInfo, f.Bl)
	for i, b := range f.ECBl {
		blend("extra channel blending", g.EcBlendingInfo[i], b)
	}
	last := f.AllDefault || normal && f.Last
	same(t, "last", g.IsLast, last)
	ref := 0
	if f.Type != jx.FLF && !last {
		ref = f.SaveRef
	}
	same(t, "reference", int(g.SaveAsReference), ref)
	if f.Type == jx.FRef || normal && !last && f.Bl.Mode == jx.BReplace && f.FullFrame(m) {
		same(t, "saved before the colour transform", g.SaveBeforeCT, f.SaveBefore)
	}
	same(t, "duration", g.Duration, 0)
}
