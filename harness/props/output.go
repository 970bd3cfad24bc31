package props

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"strconv"
	"strings"

	jxlgo "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"

	"verif/jx"
	"verif/pbt"
)

func init() {
	reg("C13", c13)
	reg("C14", c14)
	reg("C15", c15)
	reg("C16", c16)
	reg("C17", c17)
}

// floatDepths are sample formats with exponents: bits, exponent bits.
var floatDepths = [][2]int{{16, 5}, {32, 8}, {24, 7}, {16, 8}, {12, 4}, {20, 6}}

// outImage is a decoded image with what was known before.
type outImage struct {
	m    *jx.Meta
	icc  *jx.ICC
	data []byte
	img  *core.JXLImage
	s    [][][]float64 // decoded samples, normalised
	raw  [][][]float64 // decoded samples
}

type colourOpts struct{ plain bool }

func genColour(t *pbt.T) jx.ColourEnc {
	c := jx.SRGB()
	c.Intent = t.N(4)
	switch t.W(3, 1, 4) {
	case 0:
		return c
	case 1:
		c.AllDefault = true
		return c
	}
	c.White = []int{1, 1, 10, 11, 2}[t.N(5)]
	if c.White == 2 {
		c.WhiteXY = jx.XY{X: int32(t.Range(290000, 360000)), Y: int32(t.Range(300000, 370000))}
	}
	c.Prim = []int{1, 1, 11, 9, 2}[t.W(3, 2, 3, 1, 1)]
	if c.Prim == 2 {
		base := []jx.XY{{X: 640000, Y: 330000}, {X: 300000, Y: 600000}, {X: 150000, Y: 60000}}
		if t.Bool() {
			base = []jx.XY{{X: 639999, Y: 330010}, {X: 300004, Y: 600003}, {X: 150002, Y: 59997}}
		} else {
			for i := range base {
				base[i].X += int32(t.Range(0, 40000)) - 20000
				base[i].Y += int32(t.Range(0, 40000)) - 20000
			}
		}
		copy(c.PrimXY[:], base)
	}
	if t.Chance(1, 3) {
		c.HaveGamma = true
		c.Gamma = uint32([]int{4545455, 10000000, 3846154, t.Range(2500000, 10000000)}[t.N(4)])
	} else {
		c.TF = []int{13, 1, 17, 8, 16, 18, 2}[t.W(5, 4, 3, 1, 1, 1, 1)]
	}
	return c
}

// genOut draws an image for the conversions and decodes it.
func genOut(t *pbt.T, max int) *outImage {
	w, h := smallSize(t, max)
	m := jx.DefaultMeta(w, h)
	m.Pick = t.N
	depth := func() jx.BitDepth {
		if t.Chance(1, 6) {
			d := floatDepths[t.N(len(floatDepths))]
			t.Label("float-samples")
			return jx.BitDepth{Float: true, Bits: d[0], Exp: d[1]}
		}
		return jx.BitDepth{Bits: []int{8, 8, 8, 1, 2, 4, 5, 7, 9, 10, 12, 14, 15, 16, 16}[t.N(15)]}
	}
	m.Depth = depth()
	m.Mod16 = false
	grey := t.Chance(1, 3)
	m.Colour = genColour(t)
	if grey {
		m.Colour.AllDefault = false
		m.Colour.Space = 1
		t.Label("grey")
	}
	if t.Chance(1, 3) {
		m.ExtraFields = true
		m.Orient = t.Range(1, 8)
	}
	o := &outImage{m: m}
	if t.Chance(1, 5) {
		// a profile of no bytes says nothing about the colours
		if icc := jx.GenICC(t); len(icc.Out) > 0 {
			m.Colour.AllDefault = false
			m.Colour.ICC = true
			o.icc = icc
			m.ICCCode = icc.Code(t)
			t.Label("icc")
		}
	} else if !grey && t.Chance(1, 6) {
		m.XYB = true
		t.Label("xyb")
	}
	for i, n := 0, t.W(3, 4, 2, 1); i < n; i++ {
		e := jx.EC{Type: []int{jx.ECAlpha, jx.ECAlpha, jx.ECDepth, jx.ECSpot, jx.ECBlack}[t.N(5)], Depth: m.Depth}
		if t.Chance(1, 3) {
			e.Depth = depth()
		}
		if e.Type == jx.ECAlpha {
			t.Label("alpha")
			e.Assoc = t.Chance(1, 4)
			if e.Depth.Bits == 8 && !e.Assoc && !e.Depth.Float && t.Bool() {
				e.Default = true
			}
		}
		m.ECs = append(m.ECs, e)
	}
	f := jx.NewFHdr(m)
	f.Pick = t.N
	planes := jx.Planes(m, f)
	nc := m.NumColour()
	big := false
	for i, p := range planes {
		d := m.Depth
		if i >= nc {
			d = m.ECs[i-nc].Depth
		}
		if m.XYB && i < nc {
			// Y around the middle of the range; X and B-Y small
			r := t.RNG()
			for k := range p.D {
				switch i {
				case 0:
					p.D[k] = int64(r.N(700))
				case 1:
					p.D[k] = int64(r.N(200)) - 100
				default:
					p.D[k] = int64(r.N(200)) - 100
				}
			}
			continue
		}
		if d.Float {
			fillFloat(t, p, d)
			big = big || d.Bits > 16
			continue
		}
		fill(t, p, d.Bits)
		if t.Chance(1, 10) && d.Bits <= 12 {
			// outside of the nominal range
			r := t.RNG()
			for k := range p.D {
				if r.N(4) == 0 {
					p.D[k] += int64(r.N(400)) - 200
				}
			}
			t.Label("out-of-range")
		}
	}
	opt := jx.ModOpts{
		Trans: jx.TransOpts{Depth: 8, Max: 0, NoSynth: true},
		Tree:  jx.TreeOpts{Bits: 8, FixedPred: -1},
	}
	if big {
		opt.Tree.Wide = true
		opt.Tree.Bits = 30
	}
	feat := map[string]bool{}
	secs, _ := jx.EncodeModular(t, m, f, planes, opt, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, false, feat)
	o.data = bw.B
	t.Attach("image.jxl", o.data)
	sig(t, o.data)
	icc := ""
	if o.icc != nil {
		icc = fmt.Sprintf("ICC of %d bytes, ", len(o.icc.Out))
	}
	t.Logf("%dx%d %+v, orientation %d, colour %+v, %sxyb %v, extra channels %+v, %d bytes", w, h, m.Depth, m.Orient, m.Colour, icc, m.XYB, m.ECs, len(o.data))
	img, err := Decode(o.data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	if img == nil || len(img.Buffer) != len(planes) {
		t.Failf("decoding a valid image gave no image or another number of channels")
	}
	o.img = img
	for c, b := range img.Buffer {
		d := m.Depth
		if c >= nc {
			d = m.ECs[c-nc].Depth
		}
		sc := 1.0
		if b.IsInt() {
			sc = 1 / float64(uint64(1)<<uint(d.Bits)-1)
		}
		bw, bh := dims(b)
		var s, raw [][]float64
		for y := 0; y < bh; y++ {
			var r, q []float64
			for x := 0; x < bw; x++ {
				v := sampleAt(b, x, y)
				q = append(q, v)
				r = append(r, v*sc)
			}
			s, raw = append(s, r), append(raw, q)
		}
		o.s, o.raw = append(o.s, s), append(o.raw, raw)
	}
	if anyVaried(planes) {
		t.NonTrivial()
	}
	return o
}

// fillFloat draws finite float samples, mostly in [0,1].
func fillFloat(t *pbt.T, p *jx.Chan, d jx.BitDepth) {
	r := t.RNG()
	mant := d.Bits - d.Exp - 1
	bias := 1<<uint(d.Exp-1) - 1
	kind := t.N(3)
	for i := range p.D {
		e := bias - 1 - r.N(6)
		switch {
		case r.N(12) == 0:
			e = 0 // subnormal or zero
		case r.N(12) == 0:
			e = bias // 1..2
		case kind == 2:
			e = r.N(2*bias - 2)
		}
		if e < 0 {
			e = 0
		}
		m := int64(r.Next() & (1<<uint(mant) - 1))
		if r.N(4) == 0 {
			m = 0
		}
		v := int64(e)<<uint(mant) | m
		if kind > 0 && r.N(5) == 0 {
			v |= 1 << uint(d.Bits-1)
		}
		if d.Bits == 32 {
			v = int64(int32(uint32(v)))
		}
		p.D[i] = v
	}
}

// floatValue is the value of a sample in a float format.
func floatValue(v int64, d jx.BitDepth) float64 {
	mant := uint(d.Bits - d.Exp - 1)
	bias := 1<<uint(d.Exp-1) - 1
	u := uint64(v) & (1<<uint(d.Bits) - 1)
	sign := 1.0
	if u>>uint(d.Bits-1) != 0 {
		sign = -1
	}
	e := int(u >> mant & (1<<uint(d.Exp) - 1))
	f := float64(u & (1<<mant - 1))
	if e == 0 {
		return sign * math.Ldexp(f, 1-bias-int(mant))
	}
	return sign * math.Ldexp(f+float64(uint64(1)<<mant), e-bias-int(mant))
}

func (o *outImage) size() (int, int) {
	if o.m.Orient > 4 {
		return o.m.H, o.m.W
	}
	return o.m.W, o.m.H
}

// alpha gives the channel of the first alpha channel, or -1.
func (o *outImage) alpha() int {
	for i, e := range o.m.ECs {
		if e.Type == jx.ECAlpha {
			return o.m.NumColour() + i
		}
	}
	return -1
}

func (o *outImage) assoc() bool {
	a := o.alpha()
	return a >= 0 && o.m.ECs[a-o.m.NumColour()].Assoc
}

// ---- colour model ----

type xy struct{ x, y float64 }

var d65 = xy{0.3127, 0.3290}
var srgbPrim = [3]xy{{0.639998686, 0.330010138}, {0.300003784, 0.600003357}, {0.150002046, 0.059997204}}

func (c *outImage) white() xy {
	e := &c.m.Colour
	if e.AllDefault || e.ICC {
		return d65
	}
	switch e.White {
	case 2:
		return xy{float64(e.WhiteXY.X) / 1e6, float64(e.WhiteXY.Y) / 1e6}
	case 10:
		return xy{1. / 3, 1. / 3}
	case 11:
		return xy{0.314, 0.351}
	}
	return d65
}

func (c *outImage) prims() [3]xy {
	e := &c.m.Colour
	if e.AllDefault || e.ICC || e.Space == 1 {
		return srgbPrim
	}
	switch e.Prim {
	case 2:
		var p [3]xy
		for i := range p {
			p[i] = xy{float64(e.PrimXY[i].X) / 1e6, float64(e.PrimXY[i].Y) / 1e6}
		}
		return p
	case 9:
		return [3]xy{{0.708, 0.292}, {0.170, 0.797}, {0.131, 0.046}}
	case 11:
		return [3]xy{{0.680, 0.320}, {0.265, 0.690}, {0.150, 0.060}}
	}
	return srgbPrim
}

func near(a, b xy) bool { return math.Abs(a.x-b.x)+math.Abs(a.y-b.y) < 1e-4 }
func nearP(a, b [3]xy) bool {
	return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2])
}

const (
	tfGamma  = -1
	tfLinear = 8
	tfSRGB   = 13
	tfPQ     = 16
)

func (c *outImage) tagged() int {
	e := &c.m.Colour
	switch {
	case e.AllDefault || e.ICC:
		return tfSRGB
	case e.HaveGamma:
		return tfGamma
	}
	return e.TF
}

// hdr: images whose conversion goes to BT.2100 PQ.
func (c *outImage) hdr() bool {
	switch c.tagged() {
	case 8, 16, 18:
		return true
	}
	p := c.prims()
	return !nearP(p, srgbPrim) && !nearP(p, [3]xy{{0.680, 0.320}, {0.265, 0.690}, {0.150, 0.060}})
}

// unsupported: there is no transfer function to convert with.
func (c *outImage) unsupported() bool {
	if c.icc != nil || c.m.XYB {
		return false
	}
	tf := c.tagged()
	return tf == 18 || tf == 2
}

func toLinear(tf int, gamma, v float64) float64 {
	switch tf {
	case tfGamma:
		return math.Pow(v, 1/gamma)
	case tfSRGB:
		if v <= 0.0404482362771082 {
			return v / 12.92
		}
		return math.Pow((v+0.055)/1.055, 2.4)
	case 1:
		if v < 0.081242858298635133011 {
			return v / 4.5
		}
		return math.Pow((v+0.0992968268094429403)/1.0992968268094429403, 1/0.45)
	case 16:
		p := math.Pow(v, 1/pqM2)
		return math.Pow(math.Max(p-pqC1, 0)/(pqC2-pqC3*p), 1/pqM1)
	case 17:
		return math.Pow(v, 2.6)
	}
	return v
}

// SMPTE ST 2084
const pqM1, pqM2 = 2610.0 / 16384, 2523.0 / 4096 * 128
const pqC1, pqC2, pqC3 = 3424.0 / 4096, 2413.0 / 4096 * 32, 2392.0 / 4096 * 32

func fromLinearPQ(v float64) float64 {
	if v <= 0 {
		return 0
	}
	p := math.Pow(v, pqM1)
	return math.Pow((pqC1+pqC2*p)/(1+pqC3*p), pqM2)
}

func fromLinearSRGB(v float64) float64 {
	if v <= 0.0031308 {
		return v * 12.92
	}
	return 1.055*math.Pow(v, 1/2.4) - 0.055
}

type mat [3][3]float64

func (a mat) mul(b mat) (r mat) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				r[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a mat) vec(v [3]float64) (r [3]float64) {
	for i := range r {
		r[i] = a[i][0]*v[0] + a[i][1]*v[1] + a[i][2]*v[2]
	}
	return
}

func (a mat) inv() (r mat) {
	det := a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			i1, i2, j1, j2 := (i+1)%3, (i+2)%3, (j+1)%3, (j+2)%3
			r[j][i] = (a[i1][j1]*a[i2][j2] - a[i1][j2]*a[i2][j1]) / det
		}
	}
	return
}

func xyz(p xy) [3]float64 { return [3]float64{p.x / p.y, 1, (1 - p.x - p.y) / p.y} }

func primMatrix(p [3]xy, w xy) mat {
	var m mat
	for c := 0; c < 3; c++ {
		v := xyz(p[c])
		for i := 0; i < 3; i++ {
			m[i][c] = v[i]
		}
	}
	s := m.inv().vec(xyz(w))
	for c := 0; c < 3; c++ {
		for i := 0; i < 3; i++ {
			m[i][c] *= s[c]
		}
	}
	return m
}

var bradford = mat{{0.8951, 0.2664, -0.1614}, {-0.7502, 1.7135, 0.0367}, {0.0389, -0.0685, 1.0296}}

func adapt(from, to xy) mat {
	a, b := bradford.vec(xyz(from)), bradford.vec(xyz(to))
	d := mat{{b[0] / a[0]}, {0, b[1] / a[1]}, {0, 0, b[2] / a[2]}}
	return bradford.inv().mul(d).mul(bradford)
}

// converted gives the bounds of the samples converted to sRGB, or to BT.2100 PQ for
// images in HDR; exact tells that no curve was applied.
func (o *outImage) converted() (lo, hi [][][]float64, exact bool) {
	nc := o.m.NumColour()
	if o.icc != nil {
		return o.s[:nc], o.s[:nc], true
	}
	tf := o.tagged()
	if o.m.XYB {
		tf = tfLinear
	}
	target, ttf := srgbPrim, tfSRGB
	if o.hdr() {
		target, ttf = [3]xy{{0.708, 0.292}, {0.170, 0.797}, {0.131, 0.046}}, tfPQ
	}
	p, w := o.prims(), o.white()
	same := nearP(p, target) && near(w, d65)
	if same && tf == ttf {
		return o.s[:nc], o.s[:nc], true
	}
	conv := mat{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	if !same && nc == 3 {
		conv = primMatrix(target, d65).inv()
		if !near(w, d65) {
			conv = conv.mul(adapt(w, d65))
		}
		conv = conv.mul(primMatrix(p, w))
	}
	gamma := float64(o.m.Colour.Gamma) * 1e-7
	for c := 0; c < nc; c++ {
		lo = append(lo, make([][]float64, len(o.s[c])))
		hi = append(hi, make([][]float64, len(o.s[c])))
	}
	for y := range o.s[0] {
		for c := range lo {
			lo[c][y] = make([]float64, len(o.s[0][y]))
			hi[c][y] = make([]float64, len(o.s[0][y]))
		}
		for x := range o.s[0][y] {
			var v, e [3]float64
			for c := 0; c < nc; c++ {
				u := o.s[c][y][x]
				v[c] = toLinear(tf, gamma, u)
				d := toLinear(tf, gamma, u*(1+3e-7)) - v[c]
				e[c] = 2*math.Abs(d) + 2e-7*math.Abs(v[c])
			}
			if nc == 3 {
				m := conv
				for i := range m {
					for j := range m[i] {
						m[i][j] = math.Abs(m[i][j])
					}
				}
				s := math.Abs(v[0]) + math.Abs(v[1]) + math.Abs(v[2])
				v, e = conv.vec(v), m.vec(e)
				for i := range e {
					e[i] += 4e-6 * s
				}
			}
			for c := 0; c < nc; c++ {
				if ttf == tfPQ {
					lo[c][y][x], hi[c][y][x] = fromLinearPQ(v[c]-e[c]), fromLinearPQ(v[c]+e[c])
					if math.IsNaN(v[c]) {
						lo[c][y][x], hi[c][y][x] = v[c], v[c]
					}
					continue
				}
				lo[c][y][x] = fromLinearSRGB(v[c])
				hi[c][y][x] = lo[c][y][x]
			}
		}
	}
	return lo, hi, false
}

// judge compares a converted sample: got of maxv levels with the ideal value v.
func judge(got int, v float64, maxv int, tol float64) bool { return judge2(got, v, v, maxv, tol) }

// judge2 takes bounds of the ideal value.
func judge2(got int, lo, hi float64, maxv int, tol float64) bool {
	v := lo + hi
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return true
	}
	lo = math.Min(math.Max(lo, 0), 1) * float64(maxv)
	hi = math.Min(math.Max(hi, 0), 1) * float64(maxv)
	return float64(got) >= lo-0.5-tol && float64(got) <= hi+0.5+tol
}

// pixels checks converted pixels; at(x,y,c) gives channel c (alpha is nc).
func (o *outImage) pixels(t *pbt.T, what string, maxv int, hasA bool, at func(x, y, c int) int) {
	m := o.m
	nc := m.NumColour()
	a := o.alpha()
	wantLo, wantHi, exact := o.converted()
	if o.icc == nil && o.hdr() && !exact {
		t.Label("pq-converted")
	}
	tolE, tolC := 0.002, 0.1
	if maxv > 255 {
		tolE, tolC = 0.02, 4
	}
	w, h := o.size()
	assoc := o.assoc()
	cmpColour := !(assoc && !exact)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			al := 1.0
			if a >= 0 {
				al = o.s[a][y][x]
			}
			if hasA {
				if g := at(x, y, nc); !judge(g, al, maxv, tolE) {
					t.Failf("%s: alpha of pixel (%d,%d) is %d of %d, decoded as %v", what, x, y, g, maxv, al)
				}
			}
			if !cmpColour || assoc && !(al > 0) {
				continue
			}
			// conversions of samples far outside of the range cancel badly
			far := 0.0
			for c := 0; c < nc && !exact; c++ {
				far = max(far, math.Abs(o.s[c][y][x]))
			}
			if far > 100 {
				continue
			}
			for c := 0; c < nc; c++ {
				v, vh := wantLo[c][y][x], wantHi[c][y][x]
				tol := tolC
				if far > 1 {
					tol += far * far * far * float64(maxv) * 3e-5
				}
				if exact {
					tol = tolE
				}
				if assoc {
					v, vh = v/al, vh/al
					tol += 0.01 + math.Abs(v)*float64(maxv)*1e-6
					if al < 1e-30 {
						continue
					}
				}
				if g := at(x, y, c); !judge2(g, v, vh, maxv, tol) {
					t.Failf("%s: channel %d of pixel (%d,%d) is %d of %d, want %v (decoded sample %v)", what, c, x, y, g, maxv, (v+vh)/2*float64(maxv), o.raw[c][y][x])
				}
			}
		}
	}
	t.Eval(w * h)
}

// goImage checks the Go image made of o.
func (o *outImage) goImage(t *pbt.T, what string, im image.Image) {
	w, h := o.size()
	if im == nil {
		t.Failf("%s: no image and no error", what)
	}
	if im.Bounds() != image.Rect(0, 0, w, h) {
		t.Failf("%s: bounds %v, want %dx%d", what, im.Bounds(), w, h)
	}
	nc := o.m.NumColour()
	switch g := im.(type) {
	case *image.Gray:
		if nc != 1 || o.alpha() >= 0 {
			t.Failf("%s: a grey Go image for %d colour channels, alpha channel %d", what, nc, o.alpha())
		}
		o.pixels(t, what, 255, false, func(x, y, c int) int { return int(g.GrayAt(x, y).Y) })
	case *image.NRGBA:
		o.pixels(t, what, 255, true, func(x, y, c int) int {
			p := g.NRGBAAt(x, y)
			if nc == 1 && (p.R != p.G || p.G != p.B) {
				t.Failf("%s: pixel (%d,%d) of a grey image is not grey: %v", what, x, y, p)
			}
			if c == nc {
				return int(p.A)
			}
			return int([]uint8{p.R, p.G, p.B}[c])
		})
	default:
		// another type of image is judged by what it shows
		o.pixels(t, what, 65535, true, func(x, y, c int) int {
			p := color.NRGBA64Model.Convert(im.At(x, y)).(color.NRGBA64)
			if c == nc {
				return int(p.A)
			}
			return int([]uint16{p.R, p.G, p.B}[c])
		})
	}
}

// snapshot copies an image's samples.
func snapshot(img *core.JXLImage) (out [][][]float64) {
	for _, b := range img.Buffer {
		w, h := dims(b)
		var p [][]float64
		for y := 0; y < h; y++ {
			var r []float64
			for x := 0; x < w; x++ {
				r = append(r, sampleAt(b, x, y))
			}
			p = append(p, r)
		}
		out = append(out, p)
	}
	return
}

func (o *outImage) unchanged(t *pbt.T, after string) {
	if len(o.img.Buffer) != len(o.raw) {
		t.Failf("%s changed the number of channels of the image", after)
	}
	for c, b := range o.img.Buffer {
		w, h := dims(b)
		if h != len(o.raw[c]) || h > 0 && w != len(o.raw[c][0]) {
			t.Failf("%s changed the size of channel %d", after, c)
		}
		for y := range o.raw[c] {
			for x, v := range o.raw[c][y] {
				if g := sampleAt(b, x, y); g != v && !(math.IsNaN(g) && math.IsNaN(v)) {
					t.Failf("%s changed the image: channel %d (%d,%d) was %v and is now %v", after, c, x, y, v, g)
				}
			}
		}
	}
}

// c16: conversions to Go images.
func c16(t *pbt.T) {
	o := genOut(t, 40)
	n := t.Range(2, 5)
	var firstGo, firstPNG, firstPFM []byte
	firstCh := map[int][]byte{}
	for i := 0; i < n; i++ {
		switch t.W(4, 3, 1, 1) {
		case 0:
			im, err := o.img.ToImage()
			if err != nil {
				if o.unsupported() {
					break
				}
				t.Failf("ToImage: %v", err)
			}
			o.goImage(t, fmt.Sprintf("ToImage (conversion %d)", i), im)
			o.unchanged(t, "ToImage")
			again(t, "ToImage", &firstGo, pix(im))
		case 1:
			c := t.N(len(o.img.Buffer))
			im, err := o.img.ChannelToImage(c)
			if err != nil {
				t.Failf("ChannelToImage(%d): %v", c, err)
			}
			w, h := dims(o.img.Buffer[c])
			if im.Bounds() != image.Rect(0, 0, w, h) {
				t.Failf("ChannelToImage(%d): bounds %v, channel is %dx%d", c, im.Bounds(), w, h)
			}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					g := int(color.GrayModel.Convert(im.At(x, y)).(color.Gray).Y)
					if !judge(g, o.s[c][y][x], 255, 0.002) {
						t.Failf("ChannelToImage(%d): pixel (%d,%d) is %d, decoded sample is %v (%v of the range)", c, x, y, g, o.raw[c][y][x], o.s[c][y][x])
					}
				}
			}
			t.Eval(w * h)
			o.unchanged(t, "ChannelToImage")
			f := firstCh[c]
			again(t, "ChannelToImage", &f, pix(im))
			firstCh[c] = f
		case 2:
			var b bytes.Buffer
			if err := new(core.PNGWriter).WritePNG(o.img, &b); err != nil && !o.unsupported() {
				t.Failf("WritePNG: %v", err)
			}
			o.unchanged(t, "WritePNG")
			again(t, "WritePNG", &firstPNG, b.Bytes())
		case 3:
			var b bytes.Buffer
			if err := core.WritePFM(o.img, &b); err != nil {
				t.Failf("WritePFM: %v", err)
			}
			o.unchanged(t, "WritePFM")
			again(t, "WritePFM", &firstPFM, b.Bytes())
		}
	}
	for _, c := range []int{-1, len(o.img.Buffer), len(o.img.Buffer) + t.N(5)} {
		if _, err := o.img.ChannelToImage(c); err == nil {
			t.Failf("ChannelToImage(%d) gave no error for %d channels", c, len(o.img.Buffer))
		}
	}
}

func pix(im image.Image) []byte {
	b := im.Bounds()
	var out []byte
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			p := color.NRGBA64Model.Convert(im.At(x, y)).(color.NRGBA64)
			out = append(out, byte(p.R>>8), byte(p.R), byte(p.G>>8), byte(p.G), byte(p.B>>8), byte(p.B), byte(p.A>>8), byte(p.A))
		}
	}
	return out
}

func again(t *pbt.T, what string, first *[]byte, now []byte) {
	if *first == nil {
		*first = append([]byte{}, now...)
		return
	}
	t.Label("repeated-conversion")
	if !bytes.Equal(*first, now) {
		t.Failf("%s gives another result the second time", what)
	}
}

// ---- PNG ----

type pngChunk struct {
	typ  string
	data []byte
}

func pngChunks(b []byte) ([]pngChunk, error) {
	if !bytes.HasPrefix(b, []byte("\x89PNG\r\n\x1a\n")) {
		return nil, errors.New("no PNG signature")
	}
	b = b[8:]
	var out []pngChunk
	for len(b) > 0 {
		if len(b) < 12 {
			return nil, errors.New("truncated chunk")
		}
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 12+n {
			return nil, errors.New("chunk longer than the file")
		}
		if crc32.ChecksumIEEE(b[4:8+n]) != binary.BigEndian.Uint32(b[8+n:]) {
			return nil, fmt.Errorf("wrong CRC of chunk %q", b[4:8])
		}
		out = append(out, pngChunk{string(b[4:8]), b[8 : 8+n]})
		b = b[12+n:]
	}
	return out, nil
}

func inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// c14: PNG output.
func c14(t *pbt.T) {
	o := genOut(t, 40)
	var b bytes.Buffer
	if err := new(core.PNGWriter).WritePNG(o.img, &b); err != nil {
		if o.unsupported() {
			t.Label("unsupported-transfer")
			return
		}
		t.Failf("WritePNG: %v", err)
	}
	o.png(t, b.Bytes())
}

func (o *outImage) png(t *pbt.T, b []byte) {
	t.Attach("out.png", b)
	m := o.m
	chunks, err := pngChunks(b)
	if err != nil {
		t.Failf("invalid PNG: %v", err)
	}
	if _, err := png.Decode(bytes.NewReader(b)); err != nil {
		t.Failf("image/png rejects the PNG: %v", err)
	}
	count := map[string]int{}
	var idat, iccp, cicp []byte
	intent := -1
	seenIDAT := false
	for i, c := range chunks {
		count[c.typ]++
		switch c.typ {
		case "IDAT":
			idat = append(idat, c.data...)
			seenIDAT = true
		case "iCCP", "sRGB", "cICP", "gAMA", "cHRM":
			if seenIDAT {
				t.Failf("%s chunk after the image data", c.typ)
			}
			if c.typ == "iCCP" {
				k := bytes.IndexByte(c.data, 0)
				if k < 1 || k > 79 || len(c.data) < k+2 || c.data[k+1] != 0 {
					t.Failf("malformed iCCP chunk")
				}
				if iccp, err = inflate(c.data[k+2:]); err != nil {
					t.Failf("iCCP chunk does not decompress: %v", err)
				}
			}
			if c.typ == "cICP" {
				cicp = c.data
			}
			if c.typ == "sRGB" {
				if len(c.data) != 1 || c.data[0] > 3 {
					t.Failf("malformed sRGB chunk %v", c.data)
				}
				intent = int(c.data[0])
			}
		}
		if (i == 0) != (c.typ == "IHDR") || (i == len(chunks)-1) != (c.typ == "IEND") {
			t.Failf("chunk %d is %s", i, c.typ)
		}
	}
	for k, n := range count {
		if n > 1 && k != "IDAT" {
			t.Failf("%d chunks %s", n, k)
		}
	}
	if o.icc != nil && len(o.icc.Out) > 0 {
		if !bytes.Equal(iccp, o.icc.Out) {
			t.Failf("the PNG carries a profile of %d bytes that is not the image's (%d bytes)", len(iccp), len(o.icc.Out))
		}
		if count["sRGB"] > 0 {
			t.Failf("both a profile and an sRGB chunk")
		}
	} else {
		if iccp != nil {
			t.Failf("the PNG carries a profile the image does not have")
		}
		if o.hdr() == (intent >= 0) {
			t.Failf("sRGB chunk: %v, for an image in HDR: %v", intent >= 0, o.hdr())
		}
		if o.hdr() != (cicp != nil) || cicp != nil && !bytes.Equal(cicp, []byte{9, 16, 0, 1}) {
			t.Failf("cICP chunk: %v, for an image in HDR: %v", cicp, o.hdr())
		}
		want := m.Colour.Intent
		if m.Colour.AllDefault {
			want = 1
		}
		if intent >= 0 && intent != want {
			t.Failf("rendering intent %d, the image has %d", intent, want)
		}
	}
	ih := chunks[0].data
	if len(ih) != 13 {
		t.Failf("IHDR of %d bytes", len(ih))
	}
	w, h := o.size()
	if int(binary.BigEndian.Uint32(ih)) != w || int(binary.BigEndian.Uint32(ih[4:])) != h {
		t.Failf("IHDR: %dx%d, image is %dx%d", binary.BigEndian.Uint32(ih), binary.BigEndian.Uint32(ih[4:]), w, h)
	}
	depth := 8
	if m.Depth.Bits > 8 || o.icc == nil && o.hdr() {
		depth = 16
	}
	nc := m.NumColour()
	ct := map[int]byte{1: 0, 3: 2}[nc]
	n := nc
	if o.alpha() >= 0 {
		ct += 4
		n++
	}
	if int(ih[8]) < depth {
		t.Failf("IHDR: %d bits per sample for samples of %d bits", ih[8], m.Depth.Bits)
	}
	depth = int(ih[8])
	if depth != 8 && depth != 16 || ih[9] != ct || ih[10] != 0 || ih[11] != 0 || ih[12] != 0 {
		t.Failf("IHDR %v, want colour type %d", ih[8:], ct)
	}
	raw, err := inflate(idat)
	if err != nil {
		t.Failf("image data does not decompress: %v", err)
	}
	bps := depth / 8
	stride := w * n * bps
	if len(raw) != h*(stride+1) {
		t.Failf("image data of %d bytes, want %d", len(raw), h*(stride+1))
	}
	rows := make([][]byte, h)
	for y := range rows {
		f := raw[y*(stride+1)]
		row := append([]byte(nil), raw[y*(stride+1)+1:(y+1)*(stride+1)]...)
		for i := range row {
			var a, bb, c byte
			if i >= n*bps {
				a = row[i-n*bps]
			}
			if y > 0 {
				bb = rows[y-1][i]
				if i >= n*bps {
					c = rows[y-1][i-n*bps]
				}
			}
			switch f {
			case 1:
				row[i] += a
			case 2:
				row[i] += bb
			case 3:
				row[i] += byte((int(a) + int(bb)) / 2)
			case 4:
				p := int(a) + int(bb) - int(c)
				pa, pb, pc := absi(p-int(a)), absi(p-int(bb)), absi(p-int(c))
				switch {
				case pa <= pb && pa <= pc:
					row[i] += a
				case pb <= pc:
					row[i] += bb
				default:
					row[i] += c
				}
			}
		}
		rows[y] = row
	}
	o.pixels(t, "PNG", 1<<uint(depth)-1, o.alpha() >= 0, func(x, y, c int) int {
		if bps == 1 {
			return int(rows[y][x*n+c])
		}
		return int(binary.BigEndian.Uint16(rows[y][(x*n+c)*2:]))
	})
}

func absi(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// c15: PFM output.
func c15(t *pbt.T) {
	o := genOut(t, 40)
	var b bytes.Buffer
	if err := core.WritePFM(o.img, &b); err != nil {
		t.Failf("WritePFM: %v", err)
	}
	o.unchanged(t, "WritePFM")
	o.pfm(t, b.Bytes())
}

// pfm checks the PFM file made of o.
func (o *outImage) pfm(t *pbt.T, b []byte) {
	t.Attach("out.pfm", b)
	br := bufio.NewReader(bytes.NewReader(b))
	var tok []string
	for len(tok) < 4 {
		l, err := br.ReadString('\n')
		if err != nil {
			t.Failf("PFM header: %v", err)
		}
		tok = append(tok, strings.Fields(l)...)
	}
	w, h := o.size()
	nc := o.m.NumColour()
	if tok[0] != map[int]string{1: "Pf", 3: "PF"}[nc] || tok[1] != strconv.Itoa(w) || tok[2] != strconv.Itoa(h) {
		t.Failf("PFM header %q for %dx%d with %d colour channels", tok, w, h, nc)
	}
	scale, err := strconv.ParseFloat(tok[3], 64)
	if err != nil || math.Abs(scale) != 1 {
		t.Failf("PFM scale %q", tok[3])
	}
	var order binary.ByteOrder = binary.BigEndian
	if scale < 0 {
		order = binary.LittleEndian
	}
	body, _ := io.ReadAll(br)
	if len(body) != w*h*nc*4 {
		t.Failf("PFM body of %d bytes, want %d", len(body), w*h*nc*4)
	}
	for i := 0; i < h; i++ {
		y := h - 1 - i
		for x := 0; x < w; x++ {
			for c := 0; c < nc; c++ {
				g := float64(math.Float32frombits(order.Uint32(body[((i*w+x)*nc+c)*4:])))
				v := o.s[c][y][x]
				if g != v && math.Abs(g-v) > 2e-7*math.Abs(v) && !(math.IsNaN(g) && math.IsNaN(v)) {
					t.Failf("PFM: channel %d of pixel (%d,%d) is %v, decoded as %v", c, x, y, g, v)
				}
			}
		}
	}
	t.Eval(w * h * nc)
}

// plainReader hides everything but Read.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// c13: the image package's interface.
func c13(t *pbt.T) {
	o := genOut(t, 40)
	data := o.data
	if t.Bool() {
		data = wrap(t, o.data)
	}
	t.Attach("image.jxl", data)
	want, werr := o.img.ToImage()
	mk := func() io.Reader {
		switch t.N(6) {
		case 0:
			t.Label("bytes.Reader")
			return bytes.NewReader(data)
		case 1:
			t.Label("bytes.Buffer")
			return bytes.NewBuffer(append([]byte(nil), data...))
		case 2:
			t.Label("plain")
			return plainReader{bytes.NewReader(data)}
		case 3:
			t.Label("bufio")
			return bufio.NewReader(bytes.NewReader(data))
		case 4:
			t.Label("one-byte")
			return plainReader{&oneByte{data}}
		}
		t.Label("followed")
		return io.MultiReader(bytes.NewReader(data))
	}
	check := func(what string, im image.Image, err error) {
		if werr != nil {
			if err == nil {
				t.Failf("%s: an image, but core's ToImage fails: %v", what, werr)
			}
			return
		}
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		if im.Bounds() != want.Bounds() {
			t.Failf("%s: bounds %v, want %v", what, im.Bounds(), want.Bounds())
		}
		if !bytes.Equal(pix(im), pix(want)) {
			t.Failf("%s: other pixels than core's decoder gives", what)
		}
		if im.ColorModel() != want.ColorModel() {
			t.Failf("%s: another colour model than core's decoder gives", what)
		}
		o.goImage(t, what, im)
	}
	im, format, err := image.Decode(mk())
	if err == nil && format != "jxl" {
		t.Failf("image.Decode: format %q", format)
	}
	check("image.Decode", im, err)
	im2, err := jxlgo.Decode(mk())
	check("jxl_go.Decode", im2, err)
	cfg, format, err := image.DecodeConfig(mk())
	w, h := o.size()
	if err != nil || format != "jxl" {
		t.Failf("image.DecodeConfig: %q %v", format, err)
	}
	if cfg.Width != w || cfg.Height != h {
		t.Failf("image.DecodeConfig: %dx%d, the image is %dx%d", cfg.Width, cfg.Height, w, h)
	}
	if im != nil && cfg.ColorModel != im.ColorModel() {
		t.Failf("image.DecodeConfig: another colour model than the decoded image's")
	}
	t.Eval(3)
}

type oneByte struct{ b []byte }

func (o *oneByte) Read(p []byte) (int, error) {
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = o.b[0]
	o.b = o.b[1:]
	return 1, nil
}

// c17: ICC profiles.
func c17(t *pbt.T) {
	m := jx.DefaultMeta(t.Range(1, 6), t.Range(1, 6))
	m.Pick = t.N
	m.Colour.ICC = true
	m.Colour.Space = t.W(3, 1)
	icc := jx.GenICC(t)
	m.ICCCode = icc.Code(t)
	if t.Chance(1, 4) {
		m.DefaultTransform = false
	}
	f := jx.NewFHdr(m)
	planes := jx.Planes(m, f)
	for _, p := range planes {
		fill(t, p, 8)
	}
	feat := icc.Feat
	secs, want := jx.EncodeModular(t, m, f, planes, jx.ModOpts{Trans: jx.TransOpts{Depth: 8}, Tree: jx.TreeOpts{Bits: 8, FixedPred: -1}}, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, false, map[string]bool{})
	for k := range icc.Feat {
		t.Label(k)
	}
	data := bw.B
	t.Attach("image.jxl", data)
	t.Attach("profile.icc", icc.Out)
	sig(t, data)
	t.Logf("profile of %d bytes coded in %d, features: %s", len(icc.Out), len(icc.Enc), featString(icc.Feat))
	if len(icc.Out) == 0 {
		t.Discard("empty profile")
	}
	if len(icc.Out) > 128 {
		t.NonTrivial()
	}
	hd, err := core.NewJXLDecoder(bytes.NewReader(data), nil).GetImageHeader()
	if err != nil {
		t.Failf("reading the header: %v", err)
	}
	for i := 0; i < 2; i++ {
		got, err := hd.GetDecodedICC()
		if err != nil {
			t.Failf("decoding the profile: %v", err)
		}
		compareICC(t, "header", got, icc.Out)
	}
	img, err := Decode(data)
	if err != nil {
		t.Failf("decoding a valid image with a profile: %v", err)
	}
	if !img.HasICCProfile() {
		t.Failf("the decoded image has no profile")
	}
	for i, p := range want {
		checkPlane(t, fmt.Sprintf("channel %d", i), img.Buffer[i], p, 255)
	}
	var b bytes.Buffer
	if err := new(core.PNGWriter).WritePNG(img, &b); err != nil {
		t.Failf("WritePNG: %v", err)
	}
	ch, err := pngChunks(b.Bytes())
	if err != nil {
		t.Failf("invalid PNG: %v", err)
	}
	for _, c := range ch {
		if c.typ == "iCCP" {
			p, err := inflate(c.data[bytes.IndexByte(c.data, 0)+2:])
			if err != nil {
				t.Failf("iCCP: %v", err)
			}
			compareICC(t, "PNG", p, icc.Out)
			t.Eval(2)
			return
		}
	}
	t.Failf("the PNG carries no profile")
}

func compareICC(t *pbt.T, what string, got, want []byte) {
	if len(got) != len(want) {
		t.Failf("%s: profile of %d bytes, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			t.Failf("%s: byte %d of the profile is %d, want %d", what, i, got[i], want[i])
		}
	}
}
