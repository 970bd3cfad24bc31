package props

import (
	"fmt"
	"math"
	"os"

	"github.com/kpfaulkner/jxl-go/core"

	"verif/jx"
	"verif/pbt"
)

func init() {
	reg("C19", c19)
	reg("C28", c28)
}

// varImage draws an image header, VarDCT frame header and its coefficients.
type varImage struct {
	m    *jx.Meta
	f    *jx.FHdr
	v    *jx.VarDCT
	feat map[string]bool
	data []byte
	ecs  []*jx.Chan
	bw   *jx.BW // what comes before the frame
	grey bool   // one colour channel
}

func varSize(t *pbt.T) (w, h int) {
	if t.Chance(1, 300) { // 2x2 LF groups
		return t.Range(2049, 2080), t.Range(2049, 2080)
	}
	switch t.W(4, 3, 2, 1) {
	case 0:
		return t.Range(1, 40), t.Range(1, 40)
	case 1:
		return t.Range(1, 120), t.Range(1, 120)
	case 2:
		return t.Range(64, 300), t.Range(64, 300)
	default:
		if t.Chance(1, 6) {
			w, h = t.Range(2049, 2300), t.Range(8, 64)
		} else {
			w, h = t.Range(257, 700), t.Range(8, 300)
		}
		if t.Bool() {
			w, h = h, w
		}
		return
	}
}

// newVar makes the headers of a VarDCT image without filters.
func newVar(t *pbt.T, w, h int) *varImage {
	m := jx.DefaultMeta(w, h)
	m.Pick = t.N
	m.Depth.Bits = []int{8, 8, 8, 10, 12, 16}[t.N(6)]
	f := jx.NewFHdr(m)
	f.Pick = t.N
	f.Modular = false
	f.Flags = 0x80
	f.Passes = t.W(0, 6, 2, 1)
	for i := 1; i < f.Passes; i++ {
		f.Shifts = append(f.Shifts, t.N(4))
	}
	return &varImage{m: m, f: f, feat: map[string]bool{}}
}

// encode makes the image's bits once the headers are settled.
func (x *varImage) encode(t *pbt.T, o jx.VOpts, mo jx.ModOpts) {
	x.v = jx.GenVarDCT(t, x.m, x.f, o, x.feat)
	if mo.Dequant != nil {
		for c, h := range mo.Dequant {
			x.v.LFDeq[c] = jx.HalfVal(h) / 128
		}
	}
	mo.Var = x.v
	planes := jx.Planes(x.m, x.f)
	for i, p := range planes {
		fill(t, p, x.m.ECs[i].Depth.Bits)
	}
	secs, dec := jx.EncodeModular(t, x.m, x.f, planes, mo, x.feat)
	x.ecs = dec
	bw := x.start()
	jx.WriteFrame(t, bw, x.m, x.f, secs, t.Chance(1, 4), x.feat)
	x.data = bw.B
	t.Attach("image.jxl", x.data)
	sig(t, x.data)
	describe(t, x.m, x.f, x.data, x.feat)
	t.Logf("chroma %v, quantiser scales %d %d, filters %+v", x.f.JpegUps, x.f.XQM, x.f.BQM, x.f.LF)
	t.Logf("global scale %d, LF quantiser %d, extra precision %v, passes %d shifts %v, correlation %v %d", x.v.GS, x.v.QLF, x.v.Extra, x.f.Passes, x.f.Shifts, x.v.CorrDefault, x.v.CF)
	for _, l := range x.v.LFBlocks {
		for i, b := range l {
			if i < 40 {
				t.Logf("block (%d,%d) %s multiplier %d", b.X, b.Y, jx.VTs[b.Type].Name, b.Mul)
			}
		}
	}
}

// start gives the writer with all that comes before the frame.
func (x *varImage) start() *jx.BW {
	if x.bw == nil {
		x.bw = &jx.BW{}
		x.m.Write(x.bw)
	}
	return x.bw
}

// decode decodes the image and checks its shape.
func (x *varImage) decode(t *pbt.T) *core.JXLImage {
	img, err := Decode(x.data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	if img == nil {
		t.Failf("decoder returned neither an image nor an error")
	}
	if d := x.shape(img); d != "" {
		t.Failf("%s", d)
	}
	for i, p := range x.ecs {
		if x.f.Ups > 0 {
			break
		}
		checkPlane(t, fmt.Sprintf("extra channel %d", i), img.Buffer[x.m.NumColour()+i], p, int64(1)<<uint(x.m.ECs[i].Depth.Bits)-1)
	}
	return img
}

// shape tells what is wrong with the channels' number or sizes.
func (x *varImage) shape(img *core.JXLImage) string {
	nc := x.m.NumColour()
	if len(img.Buffer) != nc+len(x.m.ECs) {
		return fmt.Sprintf("%d channels decoded, want %d", len(img.Buffer), nc+len(x.m.ECs))
	}
	for c := 0; c < nc; c++ {
		b := img.Buffer[c]
		gw, gh := dims(b)
		if gw != x.m.W || gh != x.m.H || int(b.Width) != gw || int(b.Height) != gh {
			return fmt.Sprintf("channel %d: decoded size %dx%d (declared %dx%d), want %dx%d", c, gw, gh, b.Width, b.Height, x.m.W, x.m.H)
		}
	}
	return ""
}

// compare tells how the colours differ from what is wanted, if they do.
func (x *varImage) compare(t *pbt.T, img *core.JXLImage, want [3]*jx.RP) string {
	worst := 0.0
	for c, p := range want {
		if x.grey && c != 0 {
			continue // all are alike
		}
		b := img.Buffer[c]
		max := float64(int(1)<<uint(x.m.Depth.Bits) - 1)
		for y := 0; y < x.m.H; y++ {
			for xx := 0; xx < x.m.W; xx++ {
				v, e := p.D[y*p.W+xx], p.E[y*p.W+xx]
				if math.IsNaN(v) {
					continue // an alpha near zero was divided by
				}
				if math.IsNaN(e) {
					e = math.Inf(1)
				}
				g := sampleAt(b, xx, y)
				if b.IsInt() {
					g /= max
				}
				d := math.Abs(g - v)
				if !(d <= e+1e-6) {
					return fmt.Sprintf("channel %d sample (%d,%d): decoded %g, want %g (tolerance %g), in %s", c, xx, y, g, v, e+1e-6, x.blockAt(xx, y))
				}
				worst = math.Max(worst, d/(e+1e-6))
			}
		}
		t.Eval(x.m.W * x.m.H)
	}
	if os.Getenv("WORST") != "" {
		fmt.Println("WORST", worst)
	}
	return ""
}

func (x *varImage) blockAt(px, py int) string {
	if x.f.Modular || x.f.Ups > 0 {
		return "frame"
	}
	for _, l := range x.v.LFBlocks {
		for _, b := range l {
			k := jx.VTs[b.Type]
			if px/8 >= b.X && py/8 >= b.Y && px/8 < b.X+k.Cols/8 && py/8 < b.Y+k.Rows/8 {
				return fmt.Sprintf("block (%d,%d) %s, sample (%d,%d) of it", b.X, b.Y, k.Name, px-b.X*8, py-b.Y*8)
			}
		}
	}
	return "no block"
}

// nonzero counts the HF coefficients.
func (x *varImage) nonzero() (n int) {
	for _, l := range x.v.LFBlocks {
		for _, b := range l {
			for c := range b.Q {
				for _, q := range b.Q[c] {
					if q != 0 {
						n++
					}
				}
			}
		}
	}
	return
}

// c28: custom quantisation tables, coefficient orders and contexts.
func c28(t *pbt.T) {
	w, h := varSize(t)
	x := newVar(t, w, h)
	x.encode(t, jx.VOpts{Matrices: true, Orders: t.Bool(), Contexts: t.Bool()}, plainOpts(x.m.Depth.Bits))
	if x.nonzero() > 10 && (x.feat["tables"] || x.feat["orders"] || x.feat["block-contexts"]) {
		t.NonTrivial()
	}
	img := x.decode(t)
	if d := x.compare(t, img, x.v.Planes(x.v.LFImage())); d != "" {
		t.Failf("%s", d)
	}
}

// c19: coefficients become the samples the format's transforms give.
func c19(t *pbt.T) {
	w, h := varSize(t)
	x := newVar(t, w, h)
	if t.Chance(1, 3) {
		e := genEC(t, 0, x.m.Depth.Bits)
		x.m.ECs = append(x.m.ECs, e)
		x.f.ECUps = make([]int, 1)
		x.f.ECBl = make([]jx.Blend, 1)
		x.m.ECs[0].Shift = 0
	}
	smooth := t.Chance(1, 6)
	if smooth {
		x.f.Flags = 0
	}
	o := jx.VOpts{E: jx.EOpts{}}
	mo := plainOpts(x.m.Depth.Bits)
	if t.Chance(1, 3) {
		for i := 0; i < 3; i++ {
			mo.Dequant = append(mo.Dequant, ToF16([]float64{1.0 / 32, 0.25, 0.5}[i]*(0.3+1.5*t.RNG().Float())))
		}
	}
	x.encode(t, o, mo)
	if x.nonzero() > 10 {
		t.NonTrivial()
	}
	img := x.decode(t)
	raw := x.v.LFImage()
	lf := raw
	if smooth {
		lf = x.v.Smooth(raw)
	}
	diff := x.compare(t, img, x.v.Planes(lf))
	if diff == "" {
		return
	}
	if smooth && x.compare(t, img, x.v.Planes(x.v.SmoothPresent(raw))) == "" {
		t.Known("adaptive-smoothing")
		t.Failf("LF image not smoothed: %s", diff)
	}
	t.Failf("%s", diff)
}
