package props

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C31", c31) }

// genDepth draws any sample format the header can name.
func genDepth(t *pbt.T) jx.BitDepth {
	if t.Chance(1, 4) {
		return jx.BitDepth{Bits: t.Range(17, 31)}
	}
	d := jx.BitDepth{Float: true}
	if t.Bool() {
		c := floatDepths[t.N(len(floatDepths))]
		d.Bits, d.Exp = c[0], c[1]
	} else {
		d.Exp = t.Range(2, 8)
		d.Bits = d.Exp + 1 + t.Range(2, 23)
	}
	return d
}

// fillBits fills p with any samples a format has.
func fillBits(t *pbt.T, p *jx.Chan, d jx.BitDepth) {
	r := t.RNG()
	if d.Float && t.Chance(1, 3) {
		fillFloat(t, p, d)
		return
	}
	kind := t.N(4)
	last := int64(0)
	for i := range p.D {
		v := int64(r.Next() & (1<<uint(d.Bits) - 1))
		switch kind {
		case 1: // close to the one before
			v = (last + int64(r.N(9)) - 4) & (1<<uint(d.Bits) - 1)
		case 2: // few bits set
			v = 1 << uint(r.N(d.Bits))
			if r.N(3) == 0 {
				v = 1<<uint(d.Bits) - 1 ^ v
			}
		case 3:
			if r.N(4) != 0 {
				v = last
			}
		}
		last = v
		if d.Bits == 32 {
			v = int64(int32(uint32(v)))
		}
		p.D[i] = v
	}
}

// c31: samples of more than 16 bits and floating point samples are decoded exactly.
func c31(t *pbt.T) {
	w, h := smallSize(t, 60)
	if t.Chance(1, 40) {
		w, h = t.Range(100, 300), t.Range(100, 300)
	}
	m := jx.DefaultMeta(w, h)
	m.Mod16 = false
	m.Pick = t.N
	m.Depth = genDepth(t)
	if t.Chance(1, 5) {
		m.Depth = jx.BitDepth{Bits: 8}
	}
	if t.Chance(1, 3) {
		m.Colour.Space = 1
	}
	for i, n := 0, t.W(4, 3, 1); i < n; i++ {
		e := genEC(t, i, 8)
		if t.Chance(2, 3) {
			e.Depth = genDepth(t)
		}
		m.ECs = append(m.ECs, e)
	}
	f := jx.NewFHdr(m)
	f.Pick = t.N
	f.GroupShift = t.N(4)
	planes := jx.Planes(m, f)
	nc := m.NumColour()
	depth := func(i int) jx.BitDepth {
		if i < nc {
			return m.Depth
		}
		return m.ECs[i-nc].Depth
	}
	for i, p := range planes {
		fillBits(t, p, depth(i))
	}
	feat := map[string]bool{}
	o := jx.ModOpts{
		Trans: jx.TransOpts{Depth: 8, Max: 0, NoSynth: true},
		Tree:  jx.TreeOpts{Bits: 30, FixedPred: -1, Wide: true},
	}
	secs, _ := jx.EncodeModular(t, m, f, planes, o, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, false, feat)
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("%dx%d %+v, extra channels %+v, %d bytes, features: %s", w, h, m.Depth, m.ECs, len(data), featString(feat))
	img, err := Decode(data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	if len(img.Buffer) != len(planes) {
		t.Failf("%d channels decoded, want %d", len(img.Buffer), len(planes))
	}
	for i, p := range planes {
		d := depth(i)
		b := img.Buffer[i]
		bw, bh := dims(b)
		if bw != w || bh != h {
			t.Failf("channel %d is %dx%d, want %dx%d", i, bw, bh, w, h)
		}
		if b.IsFloat() != d.Float {
			t.Failf("channel %d with samples of %+v is decoded as float: %v", i, d, b.IsFloat())
		}
		kind := fmt.Sprintf("int-%d", (d.Bits+7)/8*8)
		if d.Float {
			kind = fmt.Sprintf("float-exp%d", d.Exp)
		}
		t.Label(kind)
		if d.Bits > 8 && !constant(p) {
			t.NonTrivial()
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				v := p.At(x, y)
				if !d.Float {
					if int64(b.IntBuffer[y][x]) != v {
						t.Failf("channel %d, sample (%d,%d) of %d bits: decoded %d, encoded %d", i, x, y, d.Bits, b.IntBuffer[y][x], v)
					}
					continue
				}
				g := b.FloatBuffer[y][x]
				if d.Exp == 8 && v>>uint(d.Bits-9)&255 == 255 {
					// not finite: only 32 bits have these in all decoders
					if d.Bits == 32 && math.Float32bits(g) != uint32(v) && !(g != g && v&(1<<23-1) != 0) {
						t.Failf("channel %d, sample (%d,%d): decoded %v, encoded bits %#x", i, x, y, g, uint32(v))
					}
					continue
				}
				want := floatValue(v, d)
				if float64(g) != want || math.Signbit(float64(g)) != math.Signbit(want) {
					t.Failf("channel %d, sample (%d,%d) of %d bits with %d exponent bits: decoded %v, encoded bits %#x are %v", i, x, y, d.Bits, d.Exp, g, v, want)
				}
			}
		}
		t.Eval(w * h)
	}
}
