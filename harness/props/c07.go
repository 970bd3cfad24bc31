package props

import (
	"math"

	"github.com/kpfaulkner/jxl-go/image"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C07", c07) }

// orient applies an EXIF orientation to a plane.
func orient(c *jx.Chan, o int) *jx.Chan {
	w, h := c.W, c.H
	if o >= 5 {
		w, h = h, w
	}
	out := jx.NewChan(w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var sx, sy int
			switch o {
			case 1:
				sx, sy = x, y
			case 2: // mirrored left to right
				sx, sy = c.W-1-x, y
			case 3: // rotated by 180 degrees
				sx, sy = c.W-1-x, c.H-1-y
			case 4: // mirrored top to bottom
				sx, sy = x, c.H-1-y
			case 5: // transposed
				sx, sy = y, x
			case 6: // to be rotated 90 degrees clockwise
				sx, sy = y, c.H-1-x
			case 7: // anti-transposed
				sx, sy = c.W-1-y, c.H-1-x
			case 8: // to be rotated 90 degrees anticlockwise
				sx, sy = c.W-1-y, x
			}
			out.Set(x, y, c.At(sx, sy))
		}
	}
	return out
}

// orientBuf applies an EXIF orientation to a decoded channel.
func orientBuf(b image.ImageBuffer, o int) image.ImageBuffer {
	w, h := dims(b)
	c := jx.NewChan(w, h)
	for i := range c.D {
		if b.IsInt() {
			c.D[i] = int64(b.IntBuffer[i/w][i%w])
		} else {
			c.D[i] = int64(math.Float32bits(b.FloatBuffer[i/w][i%w]))
		}
	}
	c = orient(c, o)
	b.Width, b.Height = int32(c.W), int32(c.H)
	ints, floats := make([][]int32, c.H), make([][]float32, c.H)
	for y := range ints {
		ints[y], floats[y] = make([]int32, c.W), make([]float32, c.W)
		for x := range ints[y] {
			ints[y][x], floats[y][x] = int32(c.At(x, y)), math.Float32frombits(uint32(c.At(x, y)))
		}
	}
	if b.IsInt() {
		b.IntBuffer = ints
	} else {
		b.FloatBuffer = floats
	}
	return b
}

// c07Any compares files that differ in nothing but their header's orientation.
func c07Any(t *pbt.T) {
	s := varStream(t, 40)
	m := *s.m
	o := t.Range(1, 8)
	with := func(o int) []byte {
		m.AllDefault, m.ExtraFields, m.Orient = false, true, o
		bw := &jx.BW{}
		m.Write(bw)
		bw.Align()
		return append(bw.B, s.data[s.head:]...)
	}
	a, b := with(1), with(o)
	t.Attach("upright.jxl", a)
	t.Attach("image.jxl", b)
	sig(t, b)
	t.Label("orientation-" + string(rune('0'+o)))
	t.Label("any-samples")
	t.Logf("orientation %d %s", o, s.what)
	x, err := Decode(a)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	y, err := Decode(b)
	if err != nil {
		t.Failf("decoding a valid image of orientation %d failed: %v", o, err)
	}
	if o > 1 {
		t.NonTrivial()
	}
	for c := range x.Buffer {
		x.Buffer[c] = orientBuf(x.Buffer[c], o)
	}
	if o > 4 {
		x.Width, x.Height = x.Height, x.Width
	}
	if d := sameImage(x, y); d != "" {
		t.Failf("the image turned by orientation %d and the one decoded differ: %s", o, d)
	}
	t.Eval(int(x.Width) * int(x.Height) * len(x.Buffer))
}

// c07: the orientation in the header is applied to every channel.
func c07(t *pbt.T) {
	if t.Chance(1, 3) {
		c07Any(t)
		return
	}
	w, h := smallSize(t, 60)
	m, f, _, bits := modImage(t, w, h, []int{8, 8, 8, 1, 5, 10, 12, 16})
	m.ExtraFields = true
	m.Orient = t.Range(1, 8)
	f.GroupShift = 0
	two := t.Chance(1, 6)
	planes := jx.Planes(m, f)
	fillPlanes(t, m, planes)
	feat := map[string]bool{}
	o := plainOpts(bits)
	bw := &jx.BW{}
	var want []*jx.Chan
	m.Write(bw)
	if two { // several frames on one canvas: only the result is turned
		f1 := *f
		f1.Last = false
		f1.Bl.Mode = jx.BReplace
		secs, _ := jx.EncodeModular(t, m, &f1, planes, o, feat)
		jx.WriteFrame(t, bw, m, &f1, secs, false, feat)
		for _, p := range planes {
			for i, j := 0, len(p.D)-1; i < j; i, j = i+1, j-1 {
				p.D[i], p.D[j] = p.D[j], p.D[i]
			}
		}
	}
	secs, w2 := jx.EncodeModular(t, m, f, planes, o, feat)
	jx.WriteFrame(t, bw, m, f, secs, false, feat)
	for _, p := range w2 {
		want = append(want, orient(p, m.Orient))
	}
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Label("orientation-" + string(rune('0'+m.Orient)))
	if two {
		t.Label("two-frames")
	}
	t.Logf("orientation %d", m.Orient)
	describe(t, m, f, data, nil)
	if m.Orient > 1 && anyVaried(want) {
		t.NonTrivial()
	}
	checkModular(t, m, data, want)
}

// plainOpts are encoder options without transforms.
func plainOpts(bits int) jx.ModOpts {
	return jx.ModOpts{
		Trans: jx.TransOpts{Depth: bits, Max: 0, NoSynth: true},
		Tree:  jx.TreeOpts{Bits: bits, AllowMul: false, FixedPred: -1},
	}
}
