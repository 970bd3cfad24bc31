package props

import (
	"fmt"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C01", c01) }

// smallSize draws dimensions with few samples.
func smallSize(t *pbt.T, max int) (int, int) {
	switch t.W(3, 2, 2, 1) {
	case 0:
		return t.Range(1, min(16, max)), t.Range(1, min(16, max))
	case 1:
		return t.Range(1, max), t.Range(1, min(8, max))
	case 2:
		return t.Range(1, min(8, max)), t.Range(1, max)
	}
	return t.Range(1, max), t.Range(1, max)
}

// c01: integer modular images decode to exactly what was encoded.
func c01(t *pbt.T) {
	bits := []int{8, 8, 8, 1, 2, 4, 5, 7, 10, 12, 14, 16, t.Range(1, 16)}[t.N(13)]
	w, h := smallSize(t, 70)
	m := jx.DefaultMeta(w, h)
	m.Depth.Bits = bits
	m.Mod16 = bits <= 12
	m.Pick = t.N
	if t.Chance(1, 3) {
		m.Colour.Space = 1
	}
	nec := t.W(5, 2, 1)
	for i := 0; i < nec; i++ {
		m.ECs = append(m.ECs, genEC(t, i, bits))
	}
	f := jx.NewFHdr(m)
	f.Pick = t.N
	f.GroupShift = t.N(4)
	planes := jx.Planes(m, f)
	nc := m.NumColour()
	for i, p := range planes {
		b := bits
		if i >= nc {
			b = m.ECs[i-nc].Depth.Bits
		}
		fill(t, p, b)
	}
	feat := map[string]bool{}
	o := jx.ModOpts{
		Trans: jx.TransOpts{Depth: bits, Max: 0, NoSynth: true},
		Tree:  jx.TreeOpts{Bits: bits, AllowMul: false, FixedPred: -1},
		E:     jx.EOpts{},
	}
	o.NonDefWP = t.Bool()
	secs, want := jx.EncodeModular(t, m, f, planes, o, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, false, feat)
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	if anyVaried(planes) {
		t.NonTrivial()
	}
	for k := range feat {
		t.Label(k)
	}
	t.Logf("%dx%d %d bits, %d colours, %d extra, group shift %d, %d bytes, features: %s", w, h, bits, nc, nec, f.GroupShift, len(data), featString(feat))
	img, err := Decode(data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	if img == nil {
		t.Failf("decoder returned neither an image nor an error")
	}
	if len(img.Buffer) != len(want) {
		t.Failf("%d channels decoded, want %d", len(img.Buffer), len(want))
	}
	for i, p := range want {
		b := bits
		if i >= nc {
			b = m.ECs[i-nc].Depth.Bits
		}
		checkPlane(t, fmt.Sprintf("channel %d", i), img.Buffer[i], p, 1<<uint(b)-1)
	}
}

func genEC(t *pbt.T, i, bits int) jx.EC {
	e := jx.EC{Type: []int{jx.ECDepth, jx.ECAlpha, jx.ECSpot, jx.ECSelMask, jx.ECBlack, jx.ECThermal, jx.ECOptional}[t.N(7)], Depth: jx.BitDepth{Bits: bits}}
	if t.Chance(1, 3) {
		e.Depth.Bits = []int{8, 1, 4, 10, 16, t.Range(1, 16)}[t.N(6)]
	}
	if t.Chance(1, 4) {
		e.Name = "chan"
	}
	return e
}
