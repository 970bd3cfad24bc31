package props

import (
	"fmt"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C03", c03) }

// modImage draws a modular image, its frame header and content.
func modImage(t *pbt.T, w, h int, depths []int) (*jx.Meta, *jx.FHdr, []*jx.Chan, int) {
	bits := depths[t.N(len(depths))]
	if len(depths) > 8 && t.Chance(1, 6) {
		bits = t.Range(1, 16)
	}
	m := jx.DefaultMeta(w, h)
	m.Depth.Bits = bits
	m.Mod16 = bits <= 12
	m.Pick = t.N
	if t.Chance(1, 4) {
		m.Colour.Space = 1
	}
	nec := t.W(5, 3, 2, 1)
	if w*h <= 48 && t.Chance(1, 25) {
		nec = t.Range(60, 250)
		t.Label("many-channels")
	}
	for i := 0; i < nec; i++ {
		m.ECs = append(m.ECs, genEC(t, i, bits))
	}
	f := jx.NewFHdr(m)
	f.Pick = t.N
	f.GroupShift = t.N(4)
	if t.Chance(1, 10) {
		t.Label("extensions")
		m.Exts = jx.GenExts(t, 300)
		f.Exts = jx.GenExts(t, 300)
		f.LF.Exts = jx.GenExts(t, 300)
	}
	return m, f, nil, bits
}

// fillPlanes draws content, sometimes correlated between channels.
func fillPlanes(t *pbt.T, m *jx.Meta, planes []*jx.Chan) {
	nc := m.NumColour()
	for i, p := range planes {
		b := m.Depth.Bits
		if i >= nc {
			b = m.ECs[i-nc].Depth.Bits
		}
		if i > 0 && t.Chance(1, 3) && planes[i-1].W == p.W && planes[i-1].H == p.H {
			r := t.RNG()
			for k := range p.D {
				p.D[k] = clamp(planes[i-1].D[k]+int64(r.N(5))-2, 0, 1<<uint(b)-1)
			}
			continue
		}
		fill(t, p, b)
	}
}

// checkModular decodes data and compares every channel with want.
func checkModular(t *pbt.T, m *jx.Meta, data []byte, want []*jx.Chan) {
	img, err := Decode(data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	if img == nil {
		t.Failf("decoder returned neither an image nor an error")
	}
	if len(img.Buffer) != len(want) {
		t.Failf("%d channels decoded, want %d", len(img.Buffer), len(want))
	}
	nc := m.NumColour()
	for i, p := range want {
		b := m.Depth.Bits
		if i >= nc {
			b = m.ECs[i-nc].Depth.Bits
		}
		checkPlane(t, fmt.Sprintf("channel %d", i), img.Buffer[i], p, 1<<uint(b)-1)
	}
}

func describe(t *pbt.T, m *jx.Meta, f *jx.FHdr, data []byte, feat map[string]bool) {
	for k := range feat {
		t.Label(k)
	}
	t.Logf("%dx%d %d bits, %d colours, %d extra, group shift %d, %d passes, %d bytes, features: %s", m.W, m.H, m.Depth.Bits, m.NumColour(), len(m.ECs), f.GroupShift, f.Passes, len(data), featString(feat))
}

// c03: reversible transforms are undone exactly.
func c03(t *pbt.T) {
	w, h := smallSize(t, 70)
	m, f, _, bits := modImage(t, w, h, []int{8, 8, 8, 1, 2, 3, 4, 5, 7, 10, 12, 14, 16, 16})
	planes := jx.Planes(m, f)
	fillPlanes(t, m, planes)
	feat := map[string]bool{}
	o := jx.ModOpts{
		Trans: jx.TransOpts{Depth: bits, Max: 4},
		Tree:  jx.TreeOpts{Bits: bits, AllowMul: true, FixedPred: -1},
	}
	o.NonDefWP = t.Bool()
	secs, want := jx.EncodeModular(t, m, f, planes, o, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, false, feat)
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	describe(t, m, f, data, feat)
	for k := range feat {
		if (len(k) > 3 && (k[:3] == "rct" || k[:3] == "pal" || k[:3] == "squ")) && anyVaried(want) {
			t.NonTrivial()
			break
		}
	}
	checkModular(t, m, data, want)
}
