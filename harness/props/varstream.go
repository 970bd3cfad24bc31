package props

import (
	"verif/jx"
	"verif/pbt"
)

// varStream draws a codestream of lossy coding's kinds: VarDCT frames and
// modular ones, XYB, YCbCr or plain colours, filters, upsampling, LF frames,
// several frames.
func varStream(t *pbt.T, max int) stream {
	w, h := t.Range(1, max), t.Range(1, max)
	x := newVar(t, w, h)
	m := x.m
	feat := x.feat
	feat["var-stream"] = true
	if t.Chance(1, 3) {
		m.ExtraFields = true
		m.Orient = t.Range(1, 8)
	}
	ycc := false
	switch t.W(2, 2, 2) {
	case 0:
		m.XYB = true
	case 1:
		ycc = true
	}
	if t.Chance(1, 3) {
		m.ECs = append(m.ECs, genEC(t, 0, m.Depth.Bits))
	}
	ups := 0
	if t.Chance(1, 6) {
		ups = t.Range(1, 3)
		feat["upsampled"] = true
	}
	nf := t.W(0, 5, 1)
	levels := 0
	if nf == 1 && ups == 0 && !ycc && t.Chance(1, 6) {
		levels = t.Range(1, 2)
		feat["lf-frame"] = true
	}
	bw := &jx.BW{}
	m.Write(bw)
	bw.Align()
	head := len(bw.B)
	frame := func(prep func(f *jx.FHdr), below bool) {
		f := jx.NewFHdr(m)
		f.Pick = t.N
		f.GroupShift = t.N(4)
		f.YCbCr = ycc
		if ycc && t.Bool() && ups == 0 {
			f.JpegUps = [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {1, 0, 1}}[t.N(4)]
			feat["subsampled"] = true
		}
		f.Ups = ups
		for i := range m.ECs {
			f.ECUps[i] = ups
		}
		f.Modular = t.Chance(1, 3)
		f.XQM, f.BQM = 2, 2
		if m.XYB {
			f.XQM, f.BQM = t.N(8), t.N(8)
		}
		prep(f)
		if !f.Modular {
			feat["vardct"] = true
			f.Passes = t.W(0, 4, 1, 1)
			for i := 1; i < f.Passes; i++ {
				f.Shifts = append(f.Shifts, t.N(4))
			}
			f.Flags = 0x80
			if below {
				f.Flags = 0xa0
			} else if !ycc && t.Bool() {
				feat["lf-smoothing"] = true
				f.Flags = 0
			}
		}
		if t.Bool() {
			genFilters(t, f, feat)
		}
		y := &varImage{m: m, f: f, feat: feat, bw: bw}
		mo := plainOpts(m.Depth.Bits)
		if f.Modular {
			y.encodeModular(t, mo)
			return
		}
		o := jx.VOpts{XYB: m.XYB, NoLF: below, Amp: []float64{0.1, 0.5, 1}[t.N(3)]}
		if t.Chance(1, 4) {
			o.Matrices, o.Contexts, o.Orders = t.Bool(), t.Bool(), t.Bool()
		}
		y.encode(t, o, mo)
	}
	for l := levels; l > 0; l-- {
		frame(func(f *jx.FHdr) {
			f.Type, f.LFLevel, f.Last = jx.FLF, l, false
			f.Ups = 0
		}, l < levels)
	}
	for i := 0; i < nf; i++ {
		frame(func(f *jx.FHdr) {
			f.Last = i == nf-1
			if levels > 0 {
				f.Modular = false
			}
			if i > 0 {
				f.Bl.Mode = []int{jx.BReplace, jx.BAdd}[t.N(2)]
				for k := range f.ECBl {
					f.ECBl[k].Mode = f.Bl.Mode
				}
			}
			if nf > 1 && t.Bool() && ups == 0 {
				f.Crop = true
				f.W, f.H = t.Range(1, w+4), t.Range(1, h+4)
				f.X0, f.Y0 = t.Range(0, w+4)-4, t.Range(0, h+4)-4
			}
		}, levels > 0)
	}
	if nf > 1 {
		feat["frames"] = true
	}
	for k := range feat {
		t.Label(k)
	}
	return stream{bw.B, m, featString(feat), head}
}
