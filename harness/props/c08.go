package props

import (
	"verif/jx"
	"verif/pbt"
)

func init() { reg("C08", c08) }

// c08: how a frame is cut into sections does not change the image.
func c08(t *pbt.T) {
	var w, h int
	switch t.W(8, 4, 4, 2, 1) {
	case 0:
		w, h = t.Range(1, 300), t.Range(1, 300)
	case 1:
		w, h = t.Range(100, 700), t.Range(1, 40)
	case 2:
		w, h = t.Range(1, 40), t.Range(100, 700)
	case 3: // more than one LF group
		w, h = t.Range(1025, 1300), t.Range(1, 24)
		if t.Bool() {
			w, h = h, w
		}
	case 4: // many sections
		w, h = t.Range(2000, 6000), t.Range(1, 8)
		if t.Bool() {
			w, h = h, w
		}
	}
	m, f, _, bits := modImage(t, w, h, []int{8, 8, 8, 1, 4, 5, 10, 12, 16})
	if t.Chance(2, 3) {
		f.GroupShift = 0
	}
	genPasses(t, f)
	planes := jx.Planes(m, f)
	fillPlanes(t, m, planes)
	feat := map[string]bool{}
	o := jx.ModOpts{
		Trans: jx.TransOpts{Depth: bits, Max: 3, NoSynth: true},
		Tree:  jx.TreeOpts{Bits: bits, AllowMul: false, FixedPred: -1},
		Local: t.Chance(1, 3),
	}
	if t.Chance(1, 3) {
		o.Trans.Max = 0
	}
	o.NonDefWP = t.Bool()
	secs, want := jx.EncodeModular(t, m, f, planes, o, feat)
	bw := &jx.BW{}
	m.Write(bw)
	jx.WriteFrame(t, bw, m, f, secs, t.Chance(1, 2), feat)
	data := bw.B
	t.Attach("image.jxl", data)
	sig(t, data)
	if f.Passes > 1 {
		feat["passes"] = true
	}
	describe(t, m, f, data, feat)
	if f.Dims().Sections > 1 && anyVaried(want) {
		t.NonTrivial()
	}
	checkModular(t, m, data, want)
}

// genPasses draws a pass structure.
func genPasses(t *pbt.T, f *jx.FHdr) {
	if t.Chance(1, 2) {
		return
	}
	f.Passes = t.Range(2, 5)
	if t.Chance(1, 8) {
		f.Passes = t.Range(6, 11)
	}
	for i := 0; i < f.Passes-1; i++ {
		f.Shifts = append(f.Shifts, t.N(4))
	}
	n := t.N(min(f.Passes, 4))
	ds := 3
	lp := -1
	for i := 0; i < n; i++ {
		// decreasing downsampling, increasing last pass
		ds = t.Range(0, ds)
		if lp+1 > min(7, f.Passes-1) {
			break
		}
		lp = t.Range(lp+1, min(7, f.Passes-1)) // larger ones cannot be coded
		if ds == 0 {
			break
		}
		f.DS = append(f.DS, ds)
		f.LastPass = append(f.LastPass, lp)
		ds--
	}
}
