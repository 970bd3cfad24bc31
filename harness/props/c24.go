package props

import (
	"verif/jx"
	"verif/pbt"
)

func init() { reg("C24", c24) }

// c24: what the decoder cannot do and what cannot be right is refused.
func c24(t *pbt.T) {
	if t.Chance(1, 3) {
		c24Features(t)
		return
	}
	kinds := []string{"ans-state", "predictor", "begin", "count", "transform", "permutation", "short-section", "nonzeros", "block-type", "block-place", "sharpness",
		"alphabet", "histogram", "same-peaks", "prefix-code", "cluster-hole", "hybrid"}
	kind := kinds[t.W(5, 2, 2, 2, 1, 2, 4, 3, 2, 3, 2, 3, 3, 1, 3, 3, 1)]
	t.Label(kind)
	fl := &jx.Fault{Kind: kind, R: uint32(t.Bits(32))}
	if kind == "ans-state" || kind == "short-section" || kind == "predictor" || kind == "permutation" {
		fl.Skip = t.N([]int{1, 4, 12, 40}[t.N(4)])
	} else {
		fl.Skip = t.N([]int{1, 2, 6, 60}[t.N(4)])
	}
	jx.TheFault = fl
	defer func() { jx.TheFault = nil }()
	var data []byte
	vd := t.Chance(1, 3)
	switch kind {
	case "nonzeros", "block-type", "block-place", "sharpness":
		vd = true
	case "begin", "count", "transform":
		vd = false
	}
	if vd {
		w, h := t.Range(1, 90), t.Range(1, 90)
		if t.Chance(1, 8) {
			w, h = t.Range(200, 400), t.Range(1, 300)
		}
		x := newVar(t, w, h)
		x.m.XYB = t.Bool()
		if kind == "sharpness" && !x.f.AllDefault && !x.f.LF.AllDefault && x.f.LF.EPF == 0 {
			t.Discard("the filter that uses it is off")
		}
		x.encode(t, jx.VOpts{XYB: x.m.XYB, Contexts: t.Chance(1, 4)}, plainOpts(x.m.Depth.Bits))
		data = x.data
	} else {
		data = genStream(t, 300).data
	}
	if !fl.Hit {
		t.Discard("no occasion for the error")
	}
	t.NonTrivial()
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("error %s", kind)
	img, err := Decode(data)
	if err == nil {
		t.Failf("an image with a wrong %s was decoded without an error (%v)", kind, img != nil)
	}
}

// c24Features: features that are not implemented.
func c24Features(t *pbt.T) {
	w, h := smallSize(t, 60)
	m, f, _, bits := modImage(t, w, h, []int{8, 8, 10, 12, 16})
	feature := []string{"patches", "splines", "noise", "animation", "preview", "lf-frame"}[t.N(6)]
	t.Label(feature)
	o := plainOpts(bits)
	bw := &jx.BW{}
	feat := map[string]bool{}
	exact := false // or the image without the feature
	switch feature {
	case "patches":
		f.Flags |= 2
	case "splines":
		f.Flags |= 16
	case "noise":
		f.Flags |= 1
		if t.Bool() { // with its parameters, strong enough to be seen
			o.LFPrefix = func(w *jx.BW) {
				for i := 0; i < 8; i++ {
					w.Bits(uint64(t.Range(200, 1023)), 10)
				}
			}
		}
	case "animation":
		m.ExtraFields = true
		m.HaveAnim = true
		m.AnimNum, m.AnimDen = uint32(t.Range(1, 1000)), uint32(t.Range(1, 200))
		m.AnimLoops = uint32(t.N(8))
		m.AnimTC = t.Bool()
		f.Duration = uint32(t.N(300))
		f.Timecode = uint32(t.Bits(32))
		exact = true
	case "preview":
		m.ExtraFields = true
		m.HavePreview = true
		m.PrevW, m.PrevH = t.Range(1, 60), t.Range(1, 60)
		exact = true
	case "lf-frame":
		f.Modular = false
		f.Flags |= 32 | 128
	}
	m.Write(bw)
	if feature == "preview" {
		pm := *m
		pm.W, pm.H = m.PrevW, m.PrevH
		pf := jx.NewFHdr(&pm)
		pf.Pick = t.N
		ps := jx.Planes(&pm, pf)
		fillPlanes(t, &pm, ps)
		secs, _ := jx.EncodeModular(t, &pm, pf, ps, plainOpts(bits), feat)
		jx.WriteFrame(t, bw, &pm, pf, secs, false, feat)
	}
	var data []byte
	var want []*jx.Chan
	if feature == "lf-frame" {
		x := &varImage{m: m, f: f, feat: feat, bw: bw}
		x.encode(t, jx.VOpts{NoLF: true}, o)
		data = x.data
	} else {
		planes := jx.Planes(m, f)
		fillPlanes(t, m, planes)
		secs, dec := jx.EncodeModular(t, m, f, planes, o, feat)
		want = dec
		jx.WriteFrame(t, bw, m, f, secs, false, feat)
		data = bw.B
	}
	t.NonTrivial()
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("feature %s", feature)
	img, err := Decode(data)
	if err != nil {
		return
	}
	if !exact {
		t.Failf("an image with %s was decoded without an error (%v)", feature, img != nil)
	}
	checkModular(t, m, data, want)
}
