package props

import (
	"verif/jx"
	"verif/pbt"
)

func init() { reg("C23", c23) }

// c23: frames whose LF image is a frame of its own.
func c23(t *pbt.T) {
	w, h := varSize(t)
	wide := t.Chance(1, 16)
	if wide {
		w, h = t.Range(1025, 1400), t.Range(1, 64)
		if t.Bool() {
			w, h = h, w
		}
	}
	levels := t.W(0, 6, 2, 1)
	x := newVar(t, w, h)
	if wide {
		x.f.GroupShift = 0
	}
	m := x.m
	m.XYB = t.Bool()
	main := x.f
	pics := 1
	if !wide && w*h <= 1<<14 && t.Chance(1, 3) {
		pics = t.Range(2, 3)
		t.Label("several-pictures")
	}
	bw := &jx.BW{}
	m.Write(bw)
	var kept [5]*[3]*jx.RP // LF images by level, as the frames so far left them
	var lf [3]*jx.RP
	rich := 0
	for pic := 0; pic < pics; pic++ {
		top, fromLF := levels, false
		if pic > 0 {
			top = t.W(1, 6, 2, 1)
			for l := 1; l < 5; l++ { // the LF frame of a picture before may serve again
				if kept[l] != nil && t.Chance(1, 3) {
					top, fromLF, lf = l-1, true, *kept[l]
					x.feat["lf-frame-again"] = true
					break
				}
			}
		}
		for l := top; l >= 0; l-- {
			f := main
			if l > 0 || pic > 0 {
				f = jx.NewFHdr(m)
				f.Pick = t.N
				f.GroupShift = t.N(4)
			}
			if l > 0 {
				f.Type, f.LFLevel = jx.FLF, l
				f.Last = false
				f.Modular = t.Bool()
			} else {
				f.Modular = false
				f.Last = pic == pics-1
				if !f.Last {
					f.SaveRef = t.N(4)
				}
			}
			if !f.Modular {
				f.Flags = 0x80
				if fromLF {
					f.Flags = 0x20
					if t.Bool() {
						f.Flags = 0xa0
					}
				}
			} else {
				f.Flags = 0
			}
			f.XQM, f.BQM = t.N(8), t.N(8)
			if !m.XYB {
				f.XQM, f.BQM = 2, 2
			}
			if t.Chance(1, 3) {
				genFilters(t, f, x.feat)
			}
			x.f = f
			y := &varImage{m: m, f: f, feat: x.feat}
			mo := plainOpts(m.Depth.Bits)
			var ps [3]*jx.RP
			if f.Modular {
				x.feat["lf-modular"] = true
				y.bw = bw
				ps = y.encodeModular(t, mo)
				rich++
			} else {
				if l > 0 {
					x.feat["lf-vardct"] = true
				}
				y.bw = bw
				y.encode(t, jx.VOpts{XYB: m.XYB, NoLF: fromLF, Contexts: t.Chance(1, 4)}, mo)
				if y.nonzero() > 3 {
					rich++
				}
				in := lf
				if !fromLF {
					in = y.v.LFImage()
				}
				ps = y.v.Planes(in)
			}
			lf = filters(f, y.v, frameColours(f, ps))
			if l > 0 {
				k := lf
				kept[l] = &k
			}
			fromLF = true
			x.v, x.data, x.ecs = y.v, y.data, y.ecs
		}
	}
	if rich > 1 {
		t.NonTrivial()
	}
	want := lf
	if m.XYB {
		want = defaultOpsin().invert(lf)
	}
	x.check(t, want)
}
