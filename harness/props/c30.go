package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"

	"github.com/kpfaulkner/jxl-go/core"

	"verif/pbt"
)

func init() { reg("C30", c30) }

func cloneSamples(a [][][]float64) [][][]float64 {
	out := make([][][]float64, len(a))
	for c := range a {
		out[c] = make([][]float64, len(a[c]))
		for y := range a[c] {
			out[c][y] = append([]float64(nil), a[c][y]...)
		}
	}
	return out
}

// c30: edits of and conversions from images and their copies.
func c30(t *pbt.T) {
	first := genOut(t, 24)
	all := []*outImage{first}
	edits := map[*outImage]bool{}
	scale := func(o *outImage, c int) float64 {
		if o.img.Buffer[c].IsInt() {
			d := o.m.Depth
			if nc := o.m.NumColour(); c >= nc {
				d = o.m.ECs[c-nc].Depth
			}
			return float64(uint64(1)<<uint(d.Bits) - 1)
		}
		return 1
	}
	value := func(o *outImage, c int) float64 {
		if o.img.Buffer[c].IsInt() {
			return float64(t.N(int(scale(o, c)) + 1))
		}
		return float64(float32(t.N(4097)) / 4096)
	}
	copied := false
	for step, n := 0, t.Range(3, 12); step < n; step++ {
		k := t.N(len(all))
		o := all[k]
		c := t.N(len(o.img.Buffer))
		b := &o.img.Buffer[c]
		w, h := dims(*b)
		what := ""
		switch op := t.W(4, 3, 4, 1, 4, 2, 2, 1, 1); op {
		case 0, 1: // edit samples, in place or with a new channel
			what = fmt.Sprintf("step %d: editing channel %d of image %d", step, c, k)
			ints, err := o.img.GetIntChannelData(c)
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			floats, err := o.img.GetFloatChannelData(c)
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			isInt := b.IsInt()
			if op == 1 {
				what += " by setting it"
				ni, nf := make([][]int32, h), make([][]float32, h)
				for y := range ni {
					ni[y], nf[y] = make([]int32, w), make([]float32, w)
					if isInt {
						copy(ni[y], ints[y])
					} else {
						copy(nf[y], floats[y])
					}
				}
				ints, floats = ni, nf
			}
			for i := t.Range(1, 6); i > 0; i-- {
				x, y, v := t.N(w), t.N(h), value(o, c)
				if isInt {
					ints[y][x] = int32(v)
				} else {
					floats[y][x] = float32(v)
				}
				o.raw[c][y][x], o.s[c][y][x] = v, v/scale(o, c)
			}
			if op == 1 {
				if isInt {
					err = o.img.SetIntChannelData(c, ints)
				} else {
					err = o.img.SetFloatChannelData(c, floats)
				}
				if err != nil {
					t.Failf("%s: %v", what, err)
				}
			}
			edits[o] = true
			if len(all) > 1 {
				copied = true
			}
		case 2, 3:
			if len(all) >= 4 {
				break
			}
			what = fmt.Sprintf("step %d: copying image %d", step, k)
			img, err := core.NewJXLImageFromJXLImage(o.img, op == 2)
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			n := *o
			n.img, n.s, n.raw = img, cloneSamples(o.s), cloneSamples(o.raw)
			if op == 3 {
				what += " without its samples"
				for c := range n.s {
					for y := range n.s[c] {
						clear(n.s[c][y])
						clear(n.raw[c][y])
					}
				}
			}
			all = append(all, &n)
			if edits[o] {
				edits[&n] = true
			}
		case 4:
			what = fmt.Sprintf("step %d: ToImage of image %d", step, k)
			im, err := o.img.ToImage()
			if err != nil {
				if o.unsupported() {
					break
				}
				t.Failf("%s: %v", what, err)
			}
			o.goImage(t, what, im)
			if edits[o] {
				t.Label("converted-after-edit")
			}
		case 5:
			what = fmt.Sprintf("step %d: ChannelToImage(%d) of image %d", step, c, k)
			im, err := o.img.ChannelToImage(c)
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			if im.Bounds() != image.Rect(0, 0, w, h) {
				t.Failf("%s: bounds %v, channel is %dx%d", what, im.Bounds(), w, h)
			}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					g := int(color.GrayModel.Convert(im.At(x, y)).(color.Gray).Y)
					if !judge(g, o.s[c][y][x], 255, 0.002) {
						t.Failf("%s: pixel (%d,%d) is %d, sample is %v", what, x, y, g, o.s[c][y][x])
					}
				}
			}
		case 6:
			what = fmt.Sprintf("step %d: WritePNG of image %d", step, k)
			var out bytes.Buffer
			if err := new(core.PNGWriter).WritePNG(o.img, &out); err != nil {
				if o.unsupported() {
					break
				}
				t.Failf("%s: %v", what, err)
			}
			o.png(t, out.Bytes())
		case 7:
			what = fmt.Sprintf("step %d: WritePFM of image %d", step, k)
			var out bytes.Buffer
			if err := core.WritePFM(o.img, &out); err != nil {
				t.Failf("%s: %v", what, err)
			}
			o.pfm(t, out.Bytes())
		case 8:
			what = fmt.Sprintf("step %d: asking image %d", step, k)
			o.ask(t, what)
		}
		if what == "" {
			continue
		}
		t.Logf("%s", what)
		for i, p := range all {
			p.unchanged(t, fmt.Sprintf("%s changed image %d:", what, i))
		}
	}
	for i, p := range all {
		p.ask(t, fmt.Sprintf("image %d", i))
	}
	if copied {
		t.Label("edited-with-copies")
		t.NonTrivial()
	}
}

// ask checks what an image says about itself.
func (o *outImage) ask(t *pbt.T, what string) {
	im, m := o.img, o.m
	n := len(m.ECs)
	w, h := o.size()
	if int(im.Width) != w || int(im.Height) != h {
		t.Failf("%s: size %dx%d, want %dx%d", what, im.Width, im.Height, w, h)
	}
	if im.NumExtraChannels() != n {
		t.Failf("%s: %d extra channels, want %d", what, im.NumExtraChannels(), n)
	}
	for i := -2; i < n+3; i++ {
		ty, err := im.GetExtraChannelType(i)
		if i < 0 || i >= n {
			if err == nil {
				t.Failf("%s: extra channel %d of %d has a type", what, i, n)
			}
			continue
		}
		if err != nil || int(ty) != m.ECs[i].Type {
			t.Failf("%s: extra channel %d has type %d (%v), want %d", what, i, ty, err, m.ECs[i].Type)
		}
	}
	if im.HasAlpha() != (o.alpha() >= 0) {
		t.Failf("%s: HasAlpha is %v", what, im.HasAlpha())
	}
	if im.HasICCProfile() != (o.icc != nil && !m.XYB) {
		t.Failf("%s: HasICCProfile is %v", what, im.HasICCProfile())
	}
	if im.IsIntBased() != im.Buffer[0].IsInt() || im.IsFloatBased() == im.IsIntBased() {
		t.Failf("%s: IsIntBased %v, IsFloatBased %v", what, im.IsIntBased(), im.IsFloatBased())
	}
	for _, c := range []int{-1, len(im.Buffer), len(im.Buffer) + 3} {
		_, e1 := im.GetIntChannelData(c)
		_, e2 := im.GetFloatChannelData(c)
		e3 := im.SetIntChannelData(c, nil)
		e4 := im.SetFloatChannelData(c, nil)
		_, e5 := im.ChannelToImage(c)
		for i, e := range []error{e1, e2, e3, e4, e5} {
			if e == nil {
				t.Failf("%s: access %d to channel %d of %d gave no error", what, i, c, len(im.Buffer))
			}
		}
	}
}
