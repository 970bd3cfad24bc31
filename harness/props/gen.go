package props

import (
	"embed"
	"io/fs"
	"sort"

	"verif/jx"
	"verif/pbt"
)

//go:embed corpus
var corpusFS embed.FS

type sample struct {
	name string
	data []byte
}

// corpus holds small files written by other encoders.
var corpus = func() (out []sample) {
	fs.WalkDir(corpusFS, "corpus", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := corpusFS.ReadFile(p)
			out = append(out, sample{d.Name(), b})
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return
}()

// stream is a generated codestream.
type stream struct {
	data []byte
	m    *jx.Meta
	what string
	head int // bytes of the image header, 0: not known
}

// genStream draws a valid codestream of any kind the encoder can write.
func genStream(t *pbt.T, max int) stream {
	feat := map[string]bool{}
	w, h := smallSize(t, max)
	m, f, _, bits := modImage(t, w, h, []int{8, 8, 8, 1, 2, 4, 5, 7, 10, 12, 14, 16})
	if t.Chance(1, 3) {
		m.ExtraFields = true
		m.Orient = t.Range(1, 8)
	}
	f.GroupShift = t.W(3, 1, 1, 1)
	if t.Chance(1, 4) {
		genPasses(t, f)
	}
	nf := 1
	if t.Chance(1, 4) {
		nf = t.Range(2, 3)
	}
	bw := &jx.BW{}
	m.Write(bw)
	o := jx.ModOpts{
		Trans: jx.TransOpts{Depth: bits, Max: 3},
		Tree:  jx.TreeOpts{Bits: bits, AllowMul: true, FixedPred: -1},
		Local: t.Chance(1, 4),
	}
	o.NonDefWP = t.Bool()
	for i := 0; i < nf; i++ {
		fr := *f
		fr.ECBl = append([]jx.Blend(nil), f.ECBl...)
		fr.Last = i == nf-1
		if i > 0 {
			fr.Bl.Mode = []int{jx.BReplace, jx.BAdd}[t.N(2)]
			for k := range fr.ECBl {
				fr.ECBl[k].Mode = fr.Bl.Mode
			}
		}
		if nf > 1 && t.Bool() {
			fr.Crop = true
			fr.W, fr.H = t.Range(1, w+4), t.Range(1, h+4)
			fr.X0, fr.Y0 = t.Range(0, w+4)-4, t.Range(0, h+4)-4
		}
		planes := jx.Planes(m, &fr)
		fillPlanes(t, m, planes)
		secs, _ := jx.EncodeModular(t, m, &fr, planes, o, feat)
		jx.WriteFrame(t, bw, m, &fr, secs, t.Chance(1, 4), feat)
	}
	if nf > 1 {
		feat["frames"] = true
	}
	for k := range feat {
		t.Label(k)
	}
	return stream{bw.B, m, featString(feat), 0}
}

// anyStream draws a codestream, sometimes one from the corpus.
func anyStream(t *pbt.T, max int) stream {
	if t.Chance(1, 8) {
		// the small ones
		var small []sample
		for _, s := range corpus {
			switch s.name {
			case "art.jxl", "bbb-small.jxl", "tiny2.jxl", "white.jxl", "grayscale.jxl":
				small = append(small, s)
			}
		}
		s := small[t.N(len(small))]
		t.Label("corpus-" + s.name)
		return stream{s.data, nil, s.name, 0}
	}
	if t.Chance(1, 3) {
		return varStream(t, max)
	}
	return genStream(t, max)
}
