package jx

import (
	"fmt"
	"math/bits"

	"verif/pbt"
)

// ModOpts guides the encoding of a modular frame.
type ModOpts struct {
	Trans    TransOpts // global transforms
	Local    bool      // allow transforms in group streams
	Tree     TreeOpts
	E        EOpts
	Perm     bool // permute the table of contents
	NoGlobal bool
	LFPrefix func(w *BW) // content of LfGlobal before the dequant bit
	NonDefWP bool
	Dequant  []uint16 // custom LF dequantisation (half floats)
	Var      *VarDCT  // the colours' coefficients, in a VarDCT frame
}

// Planes gives the empty planes of a frame: colours then extra channels.
func Planes(m *Meta, f *FHdr) []*Chan {
	d := f.Dims()
	n := m.FrameColours(f)
	if !f.Modular {
		n = 0
	}
	var out []*Chan
	for i := 0; i < n; i++ {
		c := NewChan(d.W, d.H)
		if f.YCbCr {
			hs, vs := f.Subsampling()
			c = NewChan(CeilDiv(d.W, 1<<uint(hs[i])), CeilDiv(d.H, 1<<uint(vs[i])))
			c.HS, c.VS = hs[i], vs[i]
		}
		out = append(out, c)
	}
	fw, fh := CeilDiv(f.W, 1<<uint(3*f.LFLevel)), CeilDiv(f.H, 1<<uint(3*f.LFLevel))
	for i, e := range m.ECs {
		lg := f.ECUps[i] + e.Shift
		c := NewChan(CeilDiv(fw, 1<<uint(lg)), CeilDiv(fh, 1<<uint(lg)))
		c.HS, c.VS = lg-f.Ups, lg-f.Ups
		out = append(out, c)
	}
	return out
}

// bracket gives the range of channel shifts coded in a pass.
func (f *FHdr) bracket(pass int) (lo, hi int) {
	hi, lo = 2, 3
	for i := 0; ; i++ {
		for j := range f.DS {
			if i == f.LastPass[j] {
				lo = f.DS[j]
			}
		}
		if i == f.Passes-1 {
			lo = 0
		}
		if i == pass {
			return
		}
		hi = lo - 1
	}
}

func genWP(t *pbt.T) WP {
	if t.Chance(2, 3) {
		return DefaultWP
	}
	r := t.RNG()
	p := WP{}
	for i := range p.P {
		p.P[i] = r.N(32)
	}
	for i := range p.Wt {
		p.Wt[i] = r.N(16)
	}
	return p
}

// Sections of a frame, in logical order.
type Sections []*BW

// ModEnc is a modular frame under construction.
type ModEnc struct {
	M        *Meta
	F        *FHdr
	D        Dim
	Global   *Stream
	LF       []*Stream
	Pass     [][]*Stream
	tree     *Tree
	treeC    *Code
	code     *Code
	Feat     map[string]bool
	pick     func(int) int
	base     *ChanList // global list
	places   []place
	Lossless bool
	Quant    bool
	Depth    int
	WPG      WP
}

type place struct {
	ci, x, y int
	st       *Stream
	k        int // channel in the stream's original list
	w, h     int
}

func isBig(c *Chan, gd int) bool { return c.W > gd || c.H > gd }

// EncodeModular encodes planes (modified to hold what a decoder must give).
func EncodeModular(t *pbt.T, m *Meta, f *FHdr, planes []*Chan, o ModOpts, feat map[string]bool) (Sections, []*Chan) {
	e := &ModEnc{M: m, F: f, D: f.Dims(), Feat: feat, pick: m.Pick}
	d := e.D
	depth := o.Trans.Depth
	e.Depth = depth
	list := &ChanList{}
	for _, p := range planes {
		list.C = append(list.C, p.Clone())
	}
	nCh := len(planes)
	var gts []*Transform
	e.Lossless = true
	if o.Trans.Max > 0 {
		gts, e.Lossless = GenTransforms(t, list, o.Trans, feat)
	}
	e.base = list
	numLF := d.LFGroups
	streams := []int{0}
	first := len(list.C)
	for i, c := range list.C {
		if i >= list.Meta && isBig(c, d.GroupDim) {
			first = i
			break
		}
	}
	g := &Stream{Idx: 0, List: list, Trans: gts, WP: DefaultWP}
	if o.NonDefWP {
		g.WP = genWP(t)
	}
	e.Global = g
	for i := 0; i < first; i++ {
		g.Todo = append(g.Todo, i)
	}
	nonEmpty := false
	for _, i := range g.Todo {
		if list.C[i].W > 0 && list.C[i].H > 0 {
			nonEmpty = true
		}
	}
	var groups []*Stream
	mk := func(idx, x0, y0, gd int, take func(s int) bool) *Stream {
		s := &Stream{Idx: idx, List: &ChanList{}, WP: DefaultWP}
		for ci := first; ci < len(list.C); ci++ {
			c := list.C[ci]
			if !take(min(c.HS, c.VS)) {
				continue
			}
			x, y := x0>>uint(c.HS), y0>>uint(c.VS)
			w, h := min(gd>>uint(c.HS), c.W-x), min(gd>>uint(c.VS), c.H-y)
			if w <= 0 || h <= 0 {
				continue
			}
			e.places = append(e.places, place{ci, x, y, s, len(s.List.C), w, h})
			s.List.C = append(s.List.C, c.Crop(x, y, w, h))
		}
		if len(s.List.C) == 0 {
			return nil
		}
		streams = append(streams, idx)
		groups = append(groups, s)
		return s
	}
	for i := 0; i < numLF; i++ {
		e.LF = append(e.LF, mk(1+numLF+i, i%d.LX*d.LFDim, i/d.LX*d.LFDim, d.LFDim, func(s int) bool { return s >= 3 }))
	}
	for p := 0; p < f.Passes; p++ {
		lo, hi := f.bracket(p)
		var row []*Stream
		for i := 0; i < d.Groups; i++ {
			row = append(row, mk(18+3*numLF+d.Groups*p+i, i%d.GX*d.GroupDim, i/d.GX*d.GroupDim, d.GroupDim, func(s int) bool { return s >= lo && s <= hi }))
		}
		e.Pass = append(e.Pass, row)
	}
	if o.Var != nil {
		o.Tree.AllowMul = false
		for _, s := range o.Var.streams(numLF) {
			streams = append(streams, s.Idx)
			groups = append(groups, s)
		}
	}
	// group transforms
	orig := map[*Stream][]*Chan{}
	for _, s := range groups {
		orig[s] = append([]*Chan(nil), s.List.C...)
		if o.Local && len(groups) <= 12 {
			to := o.Trans
			to.NoSynth = true
			to.Max = 2
			for i := range s.List.C {
				s.List.C[i] = s.List.C[i].Clone()
			}
			var ll bool
			s.Trans, ll = GenTransforms(t, s.List, to, feat)
			if !ll {
				t.Internal("lossy local transform")
			}
			if len(s.Trans) > 0 {
				feat["local-transform"] = true
			}
			if o.NonDefWP {
				s.WP = genWP(t)
			}
		}
		for i := range s.List.C {
			s.Todo = append(s.Todo, i)
		}
	}
	// trees
	to := o.Tree
	to.Streams = streams
	to.Channels = max(1, len(list.C))
	to.Dim = 64
	hasGlobal := len(list.C) > 0 && !nonEmpty || !o.NoGlobal && !t.Chance(1, 5)
	if hasGlobal {
		e.tree = GenTree(t, to)
	}
	locals := 0
	assign := func(s *Stream, live bool) {
		s.UseGlobal = hasGlobal && (!live || locals > 6 || t.Chance(3, 4))
		if s.UseGlobal {
			s.Tree = e.tree
			return
		}
		locals++
		feat["local-tree"] = true
		s.Tree = GenTree(t, to)
	}
	assign(g, nonEmpty)
	for _, s := range groups {
		assign(s, true)
	}
	all := append([]*Stream{g}, groups...)
	var gtoks [][]Tok
	var gmult []int
	for _, s := range all {
		if s.Tokenise() {
			e.Quant = true
			feat["quantised"] = true
		}
		if s.UseGlobal {
			s.globalSlot = len(gtoks)
			gtoks = append(gtoks, s.Toks)
			gmult = append(gmult, s.Mult)
		} else if s != g || len(e.base.C) > 0 {
			s.PrepareLocal(t, o.E, feat)
		}
		if s.Tree.UseWP {
			feat["wp"] = true
		}
		if s.Tree.MaxRef > 0 {
			feat["ref-prop"] = true
		}
	}
	if hasGlobal {
		e.treeC = NewCode(t, 6, [][]Tok{e.tree.Tokens()}, []int{0}, o.E)
		e.code = NewCode(t, e.tree.Leaves, gtoks, gmult, o.E)
		for k := range e.code.Feat {
			feat[k] = true
		}
		for k := range e.treeC.Feat {
			feat["tree-"+k] = true
		}
	}
	if len(groups) > 0 {
		feat["groups"] = true
	}
	if d.LFGroups > 1 {
		feat["lfgroups"] = true
	}
	// what the decoder sees
	dec := &ChanList{Meta: list.Meta}
	for i := range list.C {
		if i < first {
			dec.C = append(dec.C, list.C[i].Clone())
		} else {
			c := *list.C[i]
			c.D = make([]int64, len(list.C[i].D))
			dec.C = append(dec.C, &c)
		}
	}
	done := map[*Stream]*ChanList{}
	for _, s := range groups {
		l := &ChanList{Meta: s.List.Meta}
		for _, c := range s.List.C {
			l.C = append(l.C, c.Clone())
		}
		l.Inverse(s.Trans, depth, s.WP)
		if len(l.C) != len(orig[s]) {
			t.Internal("local inverse gives %d channels, want %d", len(l.C), len(orig[s]))
		}
		done[s] = l
	}
	covered := 0
	for _, p := range e.places {
		dec.C[p.ci].Paste(done[p.st].C[p.k], p.x, p.y)
		covered += p.w * p.h
	}
	want := 0
	for i := first; i < len(list.C); i++ {
		want += len(list.C[i].D)
	}
	if covered != want {
		t.Discard("a shift beyond the group size leaves samples uncoded")
	}
	dec.Inverse(gts, depth, g.WP)
	if len(dec.C) != nCh {
		t.Internal("inverse gives %d channels, want %d", len(dec.C), nCh)
	}
	for i := range planes {
		if dec.C[i].W != planes[i].W || dec.C[i].H != planes[i].H {
			t.Internal("plane %d has wrong size", i)
		}
	}
	if e.Lossless && !e.Quant {
		for i := range planes {
			for k := range planes[i].D {
				if planes[i].D[k] != dec.C[i].D[k] {
					t.Internal("reference codec is not lossless: plane %d sample %d: %d != %d (%v)", i, k, dec.C[i].D[k], planes[i].D[k], feat)
				}
			}
		}
		feat["lossless"] = true
	}
	return e.sections(o), dec.C
}

func (e *ModEnc) sections(o ModOpts) Sections {
	var out Sections
	w := &BW{}
	if o.LFPrefix != nil {
		o.LFPrefix(w)
	}
	w.Bool(o.Dequant == nil)
	for _, h := range o.Dequant {
		w.F16(h)
	}
	if o.Var != nil {
		o.Var.writeGlobal(w)
	}
	w.Bool(e.tree != nil)
	if e.tree != nil {
		e.treeC.WriteHeader(w)
		e.treeC.WriteStream(w, 0)
		e.code.WriteHeader(w)
	}
	if len(e.base.C) > 0 {
		e.Global.Write(w, e.code, e.pick)
	}
	out = append(out, w)
	for i, s := range e.LF {
		w := &BW{}
		if o.Var != nil && !o.Var.NoLFCoef {
			w.Bits(uint64(o.Var.Extra[i]), 2)
			o.Var.lfs[i].Write(w, e.code, e.pick)
		}
		if s != nil {
			s.Write(w, e.code, e.pick)
		}
		if o.Var != nil {
			o.Var.writeMeta(w, i, e)
		}
		out = append(out, w)
	}
	w = &BW{}
	if o.Var != nil {
		o.Var.writeHF(w, e)
	}
	out = append(out, w)
	for p, row := range e.Pass {
		for g, s := range row {
			w := &BW{}
			if o.Var != nil {
				o.Var.writeGroup(w, p, g)
			}
			if s != nil {
				s.Write(w, e.code, e.pick)
			}
			out = append(out, w)
		}
	}
	return out
}

// WriteFrame writes frame header, TOC and sections; w must be byte aligned.
func WriteFrame(t *pbt.T, w *BW, m *Meta, f *FHdr, secs Sections, permute bool, feat map[string]bool) {
	// known decoders lose one bit of the header of an edge preserving filter;
	// this stays unnoticed as the table of contents starts at a whole byte,
	// unless the bit is the byte's only one
	lost := !f.AllDefault && !f.LF.AllDefault && f.LF.EPF > 0 && !f.LF.WeightCustom && !f.LF.SigmaCustom
	if lost {
		permute = false
		for try := 0; ; try++ {
			b := &BW{B: append([]byte(nil), w.B...), n: w.n}
			f.Write(b, m)
			if (b.n+1)%8 != 1 {
				*w = *b
				break
			}
			if try > 4 {
				if f.Name == "" {
					f.Name = "x"
				} else {
					f.Name = ""
				}
			}
		}
	} else {
		f.Write(w, m)
	}
	d := f.Dims()
	if d.Sections == 1 {
		all := &BW{}
		for _, s := range secs {
			all.AppendBW(s)
		}
		secs = Sections{all}
	}
	if len(secs) != d.Sections {
		t.Internal("%d sections, want %d", len(secs), d.Sections)
	}
	n := len(secs)
	var blobs [][]byte
	for si, s := range secs {
		s.Align()
		if t.Chance(1, 60) { // bytes that nothing reads
			for n := t.Range(1, 5); n > 0; n-- {
				s.Bits(uint64(t.N(256)), 8)
			}
			feat["long-section"] = true
		} else if len(s.B) > 0 {
			if r, ok := fault("short-section"); ok {
				n := len(s.B)
				s.B = s.B[:len(s.B)-1-int(r)%min(3, len(s.B))]
				t.Logf("section %d of %d, %d bytes of %d", si, len(secs), len(s.B), n)
			}
		}
		blobs = append(blobs, s.B)
	}
	var perm []int
	if permute {
		perm = make([]int, n)
		for i := range perm {
			perm[i] = i
		}
		r := t.RNG()
		switch t.N(3) {
		case 0:
			for i := n - 1; i > 0; i-- {
				j := r.N(i + 1)
				perm[i], perm[j] = perm[j], perm[i]
			}
		case 1:
			if n > 1 {
				i := r.N(n - 1)
				perm[i], perm[i+1] = perm[i+1], perm[i]
			}
		case 2:
			k := r.N(n)
			for i := range perm {
				perm[i] = (i + k) % n
			}
		}
		feat["toc-perm"] = true
	}
	w.Bool(perm != nil)
	phys := blobs
	if perm != nil {
		phys = make([][]byte, n)
		for i, p := range perm {
			phys[p] = blobs[i]
		}
		WritePermutation(t, w, perm, 0)
	}
	w.Align()
	for _, b := range phys {
		w.U32(uint32(len(b)), nil, U32d{0, 10}, U32d{1024, 14}, U32d{17408, 22}, U32d{4211712, 30})
	}
	w.Align()
	for _, b := range phys {
		for _, c := range b {
			w.Bits(uint64(c), 8)
		}
	}
}

// Lehmer is the code of a permutation: for each item the number of smaller
// ones after it, counted with a Fenwick tree.
func Lehmer(perm []int, skip int) []uint32 {
	n := len(perm)
	out := make([]uint32, n)
	tree := make([]int, n+1)
	for i := n - 1; i >= 0; i-- {
		k := 0
		for j := perm[i]; j > 0; j -= j & -j {
			k += tree[j]
		}
		out[i] = uint32(k)
		for j := perm[i] + 1; j <= n; j += j & -j {
			tree[j]++
		}
	}
	return out
}

func permCtx(v uint32) int { return min(7, bits.Len32(v)) }

// PermToks are the tokens of a permutation that fixes the first skip items.
func PermToks(r *pbt.RNG, perm []int, skip int) []Tok {
	l := Lehmer(perm, skip)
	end := len(perm)
	for end > skip && l[end-1] == 0 {
		end--
	}
	if end < len(perm) && r.N(4) == 0 {
		end += r.N(len(perm) - end + 1)
	}
	toks := []Tok{{permCtx(uint32(len(perm))), uint32(end - skip)}}
	prev := uint32(0)
	for i := skip; i < end; i++ {
		if r, ok := fault("permutation"); ok {
			l[i] = uint32(len(perm)-i) + r%1000
		}
		toks = append(toks, Tok{permCtx(prev), l[i]})
		prev = l[i]
	}
	return toks
}

// WritePermutation writes a permutation with its own entropy code.
func WritePermutation(t *pbt.T, w *BW, perm []int, skip int) {
	toks := PermToks(t.RNG(), perm, skip)
	c := NewCode(t, 8, [][]Tok{toks}, []int{0}, EOpts{})
	c.WriteHeader(w)
	c.WriteStream(w, 0)
}

// FeatList renders the features of a case.
func FeatList(feat map[string]bool) string {
	s := ""
	for k := range feat {
		s += k + " "
	}
	return fmt.Sprint(s)
}
