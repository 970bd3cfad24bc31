package jx

import (
	"fmt"
	"math"
	"sort"

	"verif/pbt"
)

// Transform methods.
const (
	mDCT = iota
	mHornuss
	mDCT2
	mDCT4
	mDCT8x4
	mDCT4x8
	mAFV
)

// VT is a kind of variable block: rows x cols samples.
type VT struct {
	Rows, Cols, Order, Param, Method, Kind int
	Name                                   string
}

// VTs are the 27 kinds by number.
var VTs = []VT{
	{8, 8, 0, 0, mDCT, 0, "8x8"}, {8, 8, 1, 1, mHornuss, 0, "hornuss"}, {8, 8, 1, 2, mDCT2, 0, "dct2"}, {8, 8, 1, 3, mDCT4, 0, "dct4"},
	{16, 16, 2, 4, mDCT, 0, "16x16"}, {32, 32, 3, 5, mDCT, 0, "32x32"}, {16, 8, 4, 6, mDCT, 0, "16x8"}, {8, 16, 4, 6, mDCT, 0, "8x16"},
	{32, 8, 5, 7, mDCT, 0, "32x8"}, {8, 32, 5, 7, mDCT, 0, "8x32"}, {32, 16, 6, 8, mDCT, 0, "32x16"}, {16, 32, 6, 8, mDCT, 0, "16x32"},
	{8, 8, 1, 9, mDCT4x8, 0, "4x8"}, {8, 8, 1, 9, mDCT8x4, 0, "8x4"},
	{8, 8, 1, 10, mAFV, 0, "afv0"}, {8, 8, 1, 10, mAFV, 1, "afv1"}, {8, 8, 1, 10, mAFV, 2, "afv2"}, {8, 8, 1, 10, mAFV, 3, "afv3"},
	{64, 64, 7, 11, mDCT, 0, "64x64"}, {64, 32, 8, 12, mDCT, 0, "64x32"}, {32, 64, 8, 12, mDCT, 0, "32x64"},
	{128, 128, 9, 13, mDCT, 0, "128x128"}, {128, 64, 10, 14, mDCT, 0, "128x64"}, {64, 128, 10, 14, mDCT, 0, "64x128"},
	{256, 256, 11, 15, mDCT, 0, "256x256"}, {256, 128, 12, 16, mDCT, 0, "256x128"}, {128, 256, 12, 16, mDCT, 0, "128x256"},
}

// layout gives rows and columns of the coefficients as they are stored.
func (v *VT) layout() (rows, cols int) { return min(v.Rows, v.Cols), max(v.Rows, v.Cols) }

// flip: the coefficients are stored with rows for horizontal frequencies.
func (v *VT) flip() bool { return v.Method == mDCT && v.Rows >= v.Cols }

// orderDims are the layout dimensions (rows, cols) of the 13 orders.
var orderDims = func() (d [13][2]int) {
	for i := range VTs {
		r, c := VTs[i].layout()
		d[VTs[i].Order] = [2]int{r, c}
	}
	return
}()

var paramDims = func() (d [17][2]int) {
	for i := range VTs {
		r, c := VTs[i].layout()
		d[VTs[i].Param] = [2]int{r, c}
	}
	return
}()

var natCache = map[int][]int{}

// natural gives the natural order of coefficients: the first ones are the
// low frequencies that come from the LF image, then diagonals.
func natural(order int) []int {
	if o := natCache[order]; o != nil {
		return o
	}
	rows, cols := orderDims[order][0], orderDims[order][1]
	cy, cx := rows/8, cols/8
	xs := cx / cy
	out := make([]int, rows*cols)
	cur := cx * cy
	put := func(x, y int) {
		if y%xs != 0 {
			return
		}
		y /= xs
		if x < cx && y < cy {
			out[y*cx+x] = y*cols + x
			return
		}
		out[cur] = y*cols + x
		cur++
	}
	n := cols
	for i := 0; i < n; i++ {
		for j := 0; j <= i; j++ {
			x, y := j, i-j
			if i%2 == 1 {
				x, y = y, x
			}
			put(x, y)
		}
	}
	for i := n - 2; i >= 0; i-- {
		for j := 0; j <= i; j++ {
			x, y := n-1-(i-j), n-1-j
			if i%2 == 1 {
				x, y = y, x
			}
			put(x, y)
		}
	}
	natCache[order] = out
	return out
}

// VBlk is a variable block; X, Y in units of 8 samples within the frame.
type VBlk struct {
	X, Y, Type, Mul int
	Group           int
	Q               [3][]int64 // sums over the passes, by layout position
}

// VPass are the tokens of one pass.
type VPass struct {
	used  int
	perm  [13][3][]int
	toks  [][]Tok
	permC *Code
	permT [][]Tok
	code  *Code
}

// VDeq is one quantisation table encoding.
type VDeq struct {
	Mode  int
	P     [3][]uint16 // parameters as half floats
	D, D4 [3][]uint16 // band parameters
	Den   uint16
	Raw   *Stream
}

// VarDCT holds the coded form of a frame's colours.
type VarDCT struct {
	M            *Meta
	F            *FHdr
	D            Dim
	HS, VS       [3]int // subsampling shifts of the channels
	BW, BH       int    // frame size in blocks
	GS, QLF      int
	LFDeq        [3]float64
	BCDefault    bool
	LFT          [3][]int
	QFT          []int
	cmap         *ClusterMap
	Map          []int
	NCl          int
	CorrDefault  bool
	CF           int
	BaseX, BaseB uint16
	XLF, BLF     int
	Extra        []int
	LFQ          [3]*Chan
	XFY, BFY     *Chan
	Sharp        *Chan
	QF           *Chan // multiplier by block
	LFBlocks     [][]*VBlk
	lfs, metas   []*Stream
	Presets      int
	preset       [][]int // by pass and group
	passes       []*VPass
	deq          []*VDeq // nil: all default
	mats         [17][3][]float64
	QBias        [3]float64
	QNum         float64
	NoLFCoef     bool // the LF image comes from elsewhere
}

// VOpts guides generation.
type VOpts struct {
	Types     []int
	Matrices  bool // custom quantisation tables
	Orders    bool
	Contexts  bool // custom block contexts
	Amp       float64
	BigBlocks bool
	E         EOpts
	XYB       bool
	NoLF      bool // the LF image is another frame
	Grey      bool // colours without any chroma
	FlatLF    bool // the LF image has one colour
}

var blockCtxDefault = []int{0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14}

// lfSize gives the part of the block grid in LF group i.
func (v *VarDCT) lfRect(i int) (x, y, w, h int) {
	x, y = i%v.D.LX*256, i/v.D.LX*256
	return x, y, min(256, v.BW-x), min(256, v.BH-y)
}

// Shifts of the channels of a frame.
func (f *FHdr) Subsampling() (hs, vs [3]int) {
	h := [4]int{0, 1, 1, 0}
	s := [4]int{0, 1, 0, 1}
	mh, mv := 0, 0
	for _, m := range f.JpegUps {
		mh, mv = max(mh, h[m]), max(mv, s[m])
	}
	// coded order is Cb, Y, Cr as the channels are
	for c, m := range f.JpegUps {
		hs[c], vs[c] = mh-h[m], mv-s[m]
	}
	return
}

// GenVarDCT draws the coefficients of a frame.
func GenVarDCT(t *pbt.T, m *Meta, f *FHdr, o VOpts, feat map[string]bool) *VarDCT {
	v := &VarDCT{M: m, F: f, D: f.Dims(), NoLFCoef: o.NoLF}
	d := v.D
	r := t.RNG()
	v.HS, v.VS = f.Subsampling()
	mh, mv := max(v.HS[0], v.HS[1], v.HS[2]), max(v.VS[0], v.VS[1], v.VS[2])
	sub := mh+mv > 0
	v.BW = CeilDiv(CeilDiv(d.W, 8), 1<<uint(mh)) << uint(mh)
	v.BH = CeilDiv(CeilDiv(d.H, 8), 1<<uint(mv)) << uint(mv)
	v.QBias = [3]float64{1 - 0.05465007330715401, 1 - 0.07005449891748593, 1 - 0.049935103337343655}
	v.QNum = 0.145
	if !m.DefaultTransform && !m.OpsinM.Default && m.XYB {
		for i := range v.QBias {
			v.QBias[i] = HalfVal(m.OpsinM.QBias[i])
		}
		v.QNum = HalfVal(m.OpsinM.QNum)
	}
	// quantisers
	switch t.W(3, 3, 2, 1, 1) {
	case 0:
		v.GS = t.Range(1500, 6000)
	case 1:
		v.GS = t.Range(4000, 16000)
	case 2:
		v.GS = t.Range(200, 2048)
	case 3:
		v.GS = t.Range(8193, 73728)
	case 4:
		v.GS = t.Range(1, 200)
	}
	v.QLF = 16
	switch t.W(2, 2, 1) {
	case 1:
		v.QLF = t.Range(1, 64)
	case 2:
		v.QLF = t.Range(1, 1000)
	}
	v.LFDeq = [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	// block contexts
	v.BCDefault = !o.Contexts || t.Chance(1, 3)
	v.Map, v.NCl = blockCtxDefault, 15
	nlf := 1
	if !v.BCDefault {
		feat["block-contexts"] = true
		for {
			size := 39
			nlf = 1
			for c := range v.LFT {
				v.LFT[c] = nil
				n := t.W(4, 3, 2, 1)
				if t.Chance(1, 10) {
					n = t.N(16)
				}
				for i := 0; i < n; i++ {
					th := int(randSigned(r, 9))
					if r.N(8) == 0 { // beyond what the first forms can hold
						th = []int{136, 32904, 33000, 1 << 20}[r.N(4)] + r.N(100)
						if r.N(2) == 0 {
							th = -th
						}
					}
					v.LFT[c] = append(v.LFT[c], th)
				}
				if r.N(4) != 0 {
					sort.Ints(v.LFT[c])
				}
				nlf *= n + 1
			}
			v.QFT = nil
			for n := t.W(4, 2, 2, 1, 1); n > 0; n-- {
				v.QFT = append(v.QFT, 1+r.N([]int{8, 40, 255, 299}[r.N(4)]))
			}
			size *= nlf * (len(v.QFT) + 1)
			if size <= 39*64 {
				v.cmap = NewClusterMap(t, r, size, 16, feat)
				v.Map, v.NCl = v.cmap.Map, v.cmap.N
				break
			}
		}
	}
	// correlation
	v.CorrDefault = t.Chance(1, 3)
	v.CF, v.BaseX, v.BaseB, v.XLF, v.BLF = 84, 0, Half(1), 128, 128
	if !v.CorrDefault {
		feat["correlation"] = true
		switch t.W(2, 1, 2, 1) {
		case 1:
			v.CF = 256
		case 2:
			v.CF = 2 + t.N(256)
		case 3:
			v.CF = 258 + t.N(2000)
		}
		v.BaseX, v.BaseB = Half(math.Round((r.Float()-0.5)*64)/64), Half(math.Round((r.Float()*2-0.5)*64)/64)
		v.XLF, v.BLF = 128+int(randSigned(r, 6)), 128+int(randSigned(r, 6))
		if t.Chance(1, 8) {
			v.XLF, v.BLF = t.N(256), t.N(256)
		}
	}
	if o.Grey {
		// no chroma is B = Y in XYB, and Cb = Cr = 0 in YCbCr
		v.CorrDefault = v.CorrDefault && o.XYB
		v.BaseX, v.BaseB, v.XLF, v.BLF = 0, 0, 128, 128
		if o.XYB {
			v.BaseB = Half(1)
		}
	}
	corrMax := 6
	if v.CF < 32 {
		corrMax = 3
	}
	for i := 0; i < d.LFGroups; i++ {
		v.Extra = append(v.Extra, t.W(3, 1, 1, 1))
		if o.FlatLF {
			v.Extra[i] = v.Extra[0]
		}
	}
	tw, th := CeilDiv(v.BW, 8), CeilDiv(v.BH, 8)
	v.XFY, v.BFY = NewChan(tw, th), NewChan(tw, th)
	if !o.Grey && t.Chance(2, 3) {
		feat["hf-correlation"] = true
		for i := range v.XFY.D {
			v.XFY.D[i], v.BFY.D[i] = randSigned(r, corrMax), randSigned(r, corrMax)
		}
	}
	v.Sharp = NewChan(v.BW, v.BH)
	switch t.W(1, 2, 2) {
	case 0:
		s := int64(r.N(8))
		for i := range v.Sharp.D {
			v.Sharp.D[i] = s
		}
	case 1:
		for i := range v.Sharp.D {
			v.Sharp.D[i] = int64(r.N(8))
		}
	case 2:
		s := int64(r.N(8))
		for i := range v.Sharp.D {
			if r.N(6) == 0 {
				s = int64(r.N(8))
			}
			v.Sharp.D[i] = s
		}
	}
	// tables
	v.genMatrices(t, o.Matrices, feat)
	// blocks
	v.QF = NewChan(v.BW, v.BH)
	types := o.Types
	if types == nil {
		for i := range VTs {
			types = append(types, i)
		}
	}
	if t.Chance(1, 3) { // few kinds
		n := t.Range(1, 3)
		var few []int
		for ; n > 0; n-- {
			few = append(few, types[t.N(len(types))])
		}
		types = few
	}
	big := t.Chance(1, 2) || o.BigBlocks
	taken := NewChan(v.BW, v.BH)
	mulMax := []int{1, 8, 30, 256}[t.N(4)]
	for i := 0; i < d.LFGroups; i++ {
		x0, y0, w, h := v.lfRect(i)
		var list []*VBlk
		for y := y0; y < y0+h; y++ {
			for x := x0; x < x0+w; x++ {
				if taken.At(x, y) != 0 {
					continue
				}
				fits := func(k int) bool {
					bw, bh := VTs[k].Cols/8, VTs[k].Rows/8
					if sub && bw*bh > 1 {
						return false
					}
					if x+bw > x0+w || y+bh > y0+h || x/32 != (x+bw-1)/32 || y/32 != (y+bh-1)/32 {
						return false
					}
					for i := x; i < x+bw; i++ {
						if taken.At(i, y) != 0 {
							return false
						}
					}
					return true
				}
				k := 0
				for try := 0; ; try++ {
					k = types[r.N(len(types))]
					if big && try < 6 {
						k2 := types[r.N(len(types))]
						if VTs[k2].Rows*VTs[k2].Cols > VTs[k].Rows*VTs[k].Cols {
							k = k2
						}
					}
					if fits(k) {
						break
					}
					if try > 12 {
						for k = r.N(18); !fits(k); k = r.N(18) {
						}
						break
					}
				}
				b := &VBlk{X: x, Y: y, Type: k, Mul: 1 + r.N(mulMax), Group: y/32*d.GX + x/32}
				if r.N(3) == 0 {
					b.Mul = 1 + r.N(min(4, mulMax))
				}
				feat["vt-"+VTs[k].Name] = true
				for iy := y; iy < y+VTs[k].Rows/8; iy++ {
					for ix := x; ix < x+VTs[k].Cols/8; ix++ {
						taken.Set(ix, iy, 1)
						v.QF.Set(ix, iy, int64(b.Mul))
					}
				}
				list = append(list, b)
			}
		}
		v.LFBlocks = append(v.LFBlocks, list)
	}
	v.uniteTiles()
	// LF image
	amp := o.Amp
	if amp == 0 {
		amp = 1
	}
	kind := t.W(3, 2, 1)
	for c := 0; c < 3; c++ {
		ch := NewChan(v.BW>>uint(v.HS[c]), v.BH>>uint(v.VS[c]))
		ch.HS, ch.VS = v.HS[c], v.VS[c]
		a := amp * (0.1 + 0.9*r.Float())
		if c != 1 && o.XYB {
			a = amp * 0.05 * r.Float()
			if c == 2 {
				a *= 5
			}
		}
		base := 0.0
		if c == 1 && o.XYB {
			base = 0.3 * r.Float() * amp
		}
		gx, gy := r.Float()*0.2-0.1, r.Float()*0.2-0.1
		for y := 0; y < ch.H; y++ {
			for x := 0; x < ch.W; x++ {
				// dequantisation step of the LF group
				lg := (y<<uint(v.VS[c]))/256*d.LX + (x<<uint(v.HS[c]))/256
				step := v.LFStep(c) / float64(int(1)<<uint(v.Extra[lg]))
				val := 0.0
				switch kind {
				case 0:
					val = (r.Float()*2 - 1) * a
				case 1:
					val = a * (math.Sin(float64(x)*gx*3+float64(y)*gy*3) + 0.05*r.Float())
				case 2:
					if r.N(5) == 0 {
						val = (r.Float()*2 - 1) * a
					}
				}
				q := math.Round((base + val) / step)
				if o.Grey && c != 1 {
					q = 0
				}
				if o.FlatLF {
					q = math.Round(base + a/step)
				}
				ch.Set(x, y, int64(math.Max(-16000, math.Min(16000, q))))
			}
		}
		v.LFQ[c] = ch
	}
	v.genHF(t, r, o, amp, feat)
	v.makeStreams()
	return v
}

// uniteTiles gives all the tiles under one block the same factors, whichever
// of them a decoder takes for it.
func (v *VarDCT) uniteTiles() {
	for again := true; again; {
		again = false
		for _, l := range v.LFBlocks {
			for _, b := range l {
				k := &VTs[b.Type]
				x1, y1 := (b.X+k.Cols/8-1)/8, (b.Y+k.Rows/8-1)/8
				a, c := v.XFY.At(b.X/8, b.Y/8), v.BFY.At(b.X/8, b.Y/8)
				for y := b.Y / 8; y <= y1; y++ {
					for x := b.X / 8; x <= x1; x++ {
						if v.XFY.At(x, y) != a || v.BFY.At(x, y) != c {
							// towards the smaller pair: ends
							na, nc := min(a, v.XFY.At(x, y)), min(c, v.BFY.At(x, y))
							v.XFY.Set(x, y, na)
							v.BFY.Set(x, y, nc)
							v.XFY.Set(b.X/8, b.Y/8, na)
							v.BFY.Set(b.X/8, b.Y/8, nc)
							a, c = na, nc
							again = true
						}
					}
				}
			}
		}
	}
}

// LFStep is the LF dequantisation step of a channel.
func (v *VarDCT) LFStep(c int) float64 {
	return 65536 * v.LFDeq[c] / (float64(v.GS) * float64(v.QLF))
}

// hfScale is the HF dequantisation factor of a channel.
func (v *VarDCT) hfScale(c int) float64 {
	s := 65536 / float64(v.GS)
	if v.M.XYB {
		if c == 0 {
			s *= math.Pow(0.8, float64(v.F.XQM-2))
		} else if c == 2 {
			s *= math.Pow(0.8, float64(v.F.BQM-2))
		}
	}
	return s
}

func (v *VarDCT) aligned(b *VBlk, c int) bool {
	return b.X&(1<<uint(v.HS[c])-1) == 0 && b.Y&(1<<uint(v.VS[c])-1) == 0
}

var nnzCtx = []int{0, 0, 31, 62, 62, 93, 93, 93, 93, 123, 123, 123, 123, 152, 152, 152, 152, 152, 152, 152, 152, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206}

func freqCtx(k int) int {
	switch {
	case k <= 16:
		return k - 1
	case k < 32:
		return 15 + (k-16)/2
	default:
		return 23 + (k-32)/4
	}
}

// genHF draws the HF coefficients and makes the tokens of all passes.
func (v *VarDCT) genHF(t *pbt.T, r *pbt.RNG, o VOpts, amp float64, feat map[string]bool) {
	d := v.D
	np := v.F.Passes
	v.Presets = 1
	if d.Groups > 1 && t.Chance(1, 2) {
		v.Presets = t.Range(1, min(d.Groups, 4))
	}
	if v.Presets > 1 {
		feat["presets"] = true
	}
	density := t.W(1, 3, 3, 1) // none, sparse, medium, dense
	shift := func(p int) int {
		if p == np-1 {
			return 0
		}
		return v.F.Shifts[p]
	}
	// orders
	for p := 0; p < np; p++ {
		ps := &VPass{}
		if o.Orders && t.Chance(2, 3) {
			ps.used = []int{0x5f, 0x13, 0, r.N(1 << 13)}[t.W(1, 1, 1, 4)]
		}
		if ps.used != 0 {
			feat["orders"] = true
		}
		var pt []Tok
		for ord := 0; ord < 13; ord++ {
			if ps.used>>uint(ord)&1 == 0 {
				continue
			}
			n := orderDims[ord][0] * orderDims[ord][1]
			skip := n / 64
			for c := 0; c < 3; c++ {
				perm := make([]int, n)
				for i := range perm {
					perm[i] = i
				}
				lim := min(n, skip+1500)
				switch r.N(4) {
				case 0:
				case 1:
					for k := r.N(6); k > 0; k-- {
						i, j := skip+r.N(lim-skip), skip+r.N(lim-skip)
						perm[i], perm[j] = perm[j], perm[i]
					}
				case 2:
					lim = min(lim, skip+64)
					fallthrough
				case 3:
					for i := lim - 1; i > skip; i-- {
						j := skip + r.N(i-skip+1)
						perm[i], perm[j] = perm[j], perm[i]
					}
				}
				ps.perm[ord][c] = perm
				pt = append(pt, PermToks(r, perm, skip)...)
			}
		}
		if ps.used != 0 {
			ps.permT = [][]Tok{pt}
			ps.permC = NewCode(t, 8, ps.permT, []int{0}, o.E)
		}
		v.passes = append(v.passes, ps)
		var pr []int
		for g := 0; g < d.Groups; g++ {
			pr = append(pr, r.N(v.Presets))
		}
		v.preset = append(v.preset, pr)
	}
	// coefficients by pass
	type key struct {
		b *VBlk
		c int
	}
	coef := make([]map[key]map[int]int64, np)
	for p := range coef {
		coef[p] = map[key]map[int]int64{}
	}
	for _, l := range v.LFBlocks {
		for _, b := range l {
			k := &VTs[b.Type]
			n := k.Rows * k.Cols
			nat := natural(k.Order)
			skip := n / 64
			for c := 0; c < 3; c++ {
				if !v.aligned(b, c) {
					continue
				}
				b.Q[c] = make([]int64, n)
				mat := v.mats[k.Param][c]
				sc := v.hfScale(c) / float64(b.Mul)
				for p := 0; p < np; p++ {
					var cnt int
					switch density {
					case 1:
						if r.N(2) == 0 {
							cnt = r.N(6)
						}
					case 2:
						cnt = r.N(24)
						if n > 64 && r.N(2) == 0 {
							cnt = r.N(min(400, n))
						}
					case 3:
						cnt = r.N(n - skip + 1)
						if r.N(3) == 0 {
							cnt = n - skip
						}
						cnt = min(cnt, 6000)
					}
					if cnt == 0 || o.Grey && c != 1 {
						continue
					}
					cnt = min(cnt, n-skip)
					set := map[int]int64{}
					all := cnt > (n-skip)/2
					low := r.N(3) == 0
					perm := []int(nil)
					if all {
						perm = make([]int, n-skip)
						for i := range perm {
							perm[i] = i
						}
						for i := range perm {
							j := i + r.N(len(perm)-i)
							perm[i], perm[j] = perm[j], perm[i]
						}
					}
					lim := amp / math.Sqrt(float64(cnt))
					if o.XYB && c != 1 {
						lim *= 0.2
						if c == 0 {
							lim *= 0.2
						}
					}
					for len(set) < cnt {
						var pos int
						if all {
							pos = nat[skip+perm[len(set)]]
						} else if low {
							pos = nat[skip+r.N(min(n-skip, 2*cnt))]
						} else {
							pos = nat[skip+r.N(n-skip)]
						}
						if set[pos] != 0 {
							continue
						}
						top := lim / (sc * mat[pos] * float64(int(1)<<uint(shift(p))))
						q := int64(1)
						switch r.N(4) {
						case 0:
							q = int64(math.Round(top * r.Float()))
						case 1:
							q = int64(math.Round(math.Min(top*r.Float(), 3)))
						case 2:
							q = int64(math.Round(math.Min(top*r.Float(), 20)))
						}
						if q < 1 {
							q = 1
						}
						if q > 20000 {
							q = 20000
						}
						if r.N(2) == 0 {
							q = -q
						}
						set[pos] = q
					}
					coef[p][key{b, c}] = set
					for pos, q := range set {
						b.Q[c][pos] += q << uint(shift(p))
					}
				}
			}
		}
	}
	lfIdx := func(b *VBlk) int {
		var ix [3]int
		if v.NoLFCoef {
			return 0
		}
		for c := 0; c < 3; c++ {
			val := v.LFQ[c].At(b.X>>uint(v.HS[c]), b.Y>>uint(v.VS[c]))
			for _, th := range v.LFT[c] {
				if val > int64(th) {
					ix[c]++
				}
			}
		}
		return (ix[0]*(len(v.LFT[2])+1)+ix[2])*(len(v.LFT[1])+1) + ix[1]
	}
	nlf := (len(v.LFT[0]) + 1) * (len(v.LFT[1]) + 1) * (len(v.LFT[2]) + 1)
	// tokens
	for p, ps := range v.passes {
		ps.toks = make([][]Tok, d.Groups)
		nzMap := [3]*Chan{NewChan(v.BW, v.BH), NewChan(v.BW, v.BH), NewChan(v.BW, v.BH)}
		for _, l := range v.LFBlocks {
			for _, b := range l {
				k := &VTs[b.Type]
				n := k.Rows * k.Cols
				nb := n / 64
				li := lfIdx(b)
				off := 495 * v.NCl * v.preset[p][b.Group]
				for _, c := range []int{1, 0, 2} {
					if !v.aligned(b, c) {
						continue
					}
					cc := []int{1, 0, 2}[c]
					ctx := cc*13 + k.Order
					ctx *= len(v.QFT) + 1
					for _, th := range v.QFT {
						if b.Mul > th {
							ctx++
						}
					}
					ctx = v.Map[ctx*nlf+li]
					x, y := b.X>>uint(v.HS[c]), b.Y>>uint(v.VS[c])
					gx, gy := b.X/32*32>>uint(v.HS[c]), b.Y/32*32>>uint(v.VS[c])
					pred := int64(32)
					nm := nzMap[c]
					switch {
					case x == gx && y == gy:
					case x == gx:
						pred = nm.At(x, y-1)
					case y == gy:
						pred = nm.At(x-1, y)
					default:
						pred = (nm.At(x, y-1) + nm.At(x-1, y) + 1) >> 1
					}
					set := coef[p][key{b, c}]
					nz := len(set)
					for iy := 0; iy < k.Rows/8; iy++ {
						for ix := 0; ix < k.Cols/8; ix++ {
							nm.Set(x+ix, y+iy, int64((nz+nb-1)/nb))
						}
					}
					pc := min(int(pred), 64)
					if pc >= 8 {
						pc = 4 + pc/2
					}
					tk := &ps.toks[b.Group]
					coded := uint32(nz)
					if r, ok := fault("nonzeros"); ok {
						coded = uint32(n) - uint32(nb) + 1 + r%3000
					}
					*tk = append(*tk, Tok{off + ctx + v.NCl*pc, coded})
					if nz == 0 {
						continue
					}
					nat := natural(k.Order)
					perm := ps.perm[k.Order][c]
					prev := 1
					if nz > n/16 {
						prev = 0
					}
					left := nz
					for i := nb; i < n && left > 0; i++ {
						pos := nat[i]
						if perm != nil {
							pos = nat[perm[i]]
						}
						q := set[pos]
						cx := 37*v.NCl + 458*ctx + 2*(nnzCtx[(left+nb-1)/nb]+freqCtx(i/nb)) + prev
						*tk = append(*tk, Tok{off + cx, PackSigned(q)})
						prev = 0
						if q != 0 {
							prev = 1
							left--
						}
					}
					if left != 0 {
						panic("coefficients left")
					}
				}
			}
		}
		mult := make([]int, d.Groups)
		ps.code = NewCode(t, 495*v.Presets*v.NCl, ps.toks, mult, o.E)
		for k := range ps.code.Feat {
			feat["hf-"+k] = true
		}
	}
}

func (v *VarDCT) makeStreams() {
	n := v.D.LFGroups
	for i := 0; i < n; i++ {
		x, y, w, h := v.lfRect(i)
		s := &Stream{Idx: 1 + i, List: &ChanList{}, WP: DefaultWP}
		for _, c := range []int{1, 0, 2} {
			hs, vs := uint(v.HS[c]), uint(v.VS[c])
			s.List.C = append(s.List.C, v.LFQ[c].Crop(x>>hs, y>>vs, w>>hs, h>>vs))
		}
		v.lfs = append(v.lfs, s)
		s = &Stream{Idx: 1 + 2*n + i, List: &ChanList{}, WP: DefaultWP}
		tx, ty, tw, th := x/8, y/8, CeilDiv(w, 8), CeilDiv(h, 8)
		bl := v.LFBlocks[i]
		info := NewChan(len(bl), 2)
		for k, b := range bl {
			info.D[k], info.D[len(bl)+k] = int64(b.Type), int64(b.Mul-1)
			if r, ok := fault("block-type"); ok {
				info.D[k] = 27 + int64(r%100)
				if r>>30 == 0 {
					info.D[k] = -1 - int64(r%100)
				}
			}
			for ty, kind := range VTs {
				if b.X-x+kind.Cols/8 > w || b.Y-y+kind.Rows/8 > h {
					if _, ok := fault("block-place"); ok {
						info.D[k] = int64(ty)
						break
					}
				}
			}
		}
		s.List.C = append(s.List.C, v.XFY.Crop(tx, ty, tw, th), v.BFY.Crop(tx, ty, tw, th), info, v.Sharp.Crop(x, y, w, h))
		if r, ok := fault("sharpness"); ok {
			sh := s.List.C[3]
			sh.D[int(r)%len(sh.D)] = 8 + int64(r%90)
			if r>>30 == 0 {
				sh.D[int(r)%len(sh.D)] = -1 - int64(r%90)
			}
		}
		v.metas = append(v.metas, s)
	}
}

// streams are the modular streams of the frame's colours.
func (v *VarDCT) streams(numLF int) []*Stream {
	var out []*Stream
	if !v.NoLFCoef {
		out = append(out, v.lfs...)
	}
	out = append(out, v.metas...)
	for i, q := range v.deq {
		if q.Raw != nil {
			q.Raw.Idx = 1 + 3*numLF + i
			out = append(out, q.Raw)
		}
	}
	return out
}

func (v *VarDCT) writeGlobal(w *BW) {
	p := v.M.Pick
	w.U32(uint32(v.GS), p, U32d{1, 11}, U32d{2049, 11}, U32d{4097, 12}, U32d{8193, 16})
	w.U32(uint32(v.QLF), p, U32d{16, 0}, U32d{1, 5}, U32d{1, 8}, U32d{1, 16})
	w.Bool(v.BCDefault)
	if !v.BCDefault {
		for _, th := range v.LFT {
			w.Bits(uint64(len(th)), 4)
			for _, x := range th {
				w.U32(PackSigned(int64(x)), p, U32d{0, 4}, U32d{16, 8}, U32d{272, 16}, U32d{65808, 32})
			}
		}
		w.Bits(uint64(len(v.QFT)), 4)
		for _, x := range v.QFT {
			w.U32(uint32(x-1), p, U32d{0, 2}, U32d{4, 3}, U32d{12, 5}, U32d{44, 8})
		}
		v.cmap.write(w)
	}
	w.Bool(v.CorrDefault)
	if !v.CorrDefault {
		w.U32(uint32(v.CF), p, U32d{84, 0}, U32d{256, 0}, U32d{2, 8}, U32d{258, 16})
		w.F16(v.BaseX)
		w.F16(v.BaseB)
		w.Bits(uint64(v.XLF), 8)
		w.Bits(uint64(v.BLF), 8)
	}
}

func (v *VarDCT) writeMeta(w *BW, i int, e *ModEnc) {
	_, _, bw, bh := v.lfRect(i)
	w.Bits(uint64(len(v.LFBlocks[i])-1), CeilLog2(bw*bh))
	v.metas[i].Write(w, e.code, e.pick)
}

func (v *VarDCT) writeHF(w *BW, e *ModEnc) {
	w.Bool(v.deq == nil)
	for _, q := range v.deq {
		q.write(w, e)
	}
	w.Bits(uint64(v.Presets-1), CeilLog2(v.D.Groups))
	for _, ps := range v.passes {
		w.U32(uint32(ps.used), v.M.Pick, U32d{0x5f, 0}, U32d{0x13, 0}, U32d{0, 0}, U32d{0, 13})
		if ps.used != 0 {
			ps.permC.WriteHeader(w)
			ps.permC.WriteStream(w, 0)
		}
		ps.code.WriteHeader(w)
	}
}

func (v *VarDCT) writeGroup(w *BW, p, g int) {
	w.Bits(uint64(v.preset[p][g]), CeilLog2(v.Presets))
	v.passes[p].code.WriteStream(w, g)
}

// ---- quantisation tables ----

func (q *VDeq) write(w *BW, e *ModEnc) {
	w.Bits(uint64(q.Mode), 3)
	dct := func(d [3][]uint16) {
		w.Bits(uint64(len(d[0])-1), 4)
		for c := range d {
			for _, h := range d[c] {
				w.F16(h)
			}
		}
	}
	for c := range q.P {
		for _, h := range q.P[c] {
			w.F16(h)
		}
	}
	switch q.Mode {
	case 3, 4, 6:
		dct(q.D)
	case 5:
		dct(q.D)
		dct(q.D4)
	case 7:
		w.F16(q.Den)
		q.Raw.Write(w, e.code, e.pick)
	}
}

func bandMul(x float64) float64 {
	if x >= 0 {
		return 1 + x
	}
	return 1 / (1 - x)
}

func interp(pos float64, b []float64) float64 {
	if len(b) == 1 {
		return b[0]
	}
	i := int(pos)
	if i+1 >= len(b) {
		return b[len(b)-1]
	}
	return b[i] * math.Pow(b[i+1]/b[i], pos-float64(i))
}

func bandsOf(p []float64) []float64 {
	b := []float64{p[0]}
	for _, x := range p[1:] {
		b = append(b, b[len(b)-1]*bandMul(x))
	}
	return b
}

// dctWeights are the weights of a DCT of the given size.
func dctWeights(rows, cols int, p []float64) []float64 {
	b := bandsOf(p)
	out := make([]float64, rows*cols)
	scale := float64(len(b)-1) / (math.Sqrt2 + 1e-6)
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			dx, dy := float64(x)*scale/float64(cols-1), float64(y)*scale/float64(rows-1)
			out[y*cols+x] = interp(math.Sqrt(dx*dx+dy*dy), b)
		}
	}
	return out
}

var afvFreq = []float64{0, 0, 0.8517778890324296, 5.37778436506804, 0, 0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4, 7.275749096817861, 10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235}

// qspec is a quantisation table in terms of real parameters.
type qspec struct {
	mode     int
	p, d, d4 [3][]float64
}

func (s *qspec) weights(c, rows, cols int) []float64 {
	w := make([]float64, rows*cols)
	p := s.p[c]
	switch s.mode {
	case 6:
		return dctWeights(rows, cols, s.d[c])
	case 1:
		for i := range w {
			w[i] = p[0]
		}
		w[1], w[8], w[9] = p[1], p[1], p[2]
	case 2:
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				m := max(x, y)
				k := 0
				switch {
				case m >= 4:
					k = 4
				case m >= 2:
					k = 2
				}
				half := 1
				if m >= 4 {
					half = 4
				} else if m >= 2 {
					half = 2
				}
				if x >= half && y >= half {
					k++
				}
				w[y*8+x] = p[k]
			}
		}
	case 3:
		b := dctWeights(4, 4, s.d[c])
		for i := range w {
			w[i] = b[i/16*4+i%8/2]
		}
		w[1] /= p[0]
		w[8] /= p[0]
		w[9] /= p[1]
	case 4:
		b := dctWeights(4, 8, s.d[c])
		for i := range w {
			w[i] = b[i/16*8+i%8]
		}
		w[8] /= p[0]
	case 5:
		b8, b4 := dctWeights(4, 8, s.d[c]), dctWeights(4, 4, s.d4[c])
		w[8], w[1], w[16], w[2], w[18] = p[0], p[1], p[2], p[3], p[4]
		bands := bandsOf(p[5:9])
		lo, hi := 0.8517778890324296, 12.97166202570235
		for y := 0; y < 4; y++ {
			for x := 0; x < 4; x++ {
				if x >= 2 || y >= 2 {
					w[2*y*8+2*x] = interp((afvFreq[y*4+x]-lo)*3/(hi-lo+1e-6), bands)
				}
				if x+y > 0 {
					w[2*y*8+2*x+1] = b4[y*4+x]
				}
			}
			for x := 0; x < 8; x++ {
				if x+y > 0 {
					w[(2*y+1)*8+x] = b8[y*8+x]
				}
			}
		}
	}
	w[0] = 1
	return w
}

var (
	dct4Default = [3][]float64{{2200, 0, 0, 0}, {392, 0, 0, 0}, {112, -0.25, -0.25, -0.5}}
	dct48Deflt  = [3][]float64{
		{2198.050556016380522, -0.96269623020744692, -0.76194253026666783, -0.6551140670773547},
		{764.3655248643528689, -0.92630200888366945, -0.9675229603596517, -0.27845290869168118},
		{527.107573587542228, -1.4594385811273854, -1.450082094097871593, -1.5843722511996204}}
	seqA = []float64{-1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671}
	seqB = []float64{-0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037}
	seqC = []float64{-1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5}
)

func large(a, b, c float64) qspec {
	return qspec{mode: 6, d: [3][]float64{append([]float64{a}, seqA...), append([]float64{b}, seqB...), append([]float64{c}, seqC...)}}
}

var defaultSpecs = [17]qspec{
	{mode: 6, d: [3][]float64{{3150, 0, -0.4, -0.4, -0.4, -2}, {560, 0, -0.3, -0.3, -0.3, -0.3}, {512, -2, -1, 0, -1, -2}}},
	{mode: 1, p: [3][]float64{{280, 3160, 3160}, {60, 864, 864}, {18, 200, 200}}},
	{mode: 2, p: [3][]float64{{3840, 2560, 1280, 640, 480, 300}, {960, 640, 320, 180, 140, 120}, {640, 320, 128, 64, 32, 16}}},
	{mode: 3, p: [3][]float64{{1, 1}, {1, 1}, {1, 1}}, d: dct4Default},
	{mode: 6, d: [3][]float64{
		{8996.8725711814115328, -1.3000777393353804, -0.49424529824571225, -0.439093774457103443, -0.6350101832695744, -0.90177264050827612, -1.6162099239887414},
		{3191.48366296844234752, -0.67424582104194355, -0.80745813428471001, -0.44925837484843441, -0.35865440981033403, -0.31322389111877305, -0.37615025315725483},
		{1157.50408145487200256, -2.0531423165804414, -1.4, -0.50687130033378396, -0.42708730624733904, -1.4856834539296244, -4.9209142884401604}}},
	{mode: 6, d: [3][]float64{
		{15718.40830982518931456, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27},
		{7305.7636810695983104, -0.8041958212306401, -0.7633036457487539, -0.55660379990111464, -0.49785304658857626, -0.43699592683512467, -0.40180866526242109, -0.27321683125358037},
		{3803.53173721215041536, -3.060733579805728, -2.0413270132490346, -2.0235650159727417, -0.5495389509954993, -0.4, -0.4, -0.3}}},
	{mode: 6, d: [3][]float64{
		{7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5},
		{1448.15468787004, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2},
		{506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6}}},
	{mode: 6, d: [3][]float64{
		{16283.2494710648897, -1.7812845336559429, -1.6309059012653515, -1.0382179034313539, -0.85, -0.7, -0.9, -1.2360638576849587},
		{5089.15750884921511936, -0.320049391452786891, -0.35362849922161446, -0.30340000000000003, -0.61, -0.5, -0.5, -0.6},
		{3397.77603275308720128, -0.321327362693153371, -0.34507619223117997, -0.70340000000000003, -0.9, -1.0, -1.0, -1.1754605576265209}}},
	{mode: 6, d: [3][]float64{
		{13844.97076442300573, -0.97113799999999995, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6},
		{4798.964084220744293, -0.61125308982767057, -0.83770786552491361, -0.79014862079498627, -0.2692727459704829, -0.38272769465388551, -0.22924222653091453, -0.20719098826199578},
		{1807.236946760964614, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5}}},
	{mode: 4, p: [3][]float64{{1}, {1}, {1}}, d: dct48Deflt},
	{mode: 5, p: [3][]float64{{3072, 3072, 256, 256, 256, 414, 0, 0, 0}, {1024, 1024, 50, 50, 50, 58, 0, 0, 0}, {384, 384, 12, 12, 12, 22, -0.25, -0.25, -0.25}}, d: dct48Deflt, d4: dct4Default},
	large(23966.1665298448605, 8380.19148390090414, 4493.02378009847706),
	large(15358.89804933239925, 5597.360516150652990, 2919.961618960011210),
	large(47932.3330596897210, 16760.38296781180828, 8986.04756019695412),
	large(30717.796098664792, 11194.72103230130598, 5839.92323792002242),
	large(95864.6661193794420, 33520.76593560361656, 17972.09512039390824),
	large(61435.5921973295970, 24209.44206460261196, 12979.84647584004484),
}

var defaultMats [17][3][]float64

func init() {
	for i := range defaultSpecs {
		for c := 0; c < 3; c++ {
			defaultMats[i][c] = inverse(defaultSpecs[i].weights(c, paramDims[i][0], paramDims[i][1]))
		}
	}
}

func inverse(w []float64) []float64 {
	out := make([]float64, len(w))
	for i, x := range w {
		out[i] = 1 / x
	}
	return out
}

// genMatrices draws the quantisation tables.
func (v *VarDCT) genMatrices(t *pbt.T, custom bool, feat map[string]bool) {
	v.mats = defaultMats
	if !custom || t.Chance(1, 4) {
		return
	}
	feat["tables"] = true
	r := t.RNG()
	hp := func(lo, hi float64) uint16 { return Half(lo * math.Pow(hi/lo, r.Float())) }
	val := func(hs []uint16, mul float64) []float64 {
		var out []float64
		for _, h := range hs {
			out = append(out, HalfVal(h)*mul)
		}
		return out
	}
	bands := func() (h [3][]uint16, f [3][]float64) {
		n := 1 + r.N(8)
		if r.N(6) == 0 {
			n = 1 + r.N(17)
			n = min(n, 16)
		}
		for c := range h {
			h[c] = []uint16{hp(1, 200)}
			for i := 1; i < n; i++ {
				h[c] = append(h[c], Half(r.Float()*2.2-1.4))
			}
			f[c] = val(h[c], 1)
			f[c][0] *= 64
		}
		return
	}
	for i := 0; i < 17; i++ {
		q := &VDeq{}
		s := qspec{}
		rows, cols := paramDims[i][0], paramDims[i][1]
		small := i <= 3 || i == 9 || i == 10
		modes := []int{0, 6}
		if small {
			modes = []int{0, 1, 2, 3, 4, 5, 6, 7}
		} else if rows == cols && rows <= 32 {
			modes = []int{0, 6, 7}
		}
		q.Mode = modes[r.N(len(modes))]
		s.mode = q.Mode
		switch q.Mode {
		case 1, 2:
			for c := range q.P {
				for k := 0; k < []int{0, 3, 6}[q.Mode]; k++ {
					q.P[c] = append(q.P[c], hp(0.2, 60))
				}
				s.p[c] = val(q.P[c], 64)
			}
		case 3, 4:
			for c := range q.P {
				for k := 0; k < 5-q.Mode; k++ {
					q.P[c] = append(q.P[c], hp(0.3, 4))
				}
				s.p[c] = val(q.P[c], 1)
			}
			q.D, s.d = bands()
		case 5:
			for c := range q.P {
				for k := 0; k < 9; k++ {
					if k < 6 {
						q.P[c] = append(q.P[c], hp(0.2, 60))
					} else {
						q.P[c] = append(q.P[c], Half(r.Float()*2.2-1.4))
					}
				}
				s.p[c] = append(val(q.P[c][:6], 64), val(q.P[c][6:], 1)...)
			}
			q.D, s.d = bands()
			q.D4, s.d4 = bands()
		case 6:
			q.D, s.d = bands()
		case 7:
			q.Den = hp(1.0/20000, 1.0/500)
			q.Raw = &Stream{List: &ChanList{}, WP: DefaultWP}
			for c := 0; c < 3; c++ {
				ch := NewChan(cols, rows)
				m := make([]float64, rows*cols)
				for k := range ch.D {
					ch.D[k] = 1 + int64(r.N(200))
					m[k] = float64(ch.D[k]) * HalfVal(q.Den)
				}
				q.Raw.List.C = append(q.Raw.List.C, ch)
				v.mats[i][c] = m
			}
		}
		if q.Mode >= 1 && q.Mode <= 6 {
			for c := 0; c < 3; c++ {
				v.mats[i][c] = inverse(s.weights(c, rows, cols))
			}
		}
		feat[fmt.Sprintf("table-mode%d", q.Mode)] = true
		v.deq = append(v.deq, q)
	}
}

// ---- reconstruction ----

// RP is a plane of real numbers with a bound on the error to expect from
// single precision arithmetic.
type RP struct {
	W, H int
	D    []float64
	E    []float64
}

func NewRP(w, h int) *RP { return &RP{w, h, make([]float64, w*h), make([]float64, w*h)} }

func (p *RP) at(x, y int) float64 { return p.D[y*p.W+x] }

// Kx and kb of a tile.
func (v *VarDCT) corr(x, y int) (kx, kb float64) {
	return HalfVal(v.BaseX) + float64(v.XFY.At(x, y))/float64(v.CF), HalfVal(v.BaseB) + float64(v.BFY.At(x, y))/float64(v.CF)
}

func (v *VarDCT) is444() bool { return v.HS == [3]int{} && v.VS == [3]int{} }

// LFImage gives the dequantised LF image.
func (v *VarDCT) LFImage() [3]*RP {
	var out [3]*RP
	for c := range out {
		q := v.LFQ[c]
		p := NewRP(q.W, q.H)
		for y := 0; y < q.H; y++ {
			for x := 0; x < q.W; x++ {
				lg := (y<<uint(v.VS[c]))/256*v.D.LX + (x<<uint(v.HS[c]))/256
				p.D[y*q.W+x] = float64(q.At(x, y)) * v.LFStep(c) / float64(int(1)<<uint(v.Extra[lg]))
			}
		}
		out[c] = p
	}
	if v.is444() {
		kx := HalfVal(v.BaseX) + float64(v.XLF-128)/float64(v.CF)
		kb := HalfVal(v.BaseB) + float64(v.BLF-128)/float64(v.CF)
		for i, y := range out[1].D {
			out[0].D[i] += kx * y
			out[2].D[i] += kb * y
		}
	}
	return out
}

// Smooth is the adaptive smoothing of the LF image.
func (v *VarDCT) Smooth(in [3]*RP) [3]*RP {
	w, h := in[0].W, in[0].H
	if w <= 2 || h <= 2 {
		return in
	}
	var out [3]*RP
	for c := range out {
		out[c] = NewRP(w, h)
		copy(out[c].D, in[c].D)
	}
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			gap := 0.5
			var sm [3]float64
			for c, p := range in {
				side := p.at(x-1, y) + p.at(x+1, y) + p.at(x, y-1) + p.at(x, y+1)
				corner := p.at(x-1, y-1) + p.at(x+1, y-1) + p.at(x-1, y+1) + p.at(x+1, y+1)
				sm[c] = 0.05226273532324128*p.at(x, y) + 0.20345139757231578*side + 0.0334829185968739*corner
				gap = math.Max(gap, math.Abs(p.at(x, y)-sm[c])/v.LFStep(c))
			}
			f := math.Max(0, 3-4*gap)
			for c, p := range in {
				out[c].D[y*w+x] = p.at(x, y) + (sm[c]-p.at(x, y))*f
			}
		}
	}
	return out
}

// SmoothPresent is what the decoder does at present instead of smoothing:
// the roles of the samples and the weighted means are swapped, the gap is
// multiplied by the step, and LF groups are treated apart.
func (v *VarDCT) SmoothPresent(in [3]*RP) [3]*RP {
	var out [3]*RP
	for c := range out {
		out[c] = NewRP(in[c].W, in[c].H)
		copy(out[c].D, in[c].D)
	}
	for i := 0; i < v.D.LFGroups; i++ {
		x0, y0, w, h := v.lfRect(i)
		for y := y0 + 1; y < y0+h-1; y++ {
			for x := x0 + 1; x < x0+w-1; x++ {
				gap := 0.5
				var sm [3]float64
				for c, p := range in {
					side := p.at(x-1, y) + p.at(x+1, y) + p.at(x, y-1) + p.at(x, y+1)
					corner := p.at(x-1, y-1) + p.at(x+1, y-1) + p.at(x-1, y+1) + p.at(x+1, y+1)
					sm[c] = 0.05226273532324128*p.at(x, y) + 0.20345139757231578*side + 0.0334829185968739*corner
					gap = math.Max(gap, math.Abs(p.at(x, y)-sm[c])*v.LFStep(c))
				}
				f := math.Max(0, 3-4*gap)
				for c, p := range in {
					out[c].D[y*p.W+x] = sm[c] + (p.at(x, y)-sm[c])*f
				}
			}
		}
	}
	return out
}

var cosTab = map[int][]float64{}

// cosines[k*n+i]: basis function k at sample i.
func cosines(n int) []float64 {
	if c := cosTab[n]; c != nil {
		return c
	}
	c := make([]float64, n*n)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			s := 1.0
			if k > 0 {
				s = math.Sqrt2
			}
			c[k*n+i] = s * math.Cos(math.Pi*float64(k)*(float64(i)+0.5)/float64(n))
		}
	}
	cosTab[n] = c
	return c
}

// idct2 inverts a DCT; f[v*cols+h] by vertical and horizontal frequency.
func idct2(f []float64, rows, cols int) []float64 {
	tmp := make([]float64, rows*cols)
	cc, cr := cosines(cols), cosines(rows)
	for v := 0; v < rows; v++ {
		o := tmp[v*cols : (v+1)*cols]
		for h := 0; h < cols; h++ {
			a := f[v*cols+h]
			if a == 0 {
				continue
			}
			b := cc[h*cols : (h+1)*cols]
			for x := range o {
				o[x] += a * b[x]
			}
		}
	}
	out := make([]float64, rows*cols)
	for v := 0; v < rows; v++ {
		s := tmp[v*cols : (v+1)*cols]
		for y := 0; y < rows; y++ {
			a := cr[v*rows+y]
			o := out[y*cols : (y+1)*cols]
			for x := range o {
				o[x] += a * s[x]
			}
		}
	}
	return out
}

func llScale(k, n int) float64 {
	if k == 0 {
		return 1
	}
	th := float64(k) * math.Pi / float64(16*n)
	return 8 * math.Sin(th) / math.Sin(8*th)
}

// llf gives the low frequencies of a block (by vertical, horizontal
// frequency) from its part of the LF image.
func llf(p *RP, x0, y0, rows, cols int) []float64 {
	out := make([]float64, rows*cols)
	cc, cr := cosines(cols), cosines(rows)
	tmp := make([]float64, rows*cols)
	for y := 0; y < rows; y++ {
		for h := 0; h < cols; h++ {
			s := 0.0
			for x := 0; x < cols; x++ {
				s += p.at(x0+x, y0+y) * cc[h*cols+x]
			}
			tmp[y*cols+h] = s / float64(cols)
		}
	}
	for v := 0; v < rows; v++ {
		for h := 0; h < cols; h++ {
			s := 0.0
			for y := 0; y < rows; y++ {
				s += tmp[y*cols+h] * cr[v*rows+y]
			}
			out[v*cols+h] = s / float64(rows) * llScale(v, rows) * llScale(h, cols)
		}
	}
	return out
}

// Planes reconstructs the colour samples from the coefficients; the planes
// are as large as the padded frame (subsampled where it is).
func (v *VarDCT) Planes(lf [3]*RP) [3]*RP {
	var out [3]*RP
	for c := range out {
		out[c] = NewRP(v.BW*8>>uint(v.HS[c]), v.BH*8>>uint(v.VS[c]))
	}
	for _, l := range v.LFBlocks {
		for _, b := range l {
			k := &VTs[b.Type]
			lrows, lcols := k.layout()
			n := lrows * lcols
			var co [3][]float64
			for c := 0; c < 3; c++ {
				if !v.aligned(b, c) {
					continue
				}
				mat := v.mats[k.Param][c]
				sc := v.hfScale(c) / float64(b.Mul)
				a := make([]float64, n)
				for i, q := range b.Q[c] {
					switch {
					case q == 0:
						continue
					case q == 1:
						a[i] = v.QBias[c]
					case q == -1:
						a[i] = -v.QBias[c]
					default:
						a[i] = float64(q) - v.QNum/float64(q)
					}
					a[i] *= sc * mat[i]
				}
				co[c] = a
			}
			if v.is444() {
				kx, kb := v.corr(b.X/8, b.Y/8)
				for i, y := range co[1] {
					co[0][i] += kx * y
					co[2][i] += kb * y
				}
			}
			for c := 0; c < 3; c++ {
				a := co[c]
				if a == nil {
					continue
				}
				bx, by := b.X>>uint(v.HS[c]), b.Y>>uint(v.VS[c])
				br, bc := k.Rows/8, k.Cols/8
				low := llf(lf[c], bx, by, br, bc)
				for y := 0; y < br; y++ {
					for x := 0; x < bc; x++ {
						if k.flip() {
							a[x*lcols+y] = low[y*bc+x]
						} else {
							a[y*lcols+x] = low[y*bc+x]
						}
					}
				}
				px := pixels(k, a)
				// the decoder's cosines err by the size of their angles
				sq := 0.0
				for i, x := range a {
					f := 4e-6 + 2.5e-6*float64(i/lcols+i%lcols)
					sq += x * x * f * f
				}
				e := math.Sqrt(sq)
				le := 0.0
				for y := 0; y < br; y++ {
					for x := 0; x < bc; x++ {
						le = math.Max(le, lf[c].E[(by+y)*lf[c].W+bx+x])
					}
				}
				if br*bc == 1 {
					e += 1.01 * le
				} else {
					e += le * 4 * (1 + math.Log2(float64(br*bc)))
				}
				if k.Method == mAFV || k.Method == mHornuss {
					e *= 4
				}
				for y := 0; y < k.Rows; y++ {
					for x := 0; x < k.Cols; x++ {
						i := (by*8+y)*out[c].W + bx*8 + x
						out[c].D[i] = px[y*k.Cols+x]
						out[c].E[i] = e
					}
				}
			}
		}
	}
	return out
}

// hadamard expands the top left s x s corner of an 8x8 block.
func hadamard(a []float64, s int) []float64 {
	out := append([]float64(nil), a...)
	n := s / 2
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			p, q, r, t := a[y*8+x], a[y*8+x+n], a[(y+n)*8+x], a[(y+n)*8+x+n]
			out[2*y*8+2*x] = p + q + r + t
			out[2*y*8+2*x+1] = p + q - r - t
			out[(2*y+1)*8+2*x] = p - q + r - t
			out[(2*y+1)*8+2*x+1] = p - q - r + t
		}
	}
	return out
}

func transpose(a []float64, rows, cols int) []float64 {
	out := make([]float64, len(a))
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			out[x*rows+y] = a[y*cols+x]
		}
	}
	return out
}

// pixels inverts the transform of a block from its stored coefficients.
func pixels(k *VT, a []float64) []float64 {
	out := make([]float64, k.Rows*k.Cols)
	switch k.Method {
	case mDCT:
		if k.flip() {
			r, c := k.layout()
			a = transpose(a, r, c)
		}
		return idct2(a, k.Rows, k.Cols)
	case mDCT2:
		return hadamard(hadamard(hadamard(a, 2), 4), 8)
	case mHornuss:
		dc := hadamard(a, 2)
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				sum := 0.0
				for i := 1; i < 16; i++ {
					sum += a[(y+i/4*2)*8+x+i%4*2]
				}
				base := dc[y*8+x] - sum/16
				for iy := 0; iy < 4; iy++ {
					for ix := 0; ix < 4; ix++ {
						r := a[(y+iy*2)*8+x+ix*2]
						switch {
						case ix == 1 && iy == 1:
							r = 0
						case ix == 0 && iy == 0:
							r = a[(y+2)*8+x+2]
						}
						out[(4*y+iy)*8+4*x+ix] = base + r
					}
				}
			}
		}
	case mDCT4:
		dc := hadamard(a, 2)
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				f := make([]float64, 16)
				for iy := 0; iy < 4; iy++ {
					for ix := 0; ix < 4; ix++ {
						f[ix*4+iy] = a[(y+iy*2)*8+x+ix*2]
					}
				}
				f[0] = dc[y*8+x]
				p := idct2(f, 4, 4)
				for i, s := range p {
					out[(4*y+i/4)*8+4*x+i%4] = s
				}
			}
		}
	case mDCT4x8, mDCT8x4:
		for s := 0; s < 2; s++ {
			f := make([]float64, 32)
			for iy := 0; iy < 4; iy++ {
				for ix := 0; ix < 8; ix++ {
					f[iy*8+ix] = a[(s+iy*2)*8+ix]
				}
			}
			f[0] = a[0] + a[8]
			if s == 1 {
				f[0] = a[0] - a[8]
			}
			if k.Method == mDCT4x8 {
				for i, p := range idct2(f, 4, 8) {
					out[(4*s+i/8)*8+i%8] = p
				}
			} else {
				for i, p := range idct2(transpose(f, 4, 8), 8, 4) {
					out[i/4*8+4*s+i%4] = p
				}
			}
		}
	case mAFV:
		ax, ay := k.Kind&1, k.Kind>>1
		f := make([]float64, 16)
		g := make([]float64, 16)
		for iy := 0; iy < 4; iy++ {
			for ix := 0; ix < 4; ix++ {
				f[iy*4+ix] = a[iy*2*8+ix*2]
				g[ix*4+iy] = a[iy*2*8+ix*2+1]
			}
		}
		f[0] = 4 * (a[0] + a[1] + a[8])
		g[0] = a[0] + a[8] - a[1]
		for iy := 0; iy < 4; iy++ {
			for ix := 0; ix < 4; ix++ {
				s := 0.0
				for j := 0; j < 16; j++ {
					s += f[j] * afvBasis[j][iy*4+ix]
				}
				y, x := iy, ix
				if ay == 1 {
					y = 3 - iy
				}
				if ax == 1 {
					x = 3 - ix
				}
				out[(ay*4+y)*8+ax*4+x] = s
			}
		}
		for i, s := range idct2(g, 4, 4) {
			out[(ay*4+i/4)*8+(1-ax)*4+i%4] = s
		}
		h := make([]float64, 32)
		for iy := 0; iy < 4; iy++ {
			for ix := 0; ix < 8; ix++ {
				h[iy*8+ix] = a[(1+iy*2)*8+ix]
			}
		}
		h[0] = a[0] - a[8]
		for i, s := range idct2(h, 4, 8) {
			out[((1-ay)*4+i/8)*8+i%8] = s
		}
	}
	return out
}
