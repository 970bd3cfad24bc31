package jx

import (
	"fmt"

	"verif/pbt"
)

// Chan is a plane of integer samples.
type Chan struct {
	W, H   int
	HS, VS int
	D      []int64
}

func NewChan(w, h int) *Chan          { return &Chan{W: w, H: h, D: make([]int64, w*h)} }
func (c *Chan) At(x, y int) int64     { return c.D[y*c.W+x] }
func (c *Chan) Set(x, y int, v int64) { c.D[y*c.W+x] = v }
func (c *Chan) Clone() *Chan {
	n := *c
	n.D = append([]int64(nil), c.D...)
	return &n
}

// Crop extracts a rectangle.
func (c *Chan) Crop(x0, y0, w, h int) *Chan {
	n := &Chan{W: w, H: h, HS: c.HS, VS: c.VS, D: make([]int64, w*h)}
	for y := 0; y < h; y++ {
		copy(n.D[y*w:(y+1)*w], c.D[(y0+y)*c.W+x0:(y0+y)*c.W+x0+w])
	}
	return n
}
func (c *Chan) Paste(n *Chan, x0, y0 int) {
	for y := 0; y < n.H; y++ {
		copy(c.D[(y0+y)*c.W+x0:(y0+y)*c.W+x0+n.W], n.D[y*n.W:(y+1)*n.W])
	}
}

// WP are the weighted predictor parameters.
type WP struct {
	Default bool
	P       [7]int // p1 p2 p3a..p3e
	Wt      [4]int
}

var DefaultWP = WP{Default: true, P: [7]int{16, 10, 7, 7, 7, 0, 0}, Wt: [4]int{13, 12, 12, 12}}

func (p WP) write(w *BW) {
	w.Bool(p.Default)
	if p.Default {
		return
	}
	for _, v := range p.P {
		w.Bits(uint64(v), 5)
	}
	for _, v := range p.Wt {
		w.Bits(uint64(v), 4)
	}
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// wpState follows the format's self-correcting predictor.
type wpState struct {
	p    WP
	w    int
	perr [4][]int64 // [2*(w+2)]
	err  []int64
	pr   [4]int64
	pred int64
}

func newWP(p WP, w int) *wpState {
	s := &wpState{p: p, w: w, err: make([]int64, 2*(w+2))}
	for i := range s.perr {
		s.perr[i] = make([]int64, 2*(w+2))
	}
	return s
}

func divl(i int64) int64 { return (1 << 24) / (i + 1) }

func flog2(v int64) int {
	n := -1
	for v > 0 {
		v >>= 1
		n++
	}
	return n
}

// predict returns the rounded prediction and the error property.
func (s *wpState) predict(x, y int, N, W, NE, NW, NN int64) (int64, int64) {
	cur, prev := s.w+2, 0
	if y&1 == 0 {
		cur, prev = 0, s.w+2
	}
	pN := prev + x
	pNE, pNW := pN, pN
	if x < s.w-1 {
		pNE = pN + 1
	}
	if x > 0 {
		pNW = pN - 1
	}
	var wt [4]int64
	for i := range wt {
		e := s.perr[i][pN] + s.perr[i][pNE] + s.perr[i][pNW]
		sh := flog2(e+1) - 5
		if sh < 0 {
			sh = 0
		}
		wt[i] = 4 + (int64(s.p.Wt[i])*divl(e>>uint(sh)))>>uint(sh)
	}
	N, W, NE, NW, NN = N*8, W*8, NE*8, NW*8, NN*8
	var tW int64
	if x > 0 {
		tW = s.err[cur+x-1]
	}
	tN, tNW, tNE := s.err[pN], s.err[pNW], s.err[pNE]
	prop := tW
	for _, e := range []int64{tN, tNW, tNE} {
		if abs64(e) > abs64(prop) {
			prop = e
		}
	}
	P := s.p.P
	s.pr[0] = W + NE - N
	s.pr[1] = N - ((tN+tW+tNE)*int64(P[0]))>>5
	s.pr[2] = W - ((tN+tW+tNW)*int64(P[1]))>>5
	s.pr[3] = N - (tNW*int64(P[2])+tN*int64(P[3])+tNE*int64(P[4])+(NN-N)*int64(P[5])+(NW-W)*int64(P[6]))>>5
	sum := wt[0] + wt[1] + wt[2] + wt[3]
	lw := flog2(sum)
	sum = 0
	for i := range wt {
		wt[i] >>= uint(lw - 4)
		sum += wt[i]
	}
	a := sum>>1 - 1
	for i := range wt {
		a += s.pr[i] * wt[i]
	}
	s.pred = (a * divl(sum-1)) >> 24
	if ((tN ^ tW) | (tN ^ tNW)) <= 0 {
		mx := max(W, max(NE, N))
		mn := min(W, min(NE, N))
		s.pred = max(mn, min(mx, s.pred))
	}
	return (s.pred + 3) >> 3, prop
}

func (s *wpState) update(v int64, x, y int) {
	cur, prev := s.w+2, 0
	if y&1 == 0 {
		cur, prev = 0, s.w+2
	}
	v *= 8
	s.err[cur+x] = s.pred - v
	for i := range s.pr {
		e := (abs64(s.pr[i]-v) + 3) >> 3
		s.perr[i][cur+x] = e
		s.perr[i][prev+x+1] += e
	}
}

// neighbours used by predictors.
type nbh struct{ W, N, NW, NE, NN, WW, NEE int64 }

func nb(c *Chan, x, y int) (n nbh) {
	if x > 0 {
		n.W = c.At(x-1, y)
	} else if y > 0 {
		n.W = c.At(x, y-1)
	}
	n.N = n.W
	if y > 0 {
		n.N = c.At(x, y-1)
	}
	n.NW = n.W
	if x > 0 && y > 0 {
		n.NW = c.At(x-1, y-1)
	}
	n.NE = n.N
	if x+1 < c.W && y > 0 {
		n.NE = c.At(x+1, y-1)
	}
	n.WW = n.W
	if x > 1 {
		n.WW = c.At(x-2, y)
	}
	n.NN = n.N
	if y > 1 {
		n.NN = c.At(x, y-2)
	}
	n.NEE = n.NE
	if x+2 < c.W && y > 0 {
		n.NEE = c.At(x+2, y-1)
	}
	return
}

func clampGrad(w, n, nw int64) int64 {
	g := w + n - nw
	return max(min(w, n), min(max(w, n), g))
}

func predict(p int, n nbh, wp int64) int64 {
	switch p {
	case 0:
		return 0
	case 1:
		return n.W
	case 2:
		return n.N
	case 3:
		return (n.W + n.N) / 2
	case 4:
		if abs64(n.N-n.NW) < abs64(n.W-n.NW) {
			return n.W
		}
		return n.N
	case 5:
		return clampGrad(n.W, n.N, n.NW)
	case 6:
		return wp
	case 7:
		return n.NE
	case 8:
		return n.NW
	case 9:
		return n.WW
	case 10:
		return (n.W + n.NW) / 2
	case 11:
		return (n.N + n.NW) / 2
	case 12:
		return (n.N + n.NE) / 2
	case 13:
		return (6*n.N - 2*n.NN + 7*n.W + n.WW + n.NEE + 3*n.NE + 8) / 16
	}
	panic("predictor")
}

// Node of a meta-adaptive tree.
type Node struct {
	Prop   int // -1 for a leaf
	Val    int64
	L, R   *Node // L: property > Val
	Pred   int
	Off    int64
	MulLog int
	MulBit int
	Ctx    int
}

func (n *Node) Mul() int64 { return int64(n.MulBit+1) << uint(n.MulLog) }

// Tree is a meta-adaptive tree.
type Tree struct {
	Root   *Node
	Leaves int
	UseWP  bool
	MaxRef int // number of reference channels consulted
}

// TreeOpts guides tree generation.
type TreeOpts struct {
	Channels  int
	Streams   []int // stream indices in use
	Dim       int
	Bits      int
	MaxNodes  int
	AllowMul  bool
	FixedPred int  // >=0 forces the predictor
	Wide      bool // samples of more than 16 bits: nothing weighted
}

// GenTree draws a tree.
func GenTree(t *pbt.T, o TreeOpts) *Tree {
	r := t.RNG()
	budget := 0
	switch t.W(2, 3, 3, 1) {
	case 1:
		budget = t.Range(1, 3)
	case 2:
		budget = t.Range(2, 10)
	case 3:
		budget = t.Range(8, 40)
	}
	if o.MaxNodes > 0 && budget > o.MaxNodes {
		budget = o.MaxNodes
	}
	mode := t.W(3, 2, 2) // predictor mix
	only := -1
	if mode == 0 {
		only = t.N(14)
	}
	maxOff := int64(1)
	if t.Chance(1, 4) {
		maxOff = 1 << uint(r.N(o.Bits+1))
	}
	mul := o.AllowMul && t.Chance(1, 2)
	tr := &Tree{}
	var rec func(depth int) *Node
	rec = func(depth int) *Node {
		if budget > 0 && depth < 12 && (depth == 0 || r.N(4) != 0) {
			budget--
			n := &Node{}
			switch r.N(8) {
			case 0:
				n.Prop = 0
				n.Val = int64(r.N(o.Channels+1)) - 1
			case 1:
				n.Prop = 1
				n.Val = int64(o.Streams[r.N(len(o.Streams))]) - int64(r.N(2))
			case 2:
				n.Prop = 2 + r.N(2)
				n.Val = int64(r.N(o.Dim + 1))
			case 3:
				n.Prop = 15
				n.Val = randSigned(r, o.Bits+3)
			case 4:
				n.Prop = 16 + r.N(4*min(4, max(1, o.Channels)))
				n.Val = randSigned(r, o.Bits)
			default:
				n.Prop = 4 + r.N(11)
				n.Val = randSigned(r, o.Bits)
			}
			if o.Wide && n.Prop == 15 {
				n.Prop = 9
				n.Val = int64(int32(n.Val))
			}
			if o.Wide && n.Prop >= 16 {
				n.Prop &^= 2
			}
			n.L = rec(depth + 1)
			n.R = rec(depth + 1)
			return n
		}
		n := &Node{Prop: -1}
		switch mode {
		case 0:
			n.Pred = only
		case 1:
			n.Pred = r.N(14)
		case 2:
			n.Pred = []int{5, 6, 6, 4, 13, 1, 2}[r.N(7)]
		}
		if o.FixedPred >= 0 {
			n.Pred = o.FixedPred
		}
		if o.Wide && (n.Pred == 6 || n.Pred == 13) {
			n.Pred -= 5
		}
		if r.N(3) == 0 {
			n.Off = int64(r.N(int(2*maxOff+1))) - maxOff
		}
		if mul && r.N(2) == 0 {
			n.MulLog = r.N(3)
			n.MulBit = r.N(4)
		}
		return n
	}
	tr.Root = rec(0)
	tr.finish()
	return tr
}

func randSigned(r *pbt.RNG, bits int) int64 {
	b := r.N(bits + 1)
	v := int64(r.Next() % (1 << uint(b)))
	if r.N(2) == 0 {
		v = -v
	}
	return v
}

// finish numbers the leaves in breadth-first order.
func (t *Tree) finish() {
	t.Leaves = 0
	q := []*Node{t.Root}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.Prop < 0 {
			n.Ctx = t.Leaves
			t.Leaves++
			if n.Pred == 6 {
				t.UseWP = true
			}
			continue
		}
		if n.Prop == 15 {
			t.UseWP = true
		}
		if n.Prop >= 16 {
			t.MaxRef = max(t.MaxRef, (n.Prop-16)/4+1)
		}
		q = append(q, n.L, n.R)
	}
}

// Tokens are the tree's own entropy coded values.
func (t *Tree) Tokens() []Tok {
	var out []Tok
	q := []*Node{t.Root}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.Prop < 0 {
			pred := uint32(n.Pred)
			if r, ok := fault("predictor"); ok {
				pred = 14 + r%100
			}
			out = append(out, Tok{1, 0}, Tok{2, pred}, Tok{3, PackSigned(n.Off)}, Tok{4, uint32(n.MulLog)}, Tok{5, uint32(n.MulBit)})
			continue
		}
		out = append(out, Tok{1, uint32(n.Prop + 1)}, Tok{0, PackSigned(n.Val)})
		q = append(q, n.L, n.R)
	}
	return out
}

// Transform kinds.
const (
	TRCT     = 0
	TPalette = 1
	TSqueeze = 2
)

// SqStep is one squeeze step.
type SqStep struct {
	Horiz, InPlace bool
	Begin, Num     int
}

// Transform of a modular stream.
type Transform struct {
	Kind     int
	Begin    int
	RCT      int
	NumC     int
	NColours int
	NDeltas  int
	DPred    int
	Steps    []SqStep // explicit steps (empty: default)
	steps    []SqStep // effective
}

func (t *Transform) write(w *BW, pick func(int) int) {
	if t.Kind != TSqueeze || len(t.Steps) > 0 {
		r, ok := fault("begin")
		u := *t
		u.Begin += 1000 + int(r%7000)
		if ok && len(t.Steps) > 0 {
			u.Steps = append([]SqStep(nil), t.Steps...)
			u.Steps[int(r)%len(u.Steps)].Begin += 1000 + int(r%7000)
		}
		if ok {
			t = &u
		}
	}
	if t.Kind != TSqueeze {
		if r, ok := fault("count"); ok {
			u := *t
			u.NumC += 1000 + int(r%7000)
			if u.Kind == TRCT {
				u.RCT = 42 + int(r)%32
			}
			t = &u
		}
	}
	if _, ok := fault("transform"); ok {
		u := *t
		u.Kind = 3
		t = &u
	}
	w.Bits(uint64(t.Kind), 2)
	b := []U32d{{0, 3}, {8, 6}, {72, 10}, {1096, 13}}
	switch t.Kind {
	case TRCT:
		w.U32(uint32(t.Begin), pick, b...)
		w.U32(uint32(t.RCT), pick, U32d{6, 0}, U32d{0, 2}, U32d{2, 4}, U32d{10, 6})
	case TPalette:
		w.U32(uint32(t.Begin), pick, b...)
		w.U32(uint32(t.NumC), pick, U32d{1, 0}, U32d{3, 0}, U32d{4, 0}, U32d{1, 13})
		w.U32(uint32(t.NColours), pick, U32d{0, 8}, U32d{256, 10}, U32d{1280, 12}, U32d{5376, 16})
		w.U32(uint32(t.NDeltas), pick, U32d{0, 0}, U32d{1, 8}, U32d{257, 10}, U32d{1281, 16})
		w.Bits(uint64(t.DPred), 4)
	case TSqueeze:
		w.U32(uint32(len(t.Steps)), pick, U32d{0, 0}, U32d{1, 4}, U32d{9, 6}, U32d{41, 8})
		for _, s := range t.Steps {
			w.Bool(s.Horiz)
			w.Bool(s.InPlace)
			w.U32(uint32(s.Begin), pick, b...)
			w.U32(uint32(s.Num), pick, U32d{1, 0}, U32d{2, 0}, U32d{3, 0}, U32d{4, 4})
		}
	}
}

var rctPerm = [6][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}}

func rctForward(ch []*Chan, typ int) {
	p, k := typ/7, typ%7
	var v [3]*Chan
	for j := 0; j < 3; j++ {
		v[j] = ch[rctPerm[p][j]]
	}
	for i := range v[0].D {
		a, b, c := v[0].D[i], v[1].D[i], v[2].D[i]
		switch k {
		case 1:
			c -= a
		case 2:
			b -= a
		case 3:
			b -= a
			c -= a
		case 4:
			b -= (a + c) >> 1
		case 5:
			b -= (a + c) >> 1
			c -= a
		case 6:
			R, G, B := a, b, c
			co := R - B
			tmp := B + co>>1
			cg := G - tmp
			y := tmp + cg>>1
			a, b, c = y, co, cg
		}
		v[0].D[i], v[1].D[i], v[2].D[i] = a, b, c
	}
	ch[0], ch[1], ch[2] = v[0], v[1], v[2]
}

func rctInverse(ch []*Chan, typ int) {
	p, k := typ/7, typ%7
	v := [3]*Chan{ch[0], ch[1], ch[2]}
	for i := range v[0].D {
		a, b, c := v[0].D[i], v[1].D[i], v[2].D[i]
		switch k {
		case 1:
			c += a
		case 2:
			b += a
		case 3:
			b += a
			c += a
		case 4:
			b += (a + c) >> 1
		case 5:
			c += a
			b += (a + c) >> 1
		case 6:
			y, co, cg := a, b, c
			tmp := y - cg>>1
			g := cg + tmp
			bb := tmp - co>>1
			r := bb + co
			a, b, c = r, g, bb
		}
		v[0].D[i], v[1].D[i], v[2].D[i] = a, b, c
	}
	for j := 0; j < 3; j++ {
		ch[rctPerm[p][j]] = v[j]
	}
}

func tendency(B, a, n int64) int64 {
	var d int64
	if B >= a && a >= n {
		d = (4*B - 3*n - a + 6) / 12
		if d-(d&1) > 2*(B-a) {
			d = 2*(B-a) + 1
		}
		if d+(d&1) > 2*(a-n) {
			d = 2 * (a - n)
		}
	} else if B <= a && a <= n {
		d = (4*B - 3*n - a - 6) / 12
		if d+(d&1) < 2*(B-a) {
			d = 2*(B-a) - 1
		}
		if d-(d&1) < 2*(a-n) {
			d = 2 * (a - n)
		}
	}
	return d
}

// squeeze1 splits a sequence; returns averages and residuals.
func squeeze1(in []int64, avg, res []int64) {
	n := len(in)
	for i := range avg {
		if 2*i+1 < n {
			A, B := in[2*i], in[2*i+1]
			k := A + B
			if A > B {
				k++
			}
			avg[i] = k >> 1
		} else {
			avg[i] = in[2*i]
		}
	}
	for i := range res {
		a := avg[i]
		nx := a
		if i+1 < len(avg) {
			nx = avg[i+1]
		}
		l := a
		if i > 0 {
			l = in[2*i-1]
		}
		res[i] = in[2*i] - in[2*i+1] - tendency(l, a, nx)
	}
}

func unsqueeze1(avg, res, out []int64) {
	for i := range res {
		a := avg[i]
		nx := a
		if i+1 < len(avg) {
			nx = avg[i+1]
		}
		l := a
		if i > 0 {
			l = out[2*i-1]
		}
		d := res[i] + tendency(l, a, nx)
		A := a + d/2
		out[2*i] = A
		out[2*i+1] = A - d
	}
	if len(avg) > len(res) {
		out[2*len(res)] = avg[len(res)]
	}
}

func squeezeChan(c *Chan, horiz bool) (a, r *Chan) {
	// the shifts of meta channels stay at -1
	hs, vs := c.HS, c.VS
	if horiz {
		if hs >= 0 {
			hs++
		}
		a = &Chan{W: (c.W + 1) / 2, H: c.H, HS: hs, VS: vs}
		r = &Chan{W: c.W / 2, H: c.H, HS: hs, VS: vs}
	} else {
		if vs >= 0 {
			vs++
		}
		a = &Chan{W: c.W, H: (c.H + 1) / 2, HS: hs, VS: vs}
		r = &Chan{W: c.W, H: c.H / 2, HS: hs, VS: vs}
	}
	a.D, r.D = make([]int64, a.W*a.H), make([]int64, r.W*r.H)
	if horiz {
		for y := 0; y < c.H; y++ {
			squeeze1(c.D[y*c.W:(y+1)*c.W], a.D[y*a.W:(y+1)*a.W], r.D[y*r.W:(y+1)*r.W])
		}
		return
	}
	col, ca, cr := make([]int64, c.H), make([]int64, a.H), make([]int64, r.H)
	for x := 0; x < c.W; x++ {
		for y := range col {
			col[y] = c.At(x, y)
		}
		squeeze1(col, ca, cr)
		for y := range ca {
			a.Set(x, y, ca[y])
		}
		for y := range cr {
			r.Set(x, y, cr[y])
		}
	}
	return
}

func unsqueezeChan(a, r *Chan, horiz bool) *Chan {
	var c *Chan
	if horiz {
		c = &Chan{W: a.W + r.W, H: a.H, HS: max(a.HS-1, -1), VS: a.VS}
		c.D = make([]int64, c.W*c.H)
		for y := 0; y < c.H; y++ {
			unsqueeze1(a.D[y*a.W:(y+1)*a.W], r.D[y*r.W:(y+1)*r.W], c.D[y*c.W:(y+1)*c.W])
		}
		return c
	}
	c = &Chan{W: a.W, H: a.H + r.H, HS: a.HS, VS: max(a.VS-1, -1)}
	c.D = make([]int64, c.W*c.H)
	col, ca, cr := make([]int64, c.H), make([]int64, a.H), make([]int64, r.H)
	for x := 0; x < c.W; x++ {
		for y := range ca {
			ca[y] = a.At(x, y)
		}
		for y := range cr {
			cr[y] = r.At(x, y)
		}
		unsqueeze1(ca, cr, col)
		for y := range col {
			c.Set(x, y, col[y])
		}
	}
	return c
}

// ChanList is the list of channels of a stream with its meta channels.
type ChanList struct {
	C    []*Chan
	Meta int
}

// DefaultSqueeze gives the steps implied by an empty squeeze transform.
func DefaultSqueeze(l *ChanList) []SqStep {
	var out []SqStep
	first := l.Meta
	n := len(l.C) - first
	w, h := l.C[first].W, l.C[first].H
	if n > 2 && l.C[first+1].W == w && l.C[first+1].H == h {
		out = append(out, SqStep{true, false, first + 1, 2}, SqStep{false, false, first + 1, 2})
	}
	if h >= w && h > 8 {
		out = append(out, SqStep{false, true, first, n})
		h = (h + 1) / 2
	}
	for w > 8 || h > 8 {
		if w > 8 {
			out = append(out, SqStep{true, true, first, n})
			w = (w + 1) / 2
		}
		if h > 8 {
			out = append(out, SqStep{false, true, first, n})
			h = (h + 1) / 2
		}
	}
	return out
}

func (l *ChanList) insert(i int, c *Chan) {
	l.C = append(l.C, nil)
	copy(l.C[i+1:], l.C[i:])
	l.C[i] = c
}
func (l *ChanList) remove(i int) { l.C = append(l.C[:i], l.C[i+1:]...) }

func (l *ChanList) squeezeForward(steps []SqStep) {
	for _, s := range steps {
		end := s.Begin + s.Num - 1
		off := end + 1
		if !s.InPlace {
			off = len(l.C)
		}
		if s.Begin < l.Meta {
			l.Meta += s.Num
		}
		for c := s.Begin; c <= end; c++ {
			a, r := squeezeChan(l.C[c], s.Horiz)
			l.C[c] = a
			l.insert(off+c-s.Begin, r)
		}
	}
}
func (l *ChanList) squeezeInverse(steps []SqStep) {
	for k := len(steps) - 1; k >= 0; k-- {
		s := steps[k]
		end := s.Begin + s.Num - 1
		off := end + 1
		if !s.InPlace {
			off = len(l.C) - s.Num
		}
		if s.Begin < l.Meta {
			l.Meta -= s.Num
		}
		for c := s.Begin; c <= end; c++ {
			l.C[c] = unsqueezeChan(l.C[c], l.C[off+c-s.Begin], s.Horiz)
		}
		for c := 0; c < s.Num; c++ {
			l.remove(off)
		}
	}
}

var kDelta = [72][3]int64{
	{0, 0, 0}, {4, 4, 4}, {11, 0, 0}, {0, 0, -13}, {0, -12, 0}, {-10, -10, -10},
	{-18, -18, -18}, {-27, -27, -27}, {-18, -18, 0}, {0, 0, -32}, {-32, 0, 0}, {-37, -37, -37},
	{0, -32, -32}, {24, 24, 45}, {50, 50, 50}, {-45, -24, -24}, {-24, -45, -45}, {0, -24, -24},
	{-34, -34, 0}, {-24, 0, -24}, {-45, -45, -24}, {64, 64, 64}, {-32, 0, -32}, {0, -32, 0},
	{-32, 0, 32}, {-24, -45, -24}, {45, 24, 45}, {24, -24, -45}, {-45, -24, 24}, {80, 80, 80},
	{64, 0, 0}, {0, 0, -64}, {0, -64, -64}, {-24, -24, 45}, {96, 96, 96}, {64, 64, 0},
	{45, -24, -24}, {34, -34, 0}, {112, 112, 112}, {24, -45, -45}, {45, 45, -24}, {0, -32, 32},
	{24, -24, 45}, {0, 96, 96}, {45, -24, 24}, {24, -45, -24}, {-24, -45, 24}, {0, -64, 0},
	{96, 0, 0}, {128, 128, 128}, {64, 0, 64}, {144, 144, 144}, {96, 96, 0}, {-36, -36, 36},
	{45, -24, -45}, {45, -45, -24}, {0, 0, -96}, {0, 128, 128}, {0, 96, 0}, {45, 24, -45},
	{-128, 0, 0}, {24, -45, 24}, {-45, 24, -45}, {64, 0, -64}, {64, -64, -64}, {96, 0, 96},
	{45, -45, 24}, {24, 45, -45}, {64, 64, -64}, {128, 128, 0}, {0, 0, -128}, {-24, 45, -45}}

func paletteValue(pal *Chan, idx int64, c int, ncol int, depth int) int64 {
	if depth > 24 {
		depth = 24
	}
	if idx < 0 {
		if c >= 3 {
			return 0
		}
		k := (-(idx + 1)) % 143
		v := kDelta[(k+1)>>1][c]
		if k&1 == 0 {
			v = -v
		}
		if depth > 8 {
			v *= 1 << uint(depth-8)
		}
		return v
	}
	if idx < int64(ncol) {
		return pal.At(int(idx), c)
	}
	idx -= int64(ncol)
	full := int64(1)<<uint(depth) - 1
	if idx < 64 {
		return (idx>>uint(2*c))%4*full/4 + 1<<uint(max(0, depth-3))
	}
	idx -= 64
	for i := 0; i < c; i++ {
		idx /= 5
	}
	return idx % 5 * full / 4
}

// paletteInverse undoes a palette transform (palette at 0, indices at begin+1).
func (l *ChanList) paletteInverse(t *Transform, depth int, wp WP) {
	pal := l.C[0]
	idx := l.C[t.Begin+1]
	outs := make([]*Chan, t.NumC)
	for c := range outs {
		o := &Chan{W: idx.W, H: idx.H, HS: idx.HS, VS: idx.VS, D: make([]int64, idx.W*idx.H)}
		ws := newWP(wp, idx.W)
		for y := 0; y < o.H; y++ {
			for x := 0; x < o.W; x++ {
				i := idx.At(x, y)
				v := paletteValue(pal, i, c, t.NColours, depth)
				n := nb(o, x, y)
				var wpv int64
				if t.DPred == 6 {
					wpv, _ = ws.predict(x, y, n.N, n.W, n.NE, n.NW, n.NN)
				}
				if i < int64(t.NDeltas) {
					v += predict(t.DPred, n, wpv)
				}
				o.Set(x, y, v)
				if t.DPred == 6 {
					ws.update(v, x, y)
				}
			}
		}
		outs[c] = o
	}
	l.remove(t.Begin + 1)
	for c := range outs {
		l.insert(t.Begin+1+c, outs[c])
	}
	l.remove(0)
	if t.Begin < l.Meta-1 {
		l.Meta -= 2 - t.NumC
	} else {
		l.Meta--
	}
}

// Inverse undoes the transforms.
func (l *ChanList) Inverse(ts []*Transform, depth int, wp WP) {
	for i := len(ts) - 1; i >= 0; i-- {
		t := ts[i]
		switch t.Kind {
		case TRCT:
			rctInverse(l.C[t.Begin:t.Begin+3], t.RCT)
		case TSqueeze:
			l.squeezeInverse(t.steps)
		case TPalette:
			l.paletteInverse(t, depth, wp)
		}
	}
}

// TransOpts guides the choice of transforms.
type TransOpts struct {
	Depth    int // bits per sample of the image header
	Max      int
	NoPal    bool
	NoSq     bool
	NoRCT    bool
	NoSynth  bool // only lossless palettes
	NoDelta  bool
	ColourCh int
}

// GenTransforms draws transforms and applies them to l.  lossless reports
// whether inverting gives back the channels l had.
func GenTransforms(t *pbt.T, l *ChanList, o TransOpts, feat map[string]bool) (ts []*Transform, lossless bool) {
	lossless = true
	n := t.W(4, 4, 2, 1, 1)
	if n > o.Max {
		n = o.Max
	}
	for k := 0; k < n; k++ {
		switch t.W(3, 3, 3) {
		case 0:
			if o.NoRCT {
				continue
			}
			var starts []int
			for i := 0; i+2 < len(l.C); i++ {
				a, b, c := l.C[i], l.C[i+1], l.C[i+2]
				if a.W == b.W && b.W == c.W && a.H == b.H && b.H == c.H && a.HS == b.HS && b.HS == c.HS && a.VS == b.VS && b.VS == c.VS && (i >= l.Meta || i+2 < l.Meta) {
					starts = append(starts, i)
				}
			}
			if len(starts) == 0 {
				continue
			}
			tr := &Transform{Kind: TRCT, Begin: starts[t.N(len(starts))], RCT: t.N(42)}
			rctForward(l.C[tr.Begin:tr.Begin+3], tr.RCT)
			feat[fmt.Sprintf("rct%d", tr.RCT%7)] = true
			if tr.Begin < l.Meta {
				feat["rct-meta"] = true
			}
			if tr.RCT/7 > 0 {
				feat["rct-perm"] = true
			}
			ts = append(ts, tr)
		case 1:
			if o.NoSq || len(l.C) == l.Meta || len(l.C) > 40 {
				continue
			}
			tr := &Transform{Kind: TSqueeze}
			if t.Chance(1, 2) {
				cnt := t.Range(1, 3)
				sim := &ChanList{Meta: l.Meta}
				for _, c := range l.C {
					sim.C = append(sim.C, &Chan{W: c.W, H: c.H, HS: c.HS, VS: c.VS, D: make([]int64, c.W*c.H)})
				}
				for j := 0; j < cnt && len(sim.C) < 30; j++ {
					b := sim.Meta + t.N(len(sim.C)-sim.Meta)
					mx := min(len(sim.C)-b, 19)
					s := SqStep{t.Bool(), t.Bool(), b, t.Range(1, mx)}
					if sim.Meta > 0 && sim.Meta < 12 && t.Chance(1, 3) {
						// meta channels, squeezed in place
						s.InPlace = true
						s.Begin = t.N(sim.Meta)
						s.Num = t.Range(1, sim.Meta-s.Begin)
					}
					okDim := true
					for c := s.Begin; c < s.Begin+s.Num; c++ {
						ch := sim.C[c]
						if ch.HS > 2 && s.Horiz || ch.VS > 2 && !s.Horiz || ch.W == 0 || ch.H == 0 || s.Horiz && ch.W < 2 || !s.Horiz && ch.H < 2 {
							okDim = false
						}
					}
					if !okDim {
						continue
					}
					if s.Begin < sim.Meta {
						feat["squeeze-meta"] = true
					}
					tr.Steps = append(tr.Steps, s)
					sim.squeezeForward([]SqStep{s})
				}
				if len(tr.Steps) == 0 {
					continue
				}
				tr.steps = tr.Steps
				feat["squeeze-explicit"] = true
			} else {
				tr.steps = DefaultSqueeze(l)
				if len(l.C)-l.Meta > 12 || len(tr.steps) == 0 {
					continue
				}
				feat["squeeze-default"] = true
				if l.Meta > 0 {
					feat["squeeze-after-palette"] = true
				}
			}
			l.squeezeForward(tr.steps)
			ts = append(ts, tr)
		case 2:
			if o.NoPal || len(l.C) == l.Meta || l.Meta > 4 {
				continue
			}
			b := l.Meta + t.N(len(l.C)-l.Meta)
			lim := len(l.C)
			if l.Meta > 0 && t.Chance(1, 4) {
				// a palette of palettes
				b, lim = t.N(l.Meta), l.Meta
				feat["palette-meta"] = true
			}
			mx := 1
			for b+mx < lim && mx < 5 && l.C[b+mx].W == l.C[b].W && l.C[b+mx].H == l.C[b].H && l.C[b+mx].HS == l.C[b].HS && l.C[b+mx].VS == l.C[b].VS {
				mx++
			}
			nc := mx
			if t.Chance(1, 3) {
				nc = t.Range(1, mx)
			}
			if l.C[b].W == 0 || l.C[b].H == 0 {
				continue
			}
			tr := &Transform{Kind: TPalette, Begin: b, NumC: nc}
			if nc == 1 {
				feat["palette-1"] = true
			}
			if b > l.Meta {
				feat["palette-begin"] = true
			}
			if b+nc < len(l.C) {
				feat["palette-then-more"] = true
			}
			r := t.RNG()
			idx := &Chan{W: l.C[b].W, H: l.C[b].H, HS: l.C[b].HS, VS: l.C[b].VS, D: make([]int64, len(l.C[b].D))}
			// collect colours
			cols := map[string]int{}
			var list [][]int64
			key := make([]byte, 0, 64)
			over := false
			for i := range idx.D {
				key = key[:0]
				for c := 0; c < nc; c++ {
					v := l.C[b+c].D[i]
					for s := 0; s < 5; s++ {
						key = append(key, byte(v>>uint(8*s)))
					}
				}
				p, ok := cols[string(key)]
				if !ok {
					p = len(list)
					if p >= 900 {
						over = true
						break
					}
					cols[string(key)] = p
					cv := make([]int64, nc)
					for c := range cv {
						cv[c] = l.C[b+c].D[i]
					}
					list = append(list, cv)
				}
				idx.D[i] = int64(p)
			}
			synth := !o.NoSynth && b >= l.Meta && (over || t.Chance(1, 2))
			if (over && !synth) || len(list) == 0 && !synth {
				continue
			}
			if synth {
				lossless = false
				feat["palette-synth"] = true
				tr.NColours = t.N(20)
				bits := o.Depth
				list = nil
				for i := 0; i < tr.NColours; i++ {
					cv := make([]int64, nc)
					for c := range cv {
						cv[c] = int64(r.Next() % (1 << uint(bits)))
					}
					list = append(list, cv)
				}
				if !o.NoDelta && t.Chance(1, 2) && tr.NColours > 0 {
					tr.NDeltas = t.Range(1, tr.NColours)
					tr.DPred = t.N(14)
					feat["palette-delta"] = true
					feat[fmt.Sprintf("palette-dpred%d", tr.DPred)] = true
					for i := 0; i < tr.NDeltas; i++ {
						for c := range list[i] {
							list[i][c] = int64(r.N(9)) - 4
						}
					}
				}
				lo, hi := int64(0), int64(tr.NColours)
				if !o.NoDelta && t.Chance(1, 3) {
					lo = -int64(r.N(200))
					feat["palette-negative"] = true
				}
				if nc <= 3 && t.Chance(1, 2) {
					hi += int64(64 + 125)
					feat["palette-implicit"] = true
				}
				if hi <= lo {
					hi = lo + 1
					if tr.NColours == 0 && nc > 3 {
						lo, hi = -4, 0
					} else if tr.NColours == 0 {
						hi = 64 + 125
					}
				}
				run := int64(0)
				for i := range idx.D {
					if i == 0 || r.N(3) == 0 {
						run = lo + int64(r.Next()%uint64(hi-lo))
					}
					idx.D[i] = run
				}
			} else {
				feat["palette-lossless"] = true
				perm := make([]int, len(list))
				for i := range perm {
					perm[i] = i
				}
				if t.Bool() {
					for i := len(perm) - 1; i > 0; i-- {
						j := r.N(i + 1)
						perm[i], perm[j] = perm[j], perm[i]
					}
				}
				nl := make([][]int64, len(list))
				for i, p := range perm {
					nl[p] = list[i]
				}
				for i := range idx.D {
					idx.D[i] = int64(perm[idx.D[i]])
				}
				list = nl
				tr.NColours = len(list)
				tr.DPred = t.N(14)
			}
			pal := &Chan{W: tr.NColours, H: nc, HS: -1, VS: -1, D: make([]int64, tr.NColours*nc)}
			for i, cv := range list {
				for c, v := range cv {
					pal.Set(i, c, v)
				}
			}
			for c := 0; c < nc; c++ {
				l.remove(b)
			}
			l.insert(b, idx)
			l.insert(0, pal)
			if b < l.Meta {
				l.Meta += 2 - nc
			} else {
				l.Meta++
			}
			ts = append(ts, tr)
		}
	}
	return
}

// Stream is one modular sub-bitstream being encoded.
type Stream struct {
	Idx        int
	List       *ChanList
	Todo       []int // channels coded in this stream, in order
	Trans      []*Transform
	WP         WP
	UseGlobal  bool
	Tree       *Tree
	Toks       []Tok
	Mult       int
	code       *Code // local
	treeCode   *Code
	globalSlot int
}

// Tokenise produces the residual tokens, quantising samples where the tree
// has multipliers (the channels are updated to what will be decoded).
func (s *Stream) Tokenise() (changed bool) {
	s.Mult = 0
	for _, ci := range s.Todo {
		if s.List.C[ci].H > 0 {
			s.Mult = max(s.Mult, s.List.C[ci].W)
		}
	}
	for _, ci := range s.Todo {
		c := s.List.C[ci]
		if c.W == 0 || c.H == 0 {
			continue
		}
		var ws *wpState
		if s.Tree.UseWP {
			ws = newWP(s.WP, c.W)
		}
		// reference channels
		var refs []*Chan
		for j := ci - 1; j >= 0 && len(refs) < s.Tree.MaxRef; j-- {
			o := s.List.C[j]
			if o.W == c.W && o.H == c.H && o.HS == c.HS && o.VS == c.VS {
				refs = append(refs, o)
			}
		}
		for y := 0; y < c.H; y++ {
			prevGrad := int64(0)
			for x := 0; x < c.W; x++ {
				n := nb(c, x, y)
				var wpv, wpp int64
				if ws != nil {
					wpv, wpp = ws.predict(x, y, n.N, n.W, n.NE, n.NW, n.NN)
				}
				grad := n.W + n.N - n.NW
				node := s.Tree.Root
				for node.Prop >= 0 {
					var v int64
					switch node.Prop {
					case 0:
						v = int64(ci)
					case 1:
						v = int64(s.Idx)
					case 2:
						v = int64(y)
					case 3:
						v = int64(x)
					case 4:
						v = abs64(n.N)
					case 5:
						v = abs64(n.W)
					case 6:
						v = n.N
					case 7:
						v = n.W
					case 8:
						v = n.W - prevGrad
					case 9:
						v = grad
					case 10:
						v = n.W - n.NW
					case 11:
						v = n.NW - n.N
					case 12:
						v = n.N - n.NE
					case 13:
						v = n.N - n.NN
					case 14:
						v = n.W - n.WW
					case 15:
						v = wpp
					default:
						k := (node.Prop - 16) / 4
						if k < len(refs) {
							r := refs[k]
							val := r.At(x, y)
							var vl, vt, vtl int64
							if x > 0 {
								vl = r.At(x-1, y)
							}
							vt = vl
							if y > 0 {
								vt = r.At(x, y-1)
							}
							vtl = vl
							if x > 0 && y > 0 {
								vtl = r.At(x-1, y-1)
							}
							switch (node.Prop - 16) % 4 {
							case 0:
								v = abs64(val)
							case 1:
								v = val
							case 2:
								v = abs64(val - clampGrad(vl, vt, vtl))
							case 3:
								v = val - clampGrad(vl, vt, vtl)
							}
						}
					}
					if int64(int32(v)) > node.Val {
						node = node.L
					} else {
						node = node.R
					}
				}
				prevGrad = grad
				p := predict(node.Pred, n, wpv) + node.Off
				d := c.At(x, y) - p
				m := node.Mul()
				if m == 1 {
					d = int64(int32(d))
				}
				q := d / m
				if q*m != d {
					if d < 0 {
						q--
					}
					c.Set(x, y, p+q*m)
					changed = true
				}
				s.Toks = append(s.Toks, Tok{node.Ctx, PackSigned(q)})
				if ws != nil {
					ws.update(c.At(x, y), x, y)
				}
			}
		}
	}
	return
}

// WriteHeader writes the group header; local trees follow it.
func (s *Stream) Write(w *BW, global *Code, pick func(int) int) {
	w.Bool(s.UseGlobal)
	s.WP.write(w)
	w.U32(uint32(len(s.Trans)), pick, U32d{0, 0}, U32d{1, 0}, U32d{2, 4}, U32d{18, 8})
	for _, t := range s.Trans {
		t.write(w, pick)
	}
	if !s.UseGlobal {
		s.treeCode.WriteHeader(w)
		s.treeCode.WriteStream(w, 0)
		s.code.WriteHeader(w)
		s.code.WriteStream(w, 0)
		return
	}
	global.WriteStream(w, s.globalSlot)
}

// PrepareLocal builds the local tree and entropy codes.
func (s *Stream) PrepareLocal(t *pbt.T, eo EOpts, feat map[string]bool) {
	s.treeCode = NewCode(t, 6, [][]Tok{s.Tree.Tokens()}, []int{0}, eo)
	s.code = NewCode(t, s.Tree.Leaves, [][]Tok{s.Toks}, []int{s.Mult}, eo)
	for k := range s.code.Feat {
		feat[k] = true
	}
	for k := range s.treeCode.Feat {
		feat["tree-"+k] = true
	}
}
