package unit

import (
	"math"

	"github.com/kpfaulkner/jxl-go/colour"

	"verif/pbt"
)

func init() { reg("C33", c33) }

// refTransfer is the definition of a transfer function: to linear and from linear.
func refTransfer(tf int32) (to, from func(float64) float64) {
	gamma := func(g float64) (func(float64) float64, func(float64) float64) {
		return func(v float64) float64 { return math.Exp(math.Log(v) / g) }, func(v float64) float64 { return math.Exp(math.Log(v) * g) }
	}
	switch tf {
	case 8 + 1<<24:
		id := func(v float64) float64 { return v }
		return id, id
	case 13 + 1<<24: // IEC 61966-2-1
		return func(v float64) float64 {
				if v <= 0.04045 {
					return v / 12.92
				}
				return math.Pow((v+0.055)/1.055, 2.4)
			}, func(v float64) float64 {
				if v <= 0.0031308 {
					return v * 12.92
				}
				return 1.055*math.Pow(v, 1/2.4) - 0.055
			}
	case 1 + 1<<24: // BT.709, with the exact constants of BT.2020
		const a, b = 1.09929682680944, 0.018053968510807
		return func(v float64) float64 {
				if v < 4.5*b {
					return v / 4.5
				}
				return math.Pow((v+a-1)/a, 1/0.45)
			}, func(v float64) float64 {
				if v < b {
					return v * 4.5
				}
				return a*math.Pow(v, 0.45) - (a - 1)
			}
	case 16 + 1<<24: // SMPTE ST 2084
		const m1, m2 = 2610.0 / 16384, 2523.0 / 4096 * 128
		const c1, c2, c3 = 3424.0 / 4096, 2413.0 / 4096 * 32, 2392.0 / 4096 * 32
		return func(v float64) float64 {
				p := math.Pow(v, 1/m2)
				return math.Pow(math.Max(p-c1, 0)/(c2-c3*p), 1/m1)
			}, func(v float64) float64 {
				p := math.Pow(v, m1)
				return math.Pow((c1+c2*p)/(1+c3*p), m2)
			}
	case 17 + 1<<24: // SMPTE RP 431-2, up to its factor
		return gamma(1 / 2.6)
	}
	return gamma(float64(tf) / 1e7)
}

var tfNames = []int32{1, 8, 13, 16, 17}

func transferFunctions(t *pbt.T) {
	tf := tfNames[t.N(len(tfNames))] + 1<<24
	if t.Chance(1, 3) {
		tf = int32(t.Range(1221, 10_000_000))
		if t.Chance(1, 8) {
			tf = []int32{1221, 10_000_000, 4545454, 5000000, 3333333}[t.N(5)]
		}
	}
	f, err := colour.GetTransferFunction(tf)
	if err != nil {
		t.Failf("transfer function %#x: %v", tf, err)
	}
	t.Logf("transfer function %#x;", tf)
	to, from := refTransfer(tf)
	near := func(what string, x, got, want, rel float64) {
		if !(math.Abs(got-want) <= 2e-7+rel*math.Abs(want)) {
			t.Failf("transfer function %#x: %s(%v) is %v, want %v", tf, what, x, got, want)
		}
	}
	lastIn, lastTo, lastFrom := math.Inf(-1), math.Inf(-1), math.Inf(-1)
	var xs []float64
	for i := 0; i < 12; i++ {
		x := float64(t.Bits(32)) / (1<<32 - 1)
		switch t.N(8) {
		case 0:
			x = math.Pow(2, -20*x)
		case 1:
			x = 0.02 * x
		case 2:
			x = []float64{0, 1, 0.5, 0.04045, 0.0031308, 0.0812428, 0.018054, 0.0404482, 0.0031306}[t.N(9)]
		}
		xs = append(xs, x)
	}
	sortFloats(xs)
	for _, x := range xs {
		// the steep functions are compared where doubles resolve them
		a, b := f.ToLinear(x), f.FromLinear(x)
		near("ToLinear", x, a, to(x), 1e-6)
		near("FromLinear", x, b, from(x), 1e-6)
		if tf > 1<<24 || tf > 100000 {
			near("FromLinear(ToLinear)", x, f.FromLinear(a), from(to(x)), 1e-5)
			near("ToLinear(FromLinear)", x, f.ToLinear(b), x, 1e-5)
		}
		if x > lastIn && (a < lastTo-1e-7 || b < lastFrom-1e-7) {
			t.Failf("transfer function %#x decreases between %v and %v", tf, lastIn, x)
		}
		lastIn, lastTo, lastFrom = x, a, b
		t.Eval(4)
	}
	// those that are not supported are reported
	bad := int32(t.Range(1<<24, 1<<24+40))
	ok := false
	for _, n := range tfNames {
		ok = ok || bad == n+1<<24
	}
	if f, err := colour.GetTransferFunction(bad); !ok && bad != 18+1<<24 && (err == nil || f != nil) {
		t.Failf("transfer function %#x, which does not exist, was given", bad)
	}
}

func sortFloats(v []float64) {
	for i := range v {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

type mat [3][3]float64

func (a mat) mul(b mat) (r mat) {
	for i := range r {
		for j := range r[i] {
			for k := range r {
				r[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a mat) vec(v [3]float64) (r [3]float64) {
	for i := range r {
		r[i] = a[i][0]*v[0] + a[i][1]*v[1] + a[i][2]*v[2]
	}
	return
}

func (a mat) inv() (r mat) {
	m := [3][6]float64{}
	for i := range a {
		copy(m[i][:], a[i][:])
		m[i][3+i] = 1
	}
	for c := 0; c < 3; c++ {
		p := c
		for i := c; i < 3; i++ {
			if math.Abs(m[i][c]) > math.Abs(m[p][c]) {
				p = i
			}
		}
		m[c], m[p] = m[p], m[c]
		for j := 5; j >= c; j-- {
			m[c][j] /= m[c][c]
		}
		for i := range m {
			if i != c {
				f := m[i][c]
				for j := range m[i] {
					m[i][j] -= f * m[c][j]
				}
			}
		}
	}
	for i := range r {
		copy(r[i][:], m[i][3:])
	}
	return
}

func (a mat) norm() (n float64) {
	for _, r := range a {
		n = math.Max(n, math.Abs(r[0])+math.Abs(r[1])+math.Abs(r[2]))
	}
	return
}

type xy struct{ x, y float64 }

func (c xy) xyz() [3]float64 { return [3]float64{c.x / c.y, 1, (1 - c.x - c.y) / c.y} }

func (c xy) cie() *colour.CIEXY { return colour.NewCIEXY(float32(c.x), float32(c.y)) }

type space struct {
	r, g, b, w xy
}

func (s space) prim() colour.CIEPrimaries {
	return *colour.NewCIEPrimaries(s.r.cie(), s.g.cie(), s.b.cie())
}

// toXYZ takes linear colours of the space to XYZ.
func (s space) toXYZ() mat {
	r, g, b := s.r.xyz(), s.g.xyz(), s.b.xyz()
	m := mat{}
	for i := range m {
		m[i] = [3]float64{r[i], g[i], b[i]}
	}
	k := m.inv().vec(s.w.xyz())
	for i := range m {
		for j := range m[i] {
			m[i][j] *= k[j]
		}
	}
	return m
}

var bradford = mat{{0.8951, 0.2664, -0.1614}, {-0.7502, 1.7135, 0.0367}, {0.0389, -0.0685, 1.0296}}

// adapt takes XYZ colours under one white point to another.
func adapt(from, to xy) mat {
	a, b := bradford.vec(from.xyz()), bradford.vec(to.xyz())
	d := mat{}
	for i := range d {
		d[i][i] = b[i] / a[i]
	}
	return bradford.inv().mul(d).mul(bradford)
}

var spaces = []space{
	{xy{0.639998686, 0.330010138}, xy{0.300003784, 0.600003357}, xy{0.150002046, 0.059997204}, xy{0.3127, 0.3290}},
	{xy{0.708, 0.292}, xy{0.170, 0.797}, xy{0.131, 0.046}, xy{0.3127, 0.3290}},
	{xy{0.680, 0.320}, xy{0.265, 0.690}, xy{0.150, 0.060}, xy{0.314, 0.351}},
	{xy{0.7347, 0.2653}, xy{0.1152, 0.8264}, xy{0.1566, 0.0177}, xy{0.3457, 0.3585}},
	{xy{0.64, 0.33}, xy{0.21, 0.71}, xy{0.15, 0.06}, xy{1.0 / 3, 1.0 / 3}},
}

// genSpace draws a colour space whose matrices are well conditioned.
func genSpace(t *pbt.T) space {
	s := spaces[t.N(len(spaces))]
	if t.Chance(1, 3) {
		s.w = spaces[t.N(len(spaces))].w
	}
	if t.Chance(1, 2) {
		for _, p := range []*xy{&s.r, &s.g, &s.b, &s.w} {
			p.x = math.Abs(p.x + float64(t.Range(-10, 10))/1000)
			p.y += float64(t.Range(-10, 10)) / 1000
		}
	}
	// what single precision makes of it
	for _, p := range []*xy{&s.r, &s.g, &s.b, &s.w} {
		p.x, p.y = float64(float32(p.x)), float64(float32(p.y))
	}
	return s
}

func asMat(m [][]float32) (r mat) {
	for i := range r {
		for j := range r[i] {
			r[i][j] = float64(m[i][j])
		}
	}
	return
}

func nearMat(t *pbt.T, what string, got [][]float32, want mat, tol float64) {
	if len(got) != 3 || len(got[0]) != 3 || len(got[1]) != 3 || len(got[2]) != 3 {
		t.Failf("%s is not a 3x3 matrix", what)
	}
	for i, r := range asMat(got) {
		for j, v := range r {
			if !(math.Abs(v-want[i][j]) <= tol) {
				t.Failf("%s: entry (%d,%d) is %v, want %v (tolerance %.2g)", what, i, j, v, want[i][j], tol)
			}
		}
	}
	t.Eval(9)
}

func differ(a, b xy) float64 { return math.Abs(a.x-b.x) + math.Abs(a.y-b.y) }

func (s space) differs(o space) (d [2]float64) {
	d[0] = math.Min(differ(s.r, o.r)+1, 9)
	d[0] = math.Max(math.Max(differ(s.r, o.r), differ(s.g, o.g)), differ(s.b, o.b))
	d[1] = differ(s.w, o.w)
	return
}

func conversions(t *pbt.T) {
	a, b := genSpace(t), genSpace(t)
	got, err := colour.GetConversionMatrix(b.prim(), *b.w.cie(), a.prim(), *a.w.cie())
	if err != nil {
		t.Failf("conversion matrix of %v to %v: %v", a, b, err)
	}
	t.Logf("%.4f to %.4f;", a, b)
	ma, mb := a.toXYZ(), b.toXYZ()
	want := mb.inv().mul(adapt(a.w, b.w)).mul(ma)
	tol := 3e-6 * mb.inv().norm() * mb.norm() * (1 + adapt(a.w, b.w).norm()) * ma.norm() * ma.inv().norm()
	d := a.differs(b)
	if d[0] < 2e-4 || d[1] < 2e-4 {
		// those that are nearly the same may be taken as the same
		tol += 5e-3
	}
	nearMat(t, "conversion matrix", got, want, tol)
	// white stays white
	for i, v := range asMat(got).vec([3]float64{1, 1, 1}) {
		if !(math.Abs(v-1) <= tol) {
			t.Failf("white becomes %v in component %d", v, i)
		}
	}
	back, err := colour.GetConversionMatrix(a.prim(), *a.w.cie(), b.prim(), *b.w.cie())
	if err != nil {
		t.Failf("conversion matrix of %v to %v: %v", b, a, err)
	}
	id := mat{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	p := asMat(back).mul(asMat(got))
	for i := range p {
		for j := range p[i] {
			if !(math.Abs(p[i][j]-id[i][j]) <= 3*tol*math.Max(want.norm(), want.inv().norm())) {
				t.Failf("converting there and back gives %v", p)
			}
		}
	}
	same, err := colour.GetConversionMatrix(a.prim(), *a.w.cie(), a.prim(), *a.w.cie())
	if err != nil {
		t.Failf("conversion matrix of %v to itself: %v", a, err)
	}
	nearMat(t, "conversion to the same space", same, id, 0)
	// white points
	ad, err := colour.AdaptWhitePoint(b.w.cie(), a.w.cie())
	if err != nil {
		t.Failf("adapting white points: %v", err)
	}
	nearMat(t, "white point adaptation", ad, adapt(a.w, b.w), 2e-5)
	xyz, err := colour.GetXYZ(*a.w.cie())
	if err != nil {
		t.Failf("XYZ of %v: %v", a.w, err)
	}
	for i, v := range a.w.xyz() {
		if !(math.Abs(float64(xyz[i])-v) < 1e-5*(1+math.Abs(v))) {
			t.Failf("XYZ of %v: %v", a.w, xyz)
		}
	}
	// inverse XYB matrices of other spaces
	o := colour.NewOpsinInverseMatrix()
	om := asMat(o.Matrix)
	prim := a.prim()
	conv, err := o.GetMatrix(&prim, a.w.cie())
	if err != nil {
		t.Failf("GetMatrix: %v", err)
	}
	s0 := spaces[0]
	m0 := s0.toXYZ()
	wm := ma.inv().mul(adapt(s0.w, a.w)).mul(m0)
	nearMat(t, "inverse XYB matrix", conv.Matrix, wm.mul(om), (3e-6*ma.norm()*ma.inv().norm()*m0.norm()*m0.inv().norm()*2+bit(a.differs(s0), 5e-3))*om.norm())
	nearMat(t, "default inverse XYB matrix after the conversion", o.Matrix, om, 0)
	if !conv.Primaries.Matches(&prim) || !conv.WhitePoint.Matches(a.w.cie()) || conv.QuantBiasNumerator != o.QuantBiasNumerator {
		t.Failf("the converted inverse matrix has other primaries, white point or biases")
	}
	if !o.Matches(*colour.NewOpsinInverseMatrix()) {
		t.Failf("the default inverse matrix does not match itself")
	}
	// the parts of a result belong to the caller
	if t.Bool() {
		for _, m := range [][][]float32{got, same, ad, conv.Matrix} {
			for _, r := range m {
				for j := range r {
					r[j] = 77
				}
			}
		}
		again, err := colour.GetConversionMatrix(b.prim(), *b.w.cie(), a.prim(), *a.w.cie())
		if err != nil {
			t.Failf("second conversion matrix: %v", err)
		}
		nearMat(t, "conversion matrix after changing an earlier one", again, want, tol)
	}
	if d[0] > 0.01 || d[1] > 0.01 {
		t.NonTrivial()
	}
}

// bit is v when one of the differences is so small that it may be ignored.
func bit(d [2]float64, v float64) float64 {
	if d[0] < 2e-4 || d[1] < 2e-4 {
		return v
	}
	return 0
}

func enumerations(t *pbt.T) {
	in := func(v int32, set ...int32) bool {
		for _, s := range set {
			if v == s {
				return true
			}
		}
		return false
	}
	v := int32(t.Range(-3, 40))
	if t.Chance(1, 4) {
		v = int32(t.Bits(32))
	}
	if got := colour.ValidateColourEncoding(v); got != (v >= 0 && v <= 3) {
		t.Failf("ValidateColourEncoding(%d) is %v", v, got)
	}
	if got := colour.ValidateRenderingIntent(v); got != (v >= 0 && v <= 3) {
		t.Failf("ValidateRenderingIntent(%d) is %v", v, got)
	}
	if got := colour.ValidateWhitePoint(v); got != in(v, 1, 2, 10, 11) {
		t.Failf("ValidateWhitePoint(%d) is %v", v, got)
	}
	if got := colour.ValidatePrimaries(v); got != in(v, 1, 2, 9, 11) {
		t.Failf("ValidatePrimaries(%d) is %v", v, got)
	}
	tf := v
	switch t.N(3) {
	case 0:
		tf = 1<<24 + int32(t.Range(-2, 40))
	case 1:
		tf = int32(t.Range(0, 12_000_000))
	}
	if got, want := colour.ValidateTransfer(tf), tf >= 1221 && tf <= 10_000_000 || in(tf-1<<24, 1, 2, 8, 13, 16, 17, 18); got != want {
		t.Failf("ValidateTransfer(%d) is %v", tf, got)
	}
	sp := map[int32]space{1: spaces[0], 9: spaces[1], 11: spaces[2]}
	p := colour.GetPrimaries(v)
	if s, ok := sp[v]; ok != (p != nil) {
		t.Failf("GetPrimaries(%d) is %v", v, p)
	} else if ok {
		for i, c := range []struct {
			got  *colour.CIEXY
			want xy
		}{{p.Red, s.r}, {p.Green, s.g}, {p.Blue, s.b}} {
			if math.Abs(float64(c.got.X)-c.want.x)+math.Abs(float64(c.got.Y)-c.want.y) > 1e-6 {
				t.Failf("colour %d of the primaries %d is %v, want %v", i, v, *c.got, c.want)
			}
		}
		p.Red.X = 0.1 // the caller's own
		if colour.GetPrimaries(v).Red.X == 0.1 {
			t.Failf("GetPrimaries gives shared primaries")
		}
	}
	wp := map[int32]xy{1: {0.3127, 0.3290}, 10: {1.0 / 3, 1.0 / 3}, 11: {0.314, 0.351}}
	if v != -1 { // D50 is looked at below
		w := colour.GetWhitePoint(v)
		if s, ok := wp[v]; ok != (w != nil) {
			t.Failf("GetWhitePoint(%d) is %v", v, w)
		} else if ok && math.Abs(float64(w.X)-s.x)+math.Abs(float64(w.Y)-s.y) > 1e-6 {
			t.Failf("white point %d is %v, want %v", v, *w, s)
		}
	}
	// points
	a := xy{float64(t.Range(-100, 1100)) / 1000, float64(t.Range(-100, 1100)) / 1000}
	_, err := colour.GetXYZ(*a.cie())
	if ok := a.x >= 0 && a.x <= 1 && a.y > 0 && a.y <= 1; ok != (err == nil) {
		t.Failf("GetXYZ of %v: %v", a, err)
	}
	b := a
	b.x += float64(t.Range(-20, 20)) * 1e-5
	b.y += float64(t.Range(-20, 20)) * 1e-5
	if d := differ(a, b); math.Abs(d-1e-4) > 1e-6 && a.cie().Matches(b.cie()) != (d < 1e-4) {
		t.Failf("%v matches %v: %v", a, b, !(d < 1e-4))
	}
	if a.cie().Matches(nil) || colour.GetPrimaries(1).Matches(nil) {
		t.Failf("a point matches nothing")
	}
	// degenerate primaries are refused
	s := genSpace(t)
	bad := s
	switch t.N(3) {
	case 0:
		bad.w.y = 0
	case 1:
		bad.g = bad.r
		bad.b = bad.r
	case 2:
		bad.r.y = -0.1
	}
	if m, err := colour.GetConversionMatrix(bad.prim(), *bad.w.cie(), s.prim(), *s.w.cie()); err == nil {
		for _, r := range m {
			for _, v := range r {
				if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
					t.Failf("a conversion to %v gives %v and no error", bad, m)
				}
			}
		}
		if bad.w.y == 0 || bad.r.y < 0 {
			t.Failf("a conversion to %v gives no error", bad)
		}
	}
	t.Eval(12)
	if v == -1 { // the white point of ICC profiles, which the existing tests fix to another
		w := colour.GetWhitePoint(v)
		if w == nil {
			t.Failf("there is no white point D50")
		}
		if math.Abs(float64(w.X)-0.34567)+math.Abs(float64(w.Y)-0.3585) > 2e-4 {
			if *w == *colour.NewCIEXY(0.34567, 0.34567) {
				t.Known("d50-white")
			}
			t.Failf("white point D50 is %v, want 0.3457, 0.3585", *w)
		}
	}
}

// c33: colour functions.
func c33(t *pbt.T) {
	transferFunctions(t)
	conversions(t)
	enumerations(t)
}
