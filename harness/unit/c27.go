package unit

import (
	"fmt"
	"math"
	"math/big"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"

	"verif/pbt"
)

func init() { reg("C27", c27) }

// anyU draws a number of any magnitude.
func anyU(t *pbt.T) uint64 {
	v := t.U64() >> uint(t.N(64))
	switch t.N(6) {
	case 0:
		v = uint64(1) << uint(t.N(64))
	case 1:
		v = uint64(1)<<uint(t.N(64)) - 1
	}
	return v
}

func logs(t *pbt.T) {
	x := anyU(t)
	b := new(big.Int).SetUint64(x)
	n1 := new(big.Int).Add(b, big.NewInt(1))
	floor1 := n1.BitLen() - 1
	ceil1 := b.BitLen() // smallest c with 2^c >= x+1
	if got := util.CeilLog1pUint64(x); got != ceil1 {
		t.Failf("CeilLog1pUint64(%d) is %d, want %d", x, got, ceil1)
	}
	if got := util.CeilLog1p(x); got != ceil1 {
		t.Failf("CeilLog1p(%d) is %d, want %d", x, got, ceil1)
	}
	if got := util.FloorLog1pUint64(x); got != int64(floor1) {
		t.Failf("FloorLog1pUint64(%d) is %d, want %d", x, got, floor1)
	}
	if got := util.FloorLog1p(x); got != int64(floor1) {
		t.Failf("FloorLog1p(%d) is %d, want %d", x, got, floor1)
	}
	if x > 0 {
		want := new(big.Int).SetUint64(x - 1).BitLen()
		if got := util.CeilLog2(x); got != want {
			t.Failf("CeilLog2(%d) is %d, want %d", x, got, want)
		}
		if i := int32(x); i > 0 && util.CeilLog2(i) != new(big.Int).SetInt64(int64(i)-1).BitLen() {
			t.Failf("CeilLog2(int32 %d) is %d", i, util.CeilLog2(i))
		}
		if i := uint8(x); i > 0 && util.CeilLog2(i) != new(big.Int).SetInt64(int64(i)-1).BitLen() {
			t.Failf("CeilLog2(uint8 %d) is %d", i, util.CeilLog2(i))
		}
	}
	if i := int32(x); i >= 0 && util.CeilLog1p(i) != new(big.Int).SetInt64(int64(i)).BitLen() {
		t.Failf("CeilLog1p(int32 %d) is %d", i, util.CeilLog1p(i))
	}
	// signed numbers
	u := uint32(x)
	w := int64(u / 2)
	if u%2 == 1 {
		w = -int64(u/2) - 1
	}
	if got := jxlio.UnpackSigned(u); int64(got) != w {
		t.Failf("UnpackSigned(%d) is %d, want %d", u, got, w)
	}
	bw := new(big.Int).Rsh(b, 1)
	if x%2 == 1 {
		bw.Neg(bw).Sub(bw, big.NewInt(1))
	}
	if got := jxlio.UnpackSigned64(x); got != bw.Int64() {
		t.Failf("UnpackSigned64(%d) is %d, want %v", x, got, bw)
	}
	t.Logf("logarithms and signed values of %d;", x)
	// quotients
	num, den := uint32(x), uint32(anyU(t))
	if den == 0 {
		den = 1
	}
	if got, want := util.CeilDiv(num, den), (uint64(num)+uint64(den)-1)/uint64(den); uint64(got) != want {
		t.Failf("CeilDiv(%d, %d) is %d, want %d", num, den, got, want)
	}
	t.NonTrivial()
}

func clamps(t *pbt.T) {
	draw := func() int32 {
		v := int32(anyU(t))
		if t.Bool() {
			v = int32(t.N(9)) - 4
		}
		return v
	}
	v, a, b, c := draw(), draw(), draw(), draw()
	clamp := func(v int32, in ...int32) int32 {
		lo, hi := in[0], in[0]
		for _, x := range in {
			lo, hi = min(lo, x), max(hi, x)
		}
		return max(lo, min(hi, v))
	}
	if got, want := util.Clamp3(v, a, b), clamp(v, a, b); got != want {
		t.Failf("Clamp3(%d, %d, %d) is %d, want %d", v, a, b, got, want)
	}
	if got, want := util.Clamp(v, a, b, c), clamp(v, a, b, c); got != want {
		t.Failf("Clamp(%d, %d, %d, %d) is %d, want %d", v, a, b, c, got, want)
	}
	r := t.RNG()
	f := func() float32 {
		if r.N(3) == 0 {
			return float32(r.N(5) - 2)
		}
		return float32(r.Float()*8 - 4)
	}
	fv, fa, fb := f(), f(), f()
	if got, want := util.Clamp3Float32(fv, fa, fb), max(min(fa, fb), min(max(fa, fb), fv)); got != want {
		t.Failf("Clamp3Float32(%v, %v, %v) is %v, want %v", fv, fa, fb, got, want)
	}
	n := t.N(6)
	is, fs := make([]int32, n), make([]float32, n)
	nan := false
	for i := range is {
		is[i], fs[i] = draw(), f()
		if r.N(12) == 0 {
			fs[i] = float32(math.NaN())
			nan = true
		}
	}
	var lo, hi int32
	var flo, fhi float32
	for i := range is {
		if i == 0 {
			lo, hi, flo, fhi = is[0], is[0], fs[0], fs[0]
		}
		lo, hi, flo, fhi = min(lo, is[i]), max(hi, is[i]), min(flo, fs[i]), max(fhi, fs[i])
	}
	if util.Min(is...) != lo || util.Max(is...) != hi {
		t.Failf("Min and Max of %v are %d and %d", is, util.Min(is...), util.Max(is...))
	}
	gl, gh := util.Min(fs...), util.Max(fs...)
	if nan != (gl != gl) || nan != (gh != gh) || !nan && (gl != flo || gh != fhi) {
		t.Failf("Min and Max of %v are %v and %v", fs, gl, gh)
	}
	if v > math.MinInt32 {
		if got := util.Abs(v); int64(got) != int64(math.Abs(float64(v))) {
			t.Failf("Abs(%d) is %d", v, got)
		}
	}
	t.Logf("clamp %d, Abs, Min and Max of %d values;", v, n)
	if v != a && n > 1 {
		t.NonTrivial()
	}
}

func mirrors(t *pbt.T) {
	size := int32(t.Size(1, 300))
	p := int32(t.Range(-1000, 1300))
	if t.Chance(1, 4) {
		p = int32(t.Range(int(-3*size), int(4*size)))
	}
	// the sequence of samples is followed by its reverse, again and again
	k := p % (2 * size)
	if k < 0 {
		k += 2 * size
	}
	if k >= size {
		k = 2*size - 1 - k
	}
	if got := util.MirrorCoordinate(p, size); got != k {
		t.Failf("MirrorCoordinate(%d, %d) is %d, want %d", p, size, got, k)
	}
	t.Logf("mirror %d in %d;", p, size)
	if p < 0 || p >= size {
		t.NonTrivial()
	}
}

func matrix(r *pbt.RNG, h, w int) [][]float32 {
	m := make([][]float32, h)
	for y := range m {
		m[y] = make([]float32, w)
		for x := range m[y] {
			m[y][x] = float32(r.Float()*4 - 2)
			if r.N(5) == 0 {
				m[y][x] = float32(r.N(3) - 1)
			}
		}
	}
	return m
}

// product and its bound of rounding.
func product(a, b [][]float32, y, x int) (float64, float64) {
	s, e := 0.0, 0.0
	for k := range b {
		p := float64(a[y][k]) * float64(b[k][x])
		s += p
		e += math.Abs(p)
	}
	return s, e * float64(len(b)+1) * 1.2e-7
}

func matrices(t *pbt.T) {
	r := t.RNG()
	n, m, p := t.Range(1, 5), t.Range(1, 5), t.Range(1, 5)
	a, b := matrix(r, n, m), matrix(r, m, p)
	got, err := util.MatrixMatrixMultiply(a, b)
	if err != nil || len(got) != n || len(got[0]) != p {
		t.Failf("product of %dx%d and %dx%d: %v, %v", n, m, m, p, got, err)
	}
	for y := range got {
		for x := range got[y] {
			if want, e := product(a, b, y, x); math.Abs(float64(got[y][x])-want) > e {
				t.Failf("product of %v and %v has %v at (%d,%d), want %v", a, b, got[y][x], x, y, want)
			}
		}
	}
	if _, err := util.MatrixMatrixMultiply(a, matrix(r, m+1, p)); err == nil {
		t.Failf("product of %dx%d and %dx%d gave no error", n, m, m+1, p)
	}
	// the product of several, with identities in between
	seq := [][][]float32{a, util.MatrixIdentity(m), b, util.MatrixIdentity(p)}
	all, err := util.MatrixMultiply(seq...)
	if err != nil || !util.CompareMatrix2D(all, got, func(x, y float32) bool { return x == y }) {
		t.Failf("product of %v with identities is %v (%v), want %v", seq, all, err, got)
	}
	if one, err := util.MatrixMultiply(a); err != nil || len(one) != n {
		t.Failf("product of one matrix: %v", err)
	}
	// a vector, with the rest passed on
	extra := t.N(3)
	v := matrix(r, 1, m+extra)[0]
	vec, err := util.MatrixVectorMultiply(a, v)
	if err != nil || len(vec) != n+extra {
		t.Failf("product of %dx%d and %d numbers: %v, %v", n, m, m+extra, vec, err)
	}
	col := make([][]float32, m)
	for i := range col {
		col[i] = v[i : i+1]
	}
	for y := range vec {
		want, e := 0.0, 0.0
		if y < n {
			want, e = product(a, col, y, 0)
		} else {
			want = float64(v[m+y-n])
		}
		if math.Abs(float64(vec[y])-want) > e {
			t.Failf("product of %v and %v has %v at %d, want %v", a, v, vec[y], y, want)
		}
	}
	if _, err := util.MatrixVectorMultiply(a, v[:m-1]); err == nil {
		t.Failf("product of %dx%d and %d numbers gave no error", n, m, m-1)
	}
	// inverses
	q := matrix(r, 3, 3)
	singular := t.Chance(1, 4)
	if singular { // an integer matrix of lower rank
		for y := range q {
			for x := range q[y] {
				q[y][x] = float32(r.N(9) - 4)
			}
		}
		f := float32(r.N(5) - 2)
		k := r.N(3)
		for x := range q[k] {
			q[k][x] = q[(k+1)%3][x] * f
		}
	}
	det := func(m [][]float32) (d, mag float64) {
		for i := 0; i < 3; i++ {
			p := float64(m[0][i]) * float64(m[1][(i+1)%3]) * float64(m[2][(i+2)%3])
			q := float64(m[0][i]) * float64(m[1][(i+2)%3]) * float64(m[2][(i+1)%3])
			d += p - q
			mag += math.Abs(p) + math.Abs(q)
		}
		return d, mag
	}
	d, mag := det(q)
	inv := util.InvertMatrix3x3(q)
	if singular && inv != nil {
		t.Failf("the inverse of the singular %v is %v", q, inv)
	}
	if !singular && math.Abs(d) > mag*1e-2 {
		if inv == nil {
			t.Failf("%v has no inverse", q)
		}
		for y := 0; y < 3; y++ {
			for x := 0; x < 3; x++ {
				s, e := 0.0, 0.0
				for k := 0; k < 3; k++ {
					s += float64(q[y][k]) * float64(inv[k][x])
					e += math.Abs(float64(q[y][k]) * float64(inv[k][x]))
					// the terms of the cofactor may cancel
					for i := 0; i < 3; i++ {
						for j := 0; j < 3; j++ {
							if i != x && j != k {
								e += math.Abs(float64(q[y][k])*float64(q[i][j])) * 4 / math.Abs(d)
							}
						}
					}
				}
				want := 0.0
				if x == y {
					want = 1
				}
				if math.Abs(s-want) > 1e-4*(1+e) {
					t.Failf("%v times its inverse %v has %v at (%d,%d)", q, inv, s, x, y)
				}
			}
		}
		t.NonTrivial()
	}
}

func transposes(t *pbt.T) {
	r := t.RNG()
	h, w := t.Range(1, 8), t.Range(1, 8)
	sy, sx, dy, dx := t.N(4), t.N(4), t.N(4), t.N(4)
	src := matrix(r, h+sy+t.N(3), w+sx+t.N(3))
	dst := matrix(r, w+dy+t.N(3), h+dx+t.N(3))
	want := make([][]float32, len(dst))
	for y := range dst {
		want[y] = append([]float32(nil), dst[y]...)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want[dy+x][dx+y] = src[sy+y][sx+x]
		}
	}
	pt := func(y, x int) util.Point { return util.Point{X: int32(x), Y: int32(y)} }
	util.TransposeMatrixInto(src, dst, pt(sy, sx), pt(dy, dx), pt(h, w))
	eq := func(a, b float32) bool { return a == b }
	if !util.CompareMatrix2D(dst, want, eq) {
		t.Failf("transposition of %dx%d from (%d,%d) to (%d,%d): %v, want %v", w, h, sx, sy, dx, dy, dst, want)
	}
	tr := util.TransposeMatrix(src, pt(h, w))
	if len(tr) != w {
		t.Failf("transposed %dx%d has %d rows", w, h, len(tr))
	}
	for x := range tr {
		for y := range tr[x] {
			if tr[x][y] != src[y][x] || len(tr[x]) != h {
				t.Failf("transposed %v is %v", src, tr)
			}
		}
	}
	// comparisons
	a := [][][]float32{src, dst}
	b := make([][][]float32, 2)
	for i := range a {
		for _, row := range a[i] {
			b[i] = append(b[i], append([]float32(nil), row...))
		}
	}
	if !util.CompareMatrix3D(a, b, eq) || !util.Matrix3Equal(a, b) {
		t.Failf("equal matrices differ")
	}
	i := t.N(2)
	y := t.N(len(b[i]))
	x := t.N(len(b[i][y]))
	b[i][y][x]++
	if util.CompareMatrix3D(a, b, eq) || util.Matrix3Equal(a, b) || util.CompareMatrix2D(a[i], b[i], eq) {
		t.Failf("matrices that differ at (%d,%d) of plane %d are equal", x, y, i)
	}
	if util.CompareMatrix2D(a[i], a[i][:len(a[i])-1], eq) || util.CompareMatrix3D(a, a[:1], eq) {
		t.Failf("matrices of other sizes are equal")
	}
	// other sizes within
	c := [][][]float32{b[0], b[1]}
	c[i] = append([][]float32(nil), a[i]...)
	other := "rows"
	if t.Bool() {
		c[i] = c[i][:len(c[i])-1]
	} else {
		other = "columns"
		c[i][y] = c[i][y][:len(c[i][y])-1]
	}
	if util.CompareMatrix3D(a, c, eq) || util.CompareMatrix3D(c, a, eq) || util.CompareMatrix2D(a[i], c[i], eq) {
		t.Failf("matrices with other numbers of %s are equal", other)
	}
	if util.Matrix3Equal(a, c) || util.Matrix3Equal(c, a) {
		t.Failf("matrices with other numbers of %s are equal", other)
	}
	t.NonTrivial()
}

func dcts(t *pbt.T) {
	r := t.RNG()
	ly, lx := t.N(6), t.N(6)
	if t.Chance(1, 60) {
		ly, lx = t.N(9), t.N(9)
	}
	h, w := 1<<uint(ly), 1<<uint(lx)
	sy, sx, dy, dx := t.N(4), t.N(4), t.N(4), t.N(4)
	transposed := t.Bool()
	src := matrix(r, h+sy, w+sx)
	oh, ow := h, w
	if transposed {
		oh, ow = w, h
	}
	dst := matrix(r, oh+dy+1, ow+dx+1)
	keep := make([][]float32, len(dst))
	for y := range dst {
		keep[y] = append([]float32(nil), dst[y]...)
	}
	n := max(h, w)
	s0, s1 := matrix(r, n, n), matrix(r, n, n)
	size := util.Dimension{Width: uint32(w), Height: uint32(h)}
	pt := func(y, x int) util.Point { return util.Point{X: int32(x), Y: int32(y)} }
	inverse := t.Bool()
	what := fmt.Sprintf("DCT of %dx%d from (%d,%d) to (%d,%d)", w, h, sx, sy, dx, dy)
	if inverse {
		what = fmt.Sprintf("inverse %s, transposed %v", what, transposed)
		if err := util.InverseDCT2D(src, dst, pt(sy, sx), pt(dy, dx), size, s0, s1, transposed); err != nil {
			t.Failf("%s: %v", what, err)
		}
	} else {
		transposed, oh, ow = false, h, w
		dst = matrix(r, oh+dy+1, ow+dx+1)
		for y := range dst {
			keep[y%len(keep)] = nil
		}
		keep = keep[:0]
		for y := range dst {
			keep = append(keep, append([]float32(nil), dst[y]...))
		}
		if err := util.ForwardDCT2D(src, dst, pt(sy, sx), pt(dy, dx), size, s0, s1, false); err != nil {
			t.Failf("%s: %v", what, err)
		}
	}
	// basis functions: 1, and sqrt(2) cos((2k+1) n pi / 2N)
	basis := func(n, k, size int) float64 {
		if n == 0 {
			return 1
		}
		return math.Sqrt2 * math.Cos(float64((2*k+1)*n)*math.Pi/float64(2*size))
	}
	tmp := make([][]float64, h) // rows transformed
	mag := 0.0
	for y := 0; y < h; y++ {
		tmp[y] = make([]float64, w)
		for x := 0; x < w; x++ {
			mag += math.Abs(float64(src[sy+y][sx+x]))
			for k := 0; k < w; k++ {
				if inverse {
					tmp[y][x] += float64(src[sy+y][sx+k]) * basis(k, x, w)
				} else {
					tmp[y][x] += float64(src[sy+y][sx+k]) * basis(x, k, w) / float64(w)
				}
			}
		}
	}
	tol := mag * 1e-6 * float64(2+ly+lx)
	if !inverse {
		tol /= float64(w * h)
	}
	tol *= 4
	for y := range dst {
		for x := range dst[y] {
			iy, ix := y-dy, x-dx
			if iy < 0 || ix < 0 || iy >= oh || ix >= ow {
				if dst[y][x] != keep[y][x] {
					t.Failf("%s changed (%d,%d) of the destination", what, x, y)
				}
				continue
			}
			if transposed {
				iy, ix = ix, iy
			}
			want := 0.0
			for k := 0; k < h; k++ {
				if inverse {
					want += tmp[k][ix] * basis(k, iy, h)
				} else {
					want += tmp[k][ix] * basis(iy, k, h) / float64(h)
				}
			}
			if math.Abs(float64(dst[y][x])-want) > tol {
				t.Failf("%s: (%d,%d) is %v, want %v (tolerance %v)", what, x, y, dst[y][x], want, tol)
			}
		}
	}
	t.Logf("%s of %dx%d at (%d,%d) to (%d,%d);", what, h, w, sy, sx, dy, dx)
	if h*w > 1 {
		t.NonTrivial()
	}
}

func lists(t *pbt.T) {
	d := util.NewDeque[int]()
	var want []int
	for i, n := 0, t.Size(1, 60); i < n; i++ {
		switch op := t.W(3, 3, 2, 2); op {
		case 0:
			d.AddFirst(i)
			want = append([]int{i}, want...)
		case 1:
			d.AddLast(i)
			want = append(want, i)
		case 2, 3:
			var got *int
			var w int
			if op == 2 {
				got = d.RemoveFirst()
			} else {
				got = d.RemoveLast()
			}
			if len(want) == 0 {
				if got != nil {
					t.Failf("step %d: an empty deque held %d", i, *got)
				}
				break
			}
			if op == 2 {
				w, want = want[0], append([]int(nil), want[1:]...)
			} else {
				w, want = want[len(want)-1], append([]int(nil), want[:len(want)-1]...)
			}
			if got == nil || *got != w {
				t.Failf("step %d: the deque gave %v, want %d", i, got, w)
			}
		}
		if d.IsEmpty() != (len(want) == 0) {
			t.Failf("step %d: IsEmpty is %v with %d items", i, d.IsEmpty(), len(want))
		}
	}
	// insertions into slices
	n := t.N(8)
	list := make([]*int, n, n+t.N(4))
	plain := make([]int, n, n+t.N(4))
	for i := range list {
		v := i
		list[i], plain[i] = &v, i
	}
	pos, v := t.N(n+1), 100
	got := util.AddToSlice(list, pos, &v)
	if len(got) != n+1 {
		t.Failf("AddToSlice to %d items gave %d", n, len(got))
	}
	for i := range got {
		w := i
		if i == pos {
			w = 100
		} else if i > pos {
			w--
		}
		if got[i] == nil || *got[i] != w {
			t.Failf("AddToSlice at %d of %d items: item %d is %v, want %d", pos, n, i, got[i], w)
		}
	}
	for i := range list {
		if *list[i] != i {
			t.Failf("AddToSlice at %d changed item %d of the old slice", pos, i)
		}
	}
	ins := util.Add(plain, pos, 100)
	if len(ins) != n+1 {
		t.Failf("Add to %d items gave %d", n, len(ins))
	}
	for i := range ins {
		w := i
		if i == pos {
			w = 100
		} else if i > pos {
			w--
		}
		if ins[i] != w {
			t.Failf("Add at %d of %d items gave %v", pos, n, ins)
		}
	}
	// filled slices and new matrices
	s := util.MakeSliceWithDefault(n, 7)
	f := make([]float32, n)
	from, to := t.N(n+1), t.N(n+1)
	util.FillFloat32(f, uint32(from), uint32(to), 3)
	if len(s) != n {
		t.Failf("MakeSliceWithDefault(%d) has %d items", n, len(s))
	}
	for i := range s {
		in := i >= from && i < to
		if s[i] != 7 || in != (f[i] == 3) || !in && f[i] != 0 {
			t.Failf("MakeSliceWithDefault(%d, 7) is %v, FillFloat32 from %d to %d %v", n, s, from, to, f)
		}
	}
	a, b, c, e := t.N(4), t.N(4), t.N(4), t.N(4)
	m4 := util.MakeMatrix4D[int32](a, b, c, e)
	ok := len(m4) == a
	for _, m3 := range m4 {
		ok = ok && len(m3) == b
		for _, m2 := range m3 {
			ok = ok && len(m2) == c
			for _, m1 := range m2 {
				ok = ok && len(m1) == e
				for i := range m1 {
					ok = ok && m1[i] == 0
					m1[i] = 1
				}
			}
		}
	}
	if !ok {
		t.Failf("MakeMatrix4D(%d,%d,%d,%d) has another size, or rows in common", a, b, c, e)
	}
	t.Logf("deque of %d, list of %d, matrix %dx%dx%dx%d;", len(want), n, a, b, c, e)
	if len(want) > 0 || n > 1 {
		t.NonTrivial()
	}
}

// c27: helpers against their definitions.
func c27(t *pbt.T) {
	k := t.N(7)
	t.Label([]string{"logs", "clamps", "mirrors", "matrices", "transposes", "dcts", "lists"}[k])
	[]func(*pbt.T){logs, clamps, mirrors, matrices, transposes, dcts, lists}[k](t)
}
