package unit

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/kpfaulkner/jxl-go/util"

	"verif/pbt"
)

func init() { reg("C26", c26) }

// number is what the matrices of the pools hold.
type number interface{ ~float32 | ~int32 | ~uint8 }

// held is a matrix somebody holds, and the value it was filled with.
type held[T number] struct {
	m    [][][]T // a two-dimensional one has one plane
	flat bool
	v    T
}

func fetch[T number](d, h, w int, flat bool, v T) (*held[T], error) {
	x := &held[T]{flat: flat, v: v}
	if flat {
		x.m = [][][]T{util.MakeMatrix2DPooled[T](h, w)}
		d = 1
	} else {
		x.m = util.MakeMatrix3DPooled[T](d, h, w)
	}
	if len(x.m) != d {
		return nil, fmt.Errorf("a matrix of depth %d has depth %d", d, len(x.m))
	}
	for _, p := range x.m {
		if len(p) != h {
			return nil, fmt.Errorf("a matrix of height %d has height %d", h, len(p))
		}
		for _, r := range p {
			if len(r) != w {
				return nil, fmt.Errorf("a matrix of width %d has width %d", w, len(r))
			}
			for i := range r {
				if r[i] != 0 {
					return nil, fmt.Errorf("a new %dx%dx%d matrix holds %v", d, h, w, r[i])
				}
				r[i] = v
			}
		}
	}
	return x, nil
}

func (x *held[T]) intact() error {
	for _, p := range x.m {
		for _, r := range p {
			for _, f := range r {
				if f != x.v {
					return fmt.Errorf("a matrix filled with %v holds %v", x.v, f)
				}
			}
		}
	}
	return nil
}

// release gives the matrix back with anything in it.
func (x *held[T]) release(r *pbt.RNG) {
	if r.N(3) == 0 {
		for _, p := range x.m {
			for _, row := range p {
				for i := range row {
					row[i] = T(r.N(200))
				}
			}
		}
	}
	if x.flat {
		util.ReturnMatrix2DToPool(x.m[0])
	} else {
		util.ReturnMatrix3DToPool(x.m)
	}
}

type shape3 struct{ d, h, w int }

// holder makes n operations on matrices of the shapes.
func holder[T number](r *pbt.RNG, shapes []shape3, n, id int, count *[2]int) error {
	var mine []*held[T]
	for i := 0; i < n; i++ {
		if r.N(4) == 0 {
			runtime.Gosched()
		}
		switch k := r.N(5); {
		case k < 3 && len(mine) < 6:
			s := shapes[r.N(len(shapes))]
			flat := r.N(2) == 0
			x, err := fetch[T](s.d, s.h, s.w, flat, T(1+id+8*r.N(15)))
			if err != nil {
				return err
			}
			if s.h > 0 && s.w > 0 {
				if flat {
					count[0]++
				} else if s.d > 0 {
					count[1]++
				}
			}
			mine = append(mine, x)
		case len(mine) > 0:
			j := r.N(len(mine))
			if err := mine[j].intact(); err != nil {
				return err
			}
			if r.N(6) > 0 {
				mine[j].release(r)
			}
			mine = append(mine[:j], mine[j+1:]...)
		}
	}
	for _, x := range mine {
		if err := x.intact(); err != nil {
			return err
		}
	}
	return nil
}

// c26: matrices of the pools belong to one holder at a time.
func c26(t *pbt.T) {
	var shapes []shape3
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		s := shape3{t.Range(1, 5), t.Range(1, 20), t.Range(1, 20)}
		if t.Chance(1, 8) {
			switch t.N(3) {
			case 0:
				s.d = 0
			case 1:
				s.h = 0
			case 2:
				s.w = 0
			}
		}
		if t.Chance(1, 4) {
			s.h, s.w = 1<<uint(t.N(7)), 1<<uint(t.N(7))
		}
		shapes = append(shapes, s)
		if t.Chance(1, 3) { // the same size in another arrangement
			shapes = append(shapes, shape3{s.d, s.w, s.h})
		}
	}
	workers := t.Range(1, 6)
	n := t.Range(5, 120)
	before := util.GetPoolMetrics()
	errs := make([]error, workers)
	type tally struct{ f, i, u [2]int }
	counts := make([]tally, workers)
	var wg sync.WaitGroup
	for k := range errs {
		r := t.RNG()
		kind := t.W(4, 3, 1)
		t.Logf("worker %d kind %d", k, kind)
		t.Sig(fmt.Append(nil, r))
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch kind {
			case 0:
				errs[k] = holder[float32](r, shapes, n, k, &counts[k].f)
			case 1:
				errs[k] = holder[int32](r, shapes, n, k, &counts[k].i)
			case 2:
				errs[k] = holder[uint8](r, shapes, n, k, &counts[k].u)
			}
		}()
	}
	wg.Wait()
	t.Logf("shapes %v, %d operations", shapes, n)
	for k, err := range errs {
		if err != nil {
			t.Failf("%d holders of matrices %v: holder %d: %v", workers, shapes, k, err)
		}
	}
	var sum tally
	for _, c := range counts {
		for i := range c.f {
			sum.f[i] += c.f[i]
			sum.i[i] += c.i[i]
		}
	}
	after := util.GetPoolMetrics()
	for i, d := range []string{"2d", "3d"} {
		for name, want := range map[string]int{"float32_" + d: sum.f[i], "int32_" + d: sum.i[i]} {
			got := after[name]["hits"] + after[name]["misses"] - before[name]["hits"] - before[name]["misses"]
			if got != int64(want) {
				t.Failf("%d matrices came from the pool %s, which counted %d", want, name, got)
			}
		}
	}
	t.Eval(workers * n)
	if workers > 1 && n > 20 {
		t.NonTrivial()
	}
}
