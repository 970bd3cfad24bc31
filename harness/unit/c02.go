package unit

import (
	"bytes"
	"fmt"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/jx"
	"verif/pbt"
)

func init() { reg("C02", c02) }

// genVals draws a token sequence.
func genVals(t *pbt.T, nctx int, long bool) []jx.Tok {
	n := t.Size(0, 400)
	if t.Chance(1, 30) {
		n = t.Range(1000, 6000)
	}
	if long {
		n = 1<<19 + t.N(1<<20)
	}
	r := t.RNG()
	period := 0
	if n > 1<<19 {
		period = []int{1 << 20, 1<<20 - 1, 1<<19 + 7, n - 1000}[t.N(4)]
	}
	zeros := t.Chance(1, 10)
	maxb := []int{3, 5, 8, 12, 16, 20, 31}[t.N(7)]
	kind := t.N(5)
	out := make([]jx.Tok, 0, n)
	c := 0
	for i := 0; i < n; i++ {
		if r.N(4) == 0 {
			c = r.N(nctx)
		}
		var v uint32
		switch kind {
		case 0:
			v = uint32(r.Next() % (1 << uint(r.N(maxb)+1)))
		case 1:
			v = uint32(c)
		case 2:
			v = uint32(r.N(3))
			if r.N(20) == 0 {
				v = uint32(r.Next() % (1 << uint(maxb)))
			}
		case 3:
			if i > 8 && r.N(8) != 0 {
				v = out[i-1-r.N(2)*3].Val
			} else {
				v = uint32(r.Next() % (1 << uint(maxb)))
			}
		case 4:
			p := 1 + maxb
			if i >= p {
				v = out[i-p].Val
			} else {
				v = uint32(r.Next() % (1 << uint(maxb)))
			}
		}
		if zeros && i < 40 {
			v = 0
		}
		if period > 0 && i >= period && i&1023 < 1000 {
			v = out[i-period].Val
		}
		out = append(out, jx.Tok{Ctx: c, Val: v})
	}
	return out
}

// c02: entropy coded integers decode to what was encoded.
func c02(t *pbt.T) {
	nctx := []int{1, 2, 3, 6, 8, 20, 100}[t.N(7)]
	ns := t.Range(1, 3)
	long := t.Chance(1, 150)
	var streams [][]jx.Tok
	var mult []int
	total := 0
	for i := 0; i < ns; i++ {
		s := genVals(t, nctx, long && i == 0)
		total += len(s)
		streams = append(streams, s)
		mult = append(mult, []int{0, 1, 2, 5, 16, 64, 255}[t.N(7)])
	}
	c := jx.NewCode(t, nctx, streams, mult, jx.EOpts{})
	hw := &jx.BW{}
	c.WriteHeader(hw)
	var sw []*jx.BW
	all := &jx.BW{}
	all.AppendBW(hw)
	for i := range streams {
		w := &jx.BW{}
		c.WriteStream(w, i)
		sw = append(sw, w)
		all.AppendBW(w)
	}
	data := all.B
	t.Attach("entropy.bin", data)
	t.Sig(data)
	feats := ""
	for k := range c.Feat {
		t.Label(k)
		feats += k + " "
	}
	if total >= 8 {
		t.NonTrivial()
	}
	t.Logf("%d contexts, %d streams, %d values, multipliers %v, %d bytes: %s", nctx, ns, total, mult, len(data), feats)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	es, err := entropy.NewEntropyStreamWithReaderAndNumDists(br, nctx, entropy.ReadClusterMap)
	if err != nil {
		t.Failf("reading a valid entropy code header: %v", err)
	}
	if br.BitsRead() != uint64(hw.Len()) {
		t.Failf("header: %d bits consumed, %d written", br.BitsRead(), hw.Len())
	}
	at := uint64(hw.Len())
	for i, s := range streams {
		st := entropy.NewEntropyStreamWithStream(es)
		for k, tk := range s {
			v, err := st.ReadSymbolWithMultiplier(br, tk.Ctx, int32(mult[i]))
			if err != nil {
				t.Failf("stream %d value %d: %v (want %d)", i, k, err, tk.Val)
			}
			if uint32(v) != tk.Val {
				t.Failf("stream %d value %d of %d: decoded %d, encoded %d", i, k, len(s), uint32(v), tk.Val)
			}
		}
		if !st.ValidateFinalState() {
			t.Failf("stream %d: final state rejected after %d values", i, len(s))
		}
		at += uint64(sw[i].Len())
		if br.BitsRead() != at {
			t.Failf("stream %d: %d bits consumed, %d written", i, br.BitsRead(), at)
		}
		t.Eval(len(s) + 1)
	}
	_ = fmt.Sprint
}
