package jx

import (
	"fmt"
	"math/bits"
	"sort"

	"verif/pbt"
)

// Tok is one entropy coded unsigned value in a context.
type Tok struct {
	Ctx int
	Val uint32
}

type hyb struct{ split, msb, lsb int }

func (h hyb) enc(v uint32) (tok int, nb int, ex uint64) {
	if uint64(v) < uint64(1)<<uint(h.split) {
		return int(v), 0, 0
	}
	n := bits.Len32(v) - 1
	m := uint64(v) - uint64(1)<<uint(n)
	tok = 1<<uint(h.split) + (n-h.split)<<uint(h.msb+h.lsb) + int(m>>uint(n-h.msb))<<uint(h.lsb) + int(m&(1<<uint(h.lsb)-1))
	nb = n - h.msb - h.lsb
	ex = (uint64(v) >> uint(h.lsb)) & (1<<uint(nb) - 1)
	return
}

// maxTok bounds the tokens of values up to maxv.
func (h hyb) maxTok(maxv uint32) int {
	if maxv >= 1<<uint(h.split) {
		maxv |= 1<<uint(h.lsb) - 1
	}
	tk, _, _ := h.enc(maxv)
	return tk
}

func (h hyb) write(w *BW, logAlpha int) {
	w.Bits(uint64(h.split), CeilLog2(logAlpha+1))
	if h.split == logAlpha {
		return
	}
	if n := CeilLog2(h.split + 1); h.split+1 < 1<<uint(n) {
		if _, ok := fault("hybrid"); ok {
			w.Bits(1<<uint(n)-1, n)
			return
		}
	}
	w.Bits(uint64(h.msb), CeilLog2(h.split+1))
	w.Bits(uint64(h.lsb), CeilLog2(h.split-h.msb+1))
}

// sym is an element of the symbol stream after LZ77.
type sym struct {
	cluster int
	tok     int
	nb      int
	ex      uint64
}

// EOpts restricts what an entropy code may use.
type EOpts struct {
	NoLZ77   bool
	NoPrefix bool
	NoANS    bool
	Nested   bool
	MaxCl    int
	Features map[string]bool // filled with the features used
}

// Code is an entropy code (the "distributions" header plus its streams).
type Code struct {
	lz       bool
	minSym   int
	minLen   int
	lenCfg   hyb
	nctx     int
	cmap     []int
	ncl      int
	prefix   bool
	logAlpha int
	cfg      []hyb
	cl       *ClusterMap
	streams  [][]sym
	ans      []*ansDist
	pre      []*preDist
	Feat     map[string]bool
	mult     []int
}

type ansDist struct {
	alpha  int
	kind   int // 0 one symbol, 1 two symbols, 2 flat, 3 general
	freq   []int
	s1, s2 int
	shift  int
	logc   []int
	omit   int
	run    []int // run[i]>0: an RLE of that many entries starts at i
	rev    map[int][]int
}
type preDist struct {
	alpha  int
	kind   int // 0 trivial alphabet, 1..4 simple n, 5 complex
	syms   []int
	tsel   bool
	lens   []int
	codes  []uint32
	hskip  int
	useRLE bool
	l1     *preL1
}
type preL1 struct {
	lens  [18]int
	codes [18]uint32
	n     int
	seq   []l1tok
}
type l1tok struct{ s, nb, ex int }

var specialDist = [120][2]int{
	{0, 1}, {1, 0}, {1, 1}, {-1, 1}, {0, 2}, {2, 0}, {1, 2}, {-1, 2},
	{2, 1}, {-2, 1}, {2, 2}, {-2, 2}, {0, 3}, {3, 0}, {1, 3}, {-1, 3},
	{3, 1}, {-3, 1}, {2, 3}, {-2, 3}, {3, 2}, {-3, 2}, {0, 4}, {4, 0},
	{1, 4}, {-1, 4}, {4, 1}, {-4, 1}, {3, 3}, {-3, 3}, {2, 4}, {-2, 4},
	{4, 2}, {-4, 2}, {0, 5}, {3, 4}, {-3, 4}, {4, 3}, {-4, 3}, {5, 0},
	{1, 5}, {-1, 5}, {5, 1}, {-5, 1}, {2, 5}, {-2, 5}, {5, 2}, {-5, 2},
	{4, 4}, {-4, 4}, {3, 5}, {-3, 5}, {5, 3}, {-5, 3}, {0, 6}, {6, 0},
	{1, 6}, {-1, 6}, {6, 1}, {-6, 1}, {2, 6}, {-2, 6}, {6, 2}, {-6, 2},
	{4, 5}, {-4, 5}, {5, 4}, {-5, 4}, {3, 6}, {-3, 6}, {6, 3}, {-6, 3},
	{0, 7}, {7, 0}, {1, 7}, {-1, 7}, {5, 5}, {-5, 5}, {7, 1}, {-7, 1},
	{4, 6}, {-4, 6}, {6, 4}, {-6, 4}, {2, 7}, {-2, 7}, {7, 2}, {-7, 2},
	{3, 7}, {-3, 7}, {7, 3}, {-7, 3}, {5, 6}, {-5, 6}, {6, 5}, {-6, 5},
	{8, 0}, {4, 7}, {-4, 7}, {7, 4}, {-7, 4}, {8, 1}, {8, 2}, {6, 6},
	{-6, 6}, {8, 3}, {5, 7}, {-5, 7}, {7, 5}, {-7, 5}, {8, 4}, {6, 7},
	{-6, 7}, {7, 6}, {-7, 6}, {8, 5}, {7, 7}, {-7, 7}, {8, 6}, {8, 7}}

type rawsym struct {
	ctx   int
	val   uint32
	isLen bool
}

// NewCode chooses (by t) an entropy code able to carry the streams.
// mult[i] is the LZ77 distance multiplier of stream i.
func NewCode(t *pbt.T, nctx int, streams [][]Tok, mult []int, o EOpts) *Code {
	c := &Code{nctx: nctx, Feat: map[string]bool{}, mult: mult}
	if !o.NoPrefix {
		if o.NoANS {
			c.prefix = true
		} else {
			c.prefix = !t.Chance(1, 2)
		}
	}
	c.logAlpha = 15
	if !c.prefix {
		c.logAlpha = 5 + t.N(4)
		if c.logAlpha > 8 {
			c.logAlpha = 8
		}
		c.Feat["ans"] = true
	} else {
		c.Feat["prefix"] = true
	}
	total := 0
	for _, s := range streams {
		total += len(s)
	}
	if !o.NoLZ77 && t.Chance(1, 3) {
		c.lz = true
		c.Feat["lz77"] = true
	}
	rng := t.RNG()
	// raw sequence with matches
	raws := make([][]rawsym, len(streams))
	all := nctx
	if c.lz {
		all++
		c.minLen = []int{3, 4, 5 + t.N(4), 9 + t.N(40)}[t.W(4, 2, 2, 1)]
	}
	for i, s := range streams {
		if !c.lz {
			r := make([]rawsym, len(s))
			for k, x := range s {
				r[k] = rawsym{x.Ctx, x.Val, false}
			}
			raws[i] = r
			continue
		}
		raws[i] = c.match(rng, s, mult[i], all-1)
	}
	maxCl := 24
	if o.MaxCl > 0 && maxCl > o.MaxCl {
		maxCl = o.MaxCl
	}
	if all > 1 {
		c.cl = NewClusterMap(t, rng, all, maxCl, c.Feat)
	} else {
		c.cl = &ClusterMap{Map: make([]int, all), N: 1}
	}
	c.cmap, c.ncl = c.cl.Map, c.cl.N
	// maximum value per cluster
	maxv := make([]uint32, c.ncl)
	maxlen := uint32(0)
	for _, r := range raws {
		for _, s := range r {
			if s.isLen {
				if s.val > maxlen {
					maxlen = s.val
				}
				continue
			}
			k := c.cmap[s.ctx]
			if s.val > maxv[k] {
				maxv[k] = s.val
			}
		}
	}
	alphaMax := 1 << uint(c.logAlpha)
	limit := alphaMax
	c.cfg = make([]hyb, c.ncl)
	for tries := 0; ; tries++ {
		if tries > 200 {
			panic("cannot fit alphabet")
		}
		if c.lz {
			// literals < minSym, minSym + lengths < alphabet
			opts := []int{224, 512, 4096, 8 + rng.N(200)}
			c.minSym = opts[rng.N(4)]
			if c.minSym >= alphaMax-8 {
				c.minSym = 8 + rng.N(alphaMax-8-8)
			}
			limit = c.minSym
			if tries > 100 {
				c.minSym = alphaMax - 34
				if c.minSym > 4096 {
					c.minSym = 4096
				}
				if c.minSym < 8 {
					c.minSym = 8
				}
				limit = c.minSym
			}
		}
		ok := true
		for k := range c.cfg {
			c.cfg[k] = randHyb(rng, c.logAlpha, maxv[k], limit, tries)
			if c.cfg[k].maxTok(maxv[k]) >= limit {
				ok = false
			}
		}
		if c.lz {
			c.lenCfg = randHyb(rng, 8, maxlen, alphaMax-c.minSym, tries)
			if c.lenCfg.maxTok(maxlen)+c.minSym >= alphaMax {
				ok = false
			}
		}
		if ok {
			break
		}
		if tries > 60 && !c.prefix {
			c.logAlpha = 8
			alphaMax = 256
			limit = 256
		}
	}
	// symbols
	counts := make([][]int, c.ncl)
	bump := func(k, tok int) {
		for len(counts[k]) <= tok {
			counts[k] = append(counts[k], 0)
		}
		counts[k][tok]++
	}
	c.streams = make([][]sym, len(raws))
	for i, r := range raws {
		out := make([]sym, 0, len(r))
		for _, s := range r {
			k := c.cmap[s.ctx]
			var y sym
			if s.isLen {
				tk, nb, ex := c.lenCfg.enc(s.val)
				y = sym{k, tk + c.minSym, nb, ex}
				c.Feat["lz77-match"] = true
			} else {
				tk, nb, ex := c.cfg[k].enc(s.val)
				y = sym{k, tk, nb, ex}
			}
			bump(k, y.tok)
			out = append(out, y)
		}
		c.streams[i] = out
	}
	for k := range counts {
		if len(counts[k]) == 0 {
			counts[k] = []int{1}
		}
		if c.prefix {
			c.pre = append(c.pre, newPre(t, rng, counts[k], c.Feat))
		} else {
			c.ans = append(c.ans, newANS(t, rng, counts[k], alphaMax, c.logAlpha, c.Feat))
		}
	}
	return c
}

func randHyb(r *pbt.RNG, logAlpha int, maxv uint32, limit, tries int) hyb {
	var h hyb
	lo := 0
	if tries > 30 {
		lo = 4
		if lo > logAlpha {
			lo = logAlpha
		}
		h.split = lo
		if tries > 100 {
			h.split = 0
		}
		return h
	}
	h.split = r.N(min(logAlpha, 15) + 1)
	if h.split == logAlpha {
		if h.maxTok(maxv) >= limit {
			h.split--
		} else {
			return h
		}
	}
	h.msb = r.N(h.split + 1)
	h.lsb = r.N(h.split - h.msb + 1)
	return h
}

// match produces an LZ77 parse.
func (c *Code) match(r *pbt.RNG, s []Tok, mult, distCtx int) []rawsym {
	var out []rawsym
	for i := 0; i < len(s); {
		best, bd := 0, 0
		if i == 0 && r.N(2) == 0 {
			// nothing to copy: zeros
			for best < len(s) && s[best].Val == 0 && best < 4000 {
				best++
			}
		}
		if i > 0 && r.N(4) != 0 {
			cand := []int{1, 2, 3, 4, i, 1 << 20, 1<<20 - 1, 1<<19 + 1 + r.N(1<<19)}
			for k := 0; k < 6; k++ {
				cand = append(cand, 1+r.N(i))
			}
			if mult > 0 {
				cand = append(cand, mult, mult+1, mult-1, 2*mult)
				for k := 0; k < 6; k++ {
					d := specialDist[r.N(120)]
					cand = append(cand, max(1, d[0]+mult*d[1]))
				}
			}
			for _, d := range cand {
				if d < 1 || d > i || d > 1<<20 {
					continue
				}
				l := 0
				for i+l < len(s) && s[i+l].Val == s[i+l-d].Val && l < 4000 {
					l++
				}
				if l > best || (l == best && l > 0 && r.N(2) == 0) {
					best, bd = l, d
				}
			}
		}
		if best >= c.minLen {
			l := best
			if r.N(3) == 0 {
				l = c.minLen + r.N(best-c.minLen+1)
			}
			// distance code
			var dc uint32
			far := bd
			if (bd == i || bd == 1<<20) && r.N(3) == 0 {
				// distances past the start or the window are cut
				far = max(bd, 1) + r.N([]int{2, 100, 1 << 20, 1 << 27}[r.N(4)])
				c.Feat["lz77-clamp"] = true
			}
			if far < 1 {
				far = 1
			}
			if bd > 1<<19 {
				c.Feat["lz77-far"] = true
			}
			if bd == 0 {
				c.Feat["lz77-zeros"] = true
			}
			if mult == 0 {
				dc = uint32(far - 1)
			} else {
				dc = uint32(far + 119)
				var opts []uint32
				for k, d := range specialDist {
					if max(1, d[0]+mult*d[1]) == bd {
						opts = append(opts, uint32(k))
					}
				}
				if far == bd && len(opts) > 0 && r.N(4) != 0 {
					dc = opts[r.N(len(opts))]
				}
			}
			out = append(out, rawsym{s[i].Ctx, uint32(l - c.minLen), true}, rawsym{distCtx, dc, false})
			i += l
			continue
		}
		out = append(out, rawsym{s[i].Ctx, s[i].Val, false})
		i++
	}
	return out
}

// WriteHeader writes the distributions.
// ClusterMap maps contexts to clusters.
type ClusterMap struct {
	Map    []int
	N      int
	simple bool
	bits   int
	mtf    bool
	nested *Code
}

// NewClusterMap draws a map of all (more than one) contexts to at most maxCl clusters.
func NewClusterMap(t *pbt.T, rng *pbt.RNG, all, maxCl int, feat map[string]bool) *ClusterMap {
	if maxCl > all {
		maxCl = all
	}
	c := &ClusterMap{Map: make([]int, all)}
	switch t.W(3, 4, 3) {
	case 0: // one cluster
	case 1:
		c.N = t.Range(1, maxCl)
		for i := range c.Map {
			c.Map[i] = rng.N(c.N)
		}
	case 2:
		for i := range c.Map {
			c.Map[i] = i % maxCl
		}
		if rng.N(2) == 0 {
			for i := len(c.Map) - 1; i > 0; i-- {
				j := rng.N(i + 1)
				c.Map[i], c.Map[j] = c.Map[j], c.Map[i]
			}
		}
	}
	// make used cluster ids contiguous
	seen := map[int]bool{}
	for _, v := range c.Map {
		seen[v] = true
	}
	var ids []int
	for v := range seen {
		ids = append(ids, v)
	}
	sort.Ints(ids)
	ren := map[int]int{}
	for i, v := range ids {
		ren[v] = i
	}
	for i := range c.Map {
		c.Map[i] = ren[c.Map[i]]
	}
	c.N = len(ids)
	if c.N < maxCl {
		if r, ok := fault("cluster-hole"); ok {
			for i := range c.Map {
				if c.Map[i] >= int(r)%c.N {
					c.Map[i]++
				}
			}
			c.N++
		}
	}
	c.simple = c.N <= 8
	if c.simple && t.Chance(1, 3) {
		c.simple = false
	}
	if c.simple {
		c.bits = CeilLog2(c.N)
		if c.bits < 3 && t.Chance(1, 4) {
			c.bits++
		}
	} else {
		feat["clustermap"] = true
		c.mtf = t.Bool()
		v := make([]Tok, all)
		if c.mtf {
			feat["mtf"] = true
			var m [256]int
			for i := range m {
				m[i] = i
			}
			for i, x := range c.Map {
				k := 0
				for m[k] != x {
					k++
				}
				v[i] = Tok{0, uint32(k)}
				copy(m[1:k+1], m[:k])
				m[0] = x
			}
		} else {
			for i, x := range c.Map {
				v[i] = Tok{0, uint32(x)}
			}
		}
		c.nested = NewCode(t, 1, [][]Tok{v}, []int{0}, EOpts{NoLZ77: all <= 2, Nested: true})
		for k := range c.nested.Feat {
			feat["nested-"+k] = true
		}
	}
	if c.N > 1 {
		feat["clusters"] = true
	}
	return c
}

func (c *ClusterMap) write(w *BW) {
	w.Bool(c.simple)
	if c.simple {
		w.Bits(uint64(c.bits), 2)
		for _, x := range c.Map {
			w.Bits(uint64(x), c.bits)
		}
	} else {
		w.Bool(c.mtf)
		c.nested.WriteHeader(w)
		c.nested.WriteStream(w, 0)
	}
}

func (c *Code) WriteHeader(w *BW) {
	w.Bool(c.lz)
	if c.lz {
		w.U32(uint32(c.minSym), nil, U32d{224, 0}, U32d{512, 0}, U32d{4096, 0}, U32d{8, 15})
		w.U32(uint32(c.minLen), nil, U32d{3, 0}, U32d{4, 0}, U32d{5, 2}, U32d{9, 8})
		c.lenCfg.write(w, 8)
	}
	if len(c.cmap) > 1 {
		c.cl.write(w)
	}
	w.Bool(c.prefix)
	if !c.prefix {
		w.Bits(uint64(c.logAlpha-5), 2)
	}
	for _, h := range c.cfg {
		h.write(w, c.logAlpha)
	}
	if c.prefix {
		for _, p := range c.pre {
			if p.alpha == 1 {
				w.Bits(0, 1)
			} else {
				w.Bits(1, 1)
				n := bits.Len(uint(p.alpha-1)) - 1
				w.Bits(uint64(n), 4)
				w.Bits(uint64(p.alpha-1)-1<<uint(n), n)
			}
		}
		for _, p := range c.pre {
			p.write(w)
		}
	} else {
		for _, d := range c.ans {
			d.write(w)
		}
	}
}

// WriteStream writes stream i.
func (c *Code) WriteStream(w *BW, i int) {
	s := c.streams[i]
	if c.prefix {
		for _, y := range s {
			c.pre[y.cluster].writeSym(w, y.tok)
			w.Bits(y.ex, y.nb)
		}
		return
	}
	if len(s) == 0 {
		return
	}
	type chunk struct {
		v uint64
		n int
	}
	var rev []chunk
	state := uint32(0x130000)
	if r, ok := fault("ans-state"); ok {
		state ^= 1 << (r % 20)
	}
	for k := len(s) - 1; k >= 0; k-- {
		y := s[k]
		if y.nb > 0 {
			rev = append(rev, chunk{y.ex, y.nb})
		}
		d := c.ans[y.cluster]
		f := uint32(d.freq[y.tok])
		if f == 0 {
			panic(fmt.Sprintf("zero freq tok %d", y.tok))
		}
		if uint64(state) >= uint64(f)<<20 {
			rev = append(rev, chunk{uint64(state & 0xffff), 16})
			state >>= 16
		}
		state = (state/f)<<12 | uint32(d.rev[y.tok][state%f])
	}
	w.Bits(uint64(state), 32)
	for k := len(rev) - 1; k >= 0; k-- {
		w.Bits(rev[k].v, rev[k].n)
	}
}

// ---- ANS histograms ----

func newANS(t *pbt.T, r *pbt.RNG, cnt []int, alphaMax, logAlpha int, feat map[string]bool) *ansDist {
	var used []int
	for i, v := range cnt {
		if v > 0 {
			used = append(used, i)
		}
	}
	d := &ansDist{}
	var opts []int
	if len(used) == 1 {
		opts = append(opts, 0)
	}
	if len(used) <= 2 {
		opts = append(opts, 1)
	}
	opts = append(opts, 2)
	if alphaMax >= 3 && len(used) > 1 {
		opts = append(opts, 3, 3, 3)
	}
	d.kind = opts[r.N(len(opts))]
	maxSym := len(cnt) - 1
	feat[fmt.Sprintf("ans-kind%d", d.kind)] = true
	switch d.kind {
	case 0:
		d.s1 = used[0]
		d.freq = make([]int, d.s1+1)
		d.freq[d.s1] = 4096
	case 1:
		d.s1 = used[0]
		if len(used) == 2 {
			d.s2 = used[1]
		} else {
			for {
				d.s2 = r.N(alphaMax)
				if d.s2 != d.s1 {
					break
				}
			}
		}
		if r.N(2) == 0 {
			d.s1, d.s2 = d.s2, d.s1
		}
		d.freq = make([]int, max(d.s1, d.s2)+1)
		f := 1 + r.N(4095)
		if len(used) == 1 && r.N(3) == 0 && d.s2 == used[0] {
			f = 0 // all mass on the second symbol
		}
		d.freq[d.s1] = f
		d.freq[d.s2] = 4096 - f
	case 2:
		n := maxSym + 1
		if r.N(3) == 0 {
			n += r.N(alphaMax - n + 1)
		}
		d.freq = make([]int, n)
		for i := range d.freq {
			d.freq[i] = 4096 / n
			if i < 4096%n {
				d.freq[i]++
			}
		}
	case 3:
		n := max(3, maxSym+1)
		if r.N(4) == 0 {
			n += r.N(alphaMax - n + 1)
		}
		d.general(r, cnt, used, n, feat)
	}
	d.alpha = alphaMax
	d.buildRev(logAlpha)
	return d
}

func (d *ansDist) general(r *pbt.RNG, cnt, used []int, n int, feat map[string]bool) {
	target := make([]float64, n)
	tot := 0.0
	mode := r.N(3)
	for _, u := range used {
		switch mode {
		case 0:
			target[u] = float64(cnt[u])
		case 1:
			target[u] = 1
		case 2:
			target[u] = 1 / (0.0005 + r.Float())
		}
		tot += target[u]
	}
	if r.N(3) == 0 { // unused symbols with some mass
		for k := 0; k < 1+n/8; k++ {
			i := r.N(n)
			if target[i] == 0 {
				target[i] = tot * 0.001
				tot += target[i]
			}
		}
	}
	d.shift = r.N(14)
	for scale := 1.0; ; scale *= 0.9 {
		freq := make([]int, n)
		logc := make([]int, n)
		sum := 0
		for i := range freq {
			if target[i] == 0 {
				continue
			}
			f := int(target[i] / tot * 4096 * scale)
			if f < 1 {
				f = 1
			}
			if f > 4095 {
				f = 4095
			}
			l := bits.Len(uint(f))
			b := d.shift - (12-l+1)>>1
			if b < 0 {
				b = 0
			}
			if b > l-1 {
				b = l - 1
			}
			drop := l - 1 - b
			f = f >> uint(drop) << uint(drop)
			freq[i], logc[i] = f, l
			sum += f
		}
		// omitted symbol: the first with the greatest log count
		om := 0
		for i := range logc {
			if logc[i] > logc[om] {
				om = i
			}
		}
		if logc[om] == 0 {
			// no symbol: cannot happen, used is not empty
			panic("empty histogram")
		}
		rest := 4096 - (sum - freq[om])
		if rest <= 0 {
			continue
		}
		freq[om] = rest
		if logc[om] < 12 && r.N(3) == 0 {
			logc[om] = 12
		}
		d.freq, d.logc, d.omit = freq, logc, om
		break
	}
	d.run = make([]int, n)
	if r.N(3) != 0 {
		dec := make([]int, n) // frequencies as seen while decoding (omit = 0)
		copy(dec, d.freq)
		dec[d.omit] = 0
		for i := 0; i < n; i++ {
			if i == d.omit || i-1 == d.omit {
				continue
			}
			prev := 0
			if i > 0 {
				prev = dec[i-1]
			}
			l := 0
			for i+l < n && i+l != d.omit && dec[i+l] == prev {
				l++
			}
			if l >= 4 {
				k := l
				if r.N(3) == 0 {
					k = 4 + r.N(l-3)
				}
				if k > 255+4 {
					k = 255 + 4
				}
				d.run[i] = k
				feat["ans-rle"] = true
				i += k - 1
			}
		}
	}
}

var logcVLC = map[int][2]int{0: {17, 5}, 1: {11, 4}, 2: {15, 4}, 3: {3, 4}, 4: {9, 4}, 5: {7, 4}, 6: {4, 3}, 7: {2, 3}, 8: {5, 3}, 9: {6, 3}, 10: {0, 3}, 11: {33, 6}, 12: {1, 7}, 13: {65, 7}}

// wrong writes a wrong histogram.
func (d *ansDist) wrong(w *BW) bool {
	if d.alpha < 256 {
		if r, ok := fault("alphabet"); ok {
			s := d.alpha + int(r>>8)%(256-d.alpha)
			switch r % 4 {
			case 0:
				w.Bits(1, 1)
				w.Bits(0, 1)
				w.U8(s)
			case 1:
				w.Bits(3, 2)
				w.U8(int(r>>8) % d.alpha)
				w.U8(s)
				w.Bits(uint64(r>>20), 12)
			case 2:
				w.Bits(2, 2)
				w.U8(s)
			case 3:
				w.Bits(0, 2)
				w.Bits(1, 2) // shift 0 or 1
				w.Bits(uint64(r>>16)&1, 1)
				w.U8(s - 2)
				for i := 0; i <= s; i++ {
					v := logcVLC[4]
					w.Bits(uint64(v[0]), v[1])
				}
			}
			return true
		}
	}
	if r, ok := fault("histogram"); ok {
		w.Bits(0, 2)
		w.Bits(1, 2) // shift 0 or 1: no bits for 11, 12
		w.Bits(0, 1)
		n := int(r>>8) % (d.alpha - 2)
		w.U8(n)
		v := logcVLC[12]
		for i := 0; i < n+3; i++ {
			if i == 3 && r%2 == 0 {
				v = logcVLC[0] // exactly nothing left for the first
			}
			w.Bits(uint64(v[0]), v[1])
		}
		for i := 0; i < 30; i++ {
			w.Bits(uint64(r>>uint(i))&1, 1)
		}
		return true
	}
	if r, ok := fault("same-peaks"); ok {
		w.Bits(3, 2)
		w.U8(int(r) % d.alpha)
		w.U8(int(r) % d.alpha)
		w.Bits(uint64(r>>20), 12)
		return true
	}
	return false
}

func (d *ansDist) write(w *BW) {
	if d.wrong(w) {
		return
	}
	switch d.kind {
	case 0:
		w.Bits(1, 1)
		w.Bits(0, 1)
		w.U8(d.s1)
	case 1:
		w.Bits(1, 1)
		w.Bits(1, 1)
		w.U8(d.s1)
		w.U8(d.s2)
		w.Bits(uint64(d.freq[d.s1]), 12)
	case 2:
		w.Bits(0, 1)
		w.Bits(1, 1)
		w.U8(len(d.freq) - 1)
	case 3:
		w.Bits(0, 1)
		w.Bits(0, 1)
		l := bits.Len(uint(d.shift+1)) - 1
		for i := 0; i < l; i++ {
			w.Bits(1, 1)
		}
		if l < 3 {
			w.Bits(0, 1)
		}
		w.Bits(uint64(d.shift+1)-1<<uint(l), l)
		w.U8(len(d.freq) - 3)
		for i := 0; i < len(d.freq); i++ {
			if d.run[i] > 0 {
				v := logcVLC[13]
				w.Bits(uint64(v[0]), v[1])
				w.U8(d.run[i] - 4)
				i += d.run[i] - 1
				continue
			}
			v := logcVLC[d.logc[i]]
			w.Bits(uint64(v[0]), v[1])
		}
		for i := 0; i < len(d.freq); i++ {
			if d.run[i] > 0 {
				i += d.run[i] - 1
				continue
			}
			l := d.logc[i]
			if i == d.omit || l <= 1 {
				continue
			}
			b := d.shift - (12-l+1)>>1
			if b < 0 {
				b = 0
			}
			if b > l-1 {
				b = l - 1
			}
			w.Bits(uint64(d.freq[i]-1<<uint(l-1))>>uint(l-1-b), b)
		}
	}
}

// buildRev builds, from the alias table of the format, the slots of each
// symbol.
func (d *ansDist) buildRev(logAlpha int) {
	table := 1 << uint(logAlpha)
	bucket := 4096 >> uint(logAlpha)
	d.rev = map[int][]int{}
	uniq := -1
	for i, f := range d.freq {
		if f == 4096 {
			uniq = i
		}
	}
	if uniq >= 0 {
		s := make([]int, 4096)
		for i := range s {
			s[i] = i
		}
		d.rev[uniq] = s
		return
	}
	cut := make([]int, table)
	right := make([]int, table)
	off := make([]int, table)
	var under, over []int
	for i := 0; i < table; i++ {
		if i < len(d.freq) {
			cut[i] = d.freq[i]
		}
		if cut[i] > bucket {
			over = append(over, i)
		} else if cut[i] < bucket {
			under = append(under, i)
		}
	}
	for len(over) > 0 {
		o := over[len(over)-1]
		over = over[:len(over)-1]
		u := under[len(under)-1]
		under = under[:len(under)-1]
		by := bucket - cut[u]
		cut[o] -= by
		right[u] = o
		off[u] = cut[o]
		if cut[o] < bucket {
			under = append(under, o)
		} else if cut[o] > bucket {
			over = append(over, o)
		}
	}
	for i := range d.freq {
		d.rev[i] = make([]int, d.freq[i])
	}
	for slot := 0; slot < 4096; slot++ {
		i, pos := slot/bucket, slot%bucket
		var s, o int
		if cut[i] == bucket {
			s, o = i, pos
		} else if pos < cut[i] {
			s, o = i, pos
		} else {
			s, o = right[i], off[i]-cut[i]+pos
		}
		d.rev[s][o] = slot
	}
}

// ---- prefix codes ----

func reverseBits(v uint32, n int) uint32 { return bits.Reverse32(v) >> uint(32-n) }

// randLens makes a complete prefix code on n symbols with lengths <= maxLen.
func randLens(r *pbt.RNG, n, maxLen int, skew bool) []int {
	var out []int
	var rec func(n, depth int)
	rec = func(n, depth int) {
		if n == 1 {
			out = append(out, depth)
			return
		}
		cap := 1 << uint(maxLen-depth-1)
		lo, hi := max(1, n-cap), min(n-1, cap)
		k := lo
		if skew {
			if r.N(2) == 0 {
				k = lo + r.N(min(3, hi-lo+1))
			} else {
				k = hi - r.N(min(3, hi-lo+1))
			}
		} else {
			m := n / 2
			k = max(lo, min(hi, m+r.N(3)-1))
		}
		rec(k, depth+1)
		rec(n-k, depth+1)
	}
	rec(n, 0)
	for i := len(out) - 1; i > 0; i-- {
		j := r.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func canonical(lens []int) []uint32 {
	codes := make([]uint32, len(lens))
	code := uint32(0)
	for l := 1; l <= 15; l++ {
		for s, x := range lens {
			if x == l {
				codes[s] = reverseBits(code, l)
				code++
			}
		}
		code <<= 1
	}
	return codes
}

func newPre(t *pbt.T, r *pbt.RNG, cnt []int, feat map[string]bool) *preDist {
	var used []int
	for i, v := range cnt {
		if v > 0 {
			used = append(used, i)
		}
	}
	p := &preDist{alpha: len(cnt)}
	if r.N(4) == 0 {
		p.alpha += r.N(40)
	}
	if p.alpha == 1 {
		p.lens = []int{0}
		p.codes = []uint32{0}
		return p
	}
	if len(used) <= 4 && r.N(2) == 0 || len(used) == 1 {
		p.kind = len(used)
		// a simple code may carry extra unused symbols
		if r.N(4) == 0 {
			for p.kind < 4 && r.N(2) == 0 {
				s := r.N(p.alpha)
				dup := false
				for _, u := range used {
					if u == s {
						dup = true
					}
				}
				if dup {
					continue
				}
				used = append(used, s)
				p.kind++
			}
		}
		feat[fmt.Sprintf("prefix-simple%d", p.kind)] = true
		for i := len(used) - 1; i > 0; i-- {
			j := r.N(i + 1)
			used[i], used[j] = used[j], used[i]
		}
		p.syms = used
		p.lens = make([]int, p.alpha)
		p.codes = make([]uint32, p.alpha)
		switch p.kind {
		case 1:
		case 2:
			p.lens[used[0]], p.lens[used[1]] = 1, 1
		case 3:
			p.lens[used[0]], p.lens[used[1]], p.lens[used[2]] = 1, 2, 2
		case 4:
			p.tsel = r.N(2) == 0
			if p.tsel {
				p.lens[used[0]], p.lens[used[1]], p.lens[used[2]], p.lens[used[3]] = 1, 2, 3, 3
			} else {
				for _, u := range used {
					p.lens[u] = 2
				}
			}
		}
		p.codes = canonical(p.lens)
		return p
	}
	p.kind = 5
	feat["prefix-complex"] = true
	if r.N(4) == 0 {
		for k := 0; k < 1+p.alpha/10; k++ {
			s := r.N(p.alpha)
			dup := false
			for _, u := range used {
				if u == s {
					dup = true
				}
			}
			if !dup {
				used = append(used, s)
			}
		}
	}
	l := randLens(r, len(used), 15, r.N(3) != 0)
	if r.N(2) == 0 { // give the frequent symbols the short codes
		sort.Ints(l)
		sort.SliceStable(used, func(a, b int) bool {
			ca, cb := 0, 0
			if used[a] < len(cnt) {
				ca = cnt[used[a]]
			}
			if used[b] < len(cnt) {
				cb = cnt[used[b]]
			}
			return ca > cb
		})
	}
	p.lens = make([]int, p.alpha)
	for i, u := range used {
		p.lens[u] = l[i]
	}
	p.codes = canonical(p.lens)
	p.useRLE = r.N(4) != 0
	p.level1(r, feat)
	return p
}

var clOrder = [18]int{1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15}

func (p *preDist) level1(r *pbt.RNG, feat map[string]bool) {
	last := 0
	for i, l := range p.lens {
		if l > 0 {
			last = i
		}
	}
	var seq []l1tok
	prev := 8
	for i := 0; i <= last; {
		run := 1
		for i+run <= last && p.lens[i+run] == p.lens[i] {
			run++
		}
		l := p.lens[i]
		if p.useRLE && l == 0 && run >= 3 {
			// consecutive 17s multiply; decompose greedily
			k := run
			if r.N(3) == 0 {
				k = 3 + r.N(run-2)
			}
			seq = append(seq, rle(17, 3, k)...)
			feat["prefix-rle0"] = true
			i += k
			// a following non-17 token must come before another 17 chain,
			// otherwise it would multiply: emit the rest literally
			for k < run {
				seq = append(seq, l1tok{0, 0, 0})
				k++
				i++
			}
			continue
		}
		if p.useRLE && l != 0 && l == prev && run >= 3 && r.N(3) != 0 {
			k := run
			seq = append(seq, rle(16, 2, k)...)
			feat["prefix-rle16"] = true
			i += k
			continue
		}
		seq = append(seq, l1tok{l, 0, 0})
		if l != 0 {
			prev = l
		}
		i++
	}
	q := &preL1{seq: seq}
	var us []int
	seen := map[int]bool{}
	for _, x := range seq {
		if !seen[x.s] {
			seen[x.s] = true
			us = append(us, x.s)
		}
	}
	sort.Ints(us)
	if len(us) > 1 && len(us) < 18 && r.N(4) == 0 {
		for s := 0; s < 18; s++ {
			if !seen[s] && r.N(4) == 0 {
				us = append(us, s)
				seen[s] = true
			}
		}
	}
	q.n = len(us)
	if len(us) == 1 {
		q.lens[us[0]] = 1 + r.N(5)
	} else {
		l := randLens(r, len(us), 5, r.N(2) == 0)
		for i, s := range us {
			q.lens[s] = l[i]
		}
		c := canonical(q.lens[:])
		copy(q.codes[:], c)
	}
	sk := 0
	for sk < 3 && q.lens[clOrder[sk]] == 0 {
		sk++
	}
	switch {
	case sk >= 3 && r.N(3) != 0:
		p.hskip = 3
	case sk >= 2 && r.N(3) != 0:
		p.hskip = 2
	}
	p.l1 = q
}

// rle encodes a run of exactly n (>=3) with repeat code s having eb extra bits.
func rle(s, eb, n int) []l1tok {
	// repeat lengths: r1 = 3+e1; r_{k+1} = (r_k-2)<<eb + 3 + e
	base := 1 << uint(eb)
	var digits []int
	for n >= 3+base {
		e := (n - 3) % base
		digits = append(digits, e)
		n = (n-3-e)/base + 2
	}
	digits = append(digits, n-3)
	var out []l1tok
	for i := len(digits) - 1; i >= 0; i-- {
		out = append(out, l1tok{s, eb, digits[i]})
	}
	return out
}

var l0code = [6][2]int{{0, 2}, {7, 4}, {3, 3}, {2, 2}, {1, 2}, {15, 4}}

func (p *preDist) write(w *BW) {
	if p.alpha == 1 {
		return
	}
	if p.kind < 5 {
		w.Bits(1, 2)
		w.Bits(uint64(p.kind-1), 2)
		nb := CeilLog2(p.alpha)
		for _, s := range p.syms {
			w.Bits(uint64(s), nb)
		}
		if p.kind == 4 {
			w.Bool(p.tsel)
		}
		return
	}
	if r, ok := fault("prefix-code"); ok {
		p.wrong(w, r)
		return
	}
	w.Bits(uint64(p.hskip), 2)
	sum := 0
	for i := p.hskip; i < 18; i++ {
		l := p.l1.lens[clOrder[i]]
		w.Bits(uint64(l0code[l][0]), l0code[l][1])
		if l > 0 {
			sum += 32 >> uint(l)
		}
		if sum >= 32 {
			break
		}
	}
	for _, x := range p.l1.seq {
		if p.l1.n > 1 {
			w.Bits(uint64(p.l1.codes[x.s]), p.l1.lens[x.s])
		}
		w.Bits(uint64(x.ex), x.nb)
	}
}

// wrong writes a code that is not complete, or more than that.
func (p *preDist) wrong(w *BW, r uint32) {
	w.Bits(0, 2)
	lens := []int{2, 2, 2, 1} // too many
	switch r % 4 {
	case 0:
		lens = []int{5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5} // too few
	case 1:
		lens = []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} // none
	case 2:
		// lengths 1 and 2 with one bit each
		lens = []int{1, 1}
	}
	for _, l := range lens {
		w.Bits(uint64(l0code[l][0]), l0code[l][1])
	}
	if len(lens) == 2 {
		w.Bits(7, 3)
		if p.alpha >= 4 {
			w.Bits(0, 1)
		}
	}
	for i := 0; i < 30; i++ {
		w.Bits(uint64(r>>uint(i))&1, 1)
	}
}

func (p *preDist) writeSym(w *BW, s int) {
	if p.kind <= 1 {
		return
	}
	w.Bits(uint64(p.codes[s]), p.lens[s])
}
