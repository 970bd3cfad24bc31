// Package props states the decoder's properties as generated checks.
package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/kpfaulkner/jxl-go/core"
	imgbuf "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/sirupsen/logrus"
	"io"

	"verif/jx"
	"verif/pbt"
)

// Props by id.
var Props = map[string]func(*pbt.T){}

func init() { logrus.SetOutput(io.Discard) }

func reg(id string, f func(*pbt.T)) { Props[id] = f }

// Decode runs the decoder under test on data.
func Decode(data []byte) (*core.JXLImage, error) { return DecodeWith(data, 4) }

// DecodeWith decodes with a given number of goroutines.
func DecodeWith(data []byte, g int) (*core.JXLImage, error) {
	o := options.NewJXLOptions(nil)
	o.MaxGoroutines = g
	return core.NewJXLDecoder(bytes.NewReader(data), o).Decode()
}

func featString(feat map[string]bool) string {
	var k []string
	for f := range feat {
		k = append(k, f)
	}
	sort.Strings(k)
	return strings.Join(k, " ")
}

func dims(b imgbuf.ImageBuffer) (int, int) {
	if b.IsInt() {
		if len(b.IntBuffer) == 0 {
			return 0, 0
		}
		return len(b.IntBuffer[0]), len(b.IntBuffer)
	}
	if len(b.FloatBuffer) == 0 {
		return 0, 0
	}
	return len(b.FloatBuffer[0]), len(b.FloatBuffer)
}

// sampleAt gives a sample as float64, raw.
func sampleAt(b imgbuf.ImageBuffer, x, y int) float64 {
	if b.IsInt() {
		return float64(b.IntBuffer[y][x])
	}
	return float64(b.FloatBuffer[y][x])
}

// checkPlane compares an integer plane exactly.  Samples outside [0,max] may
// come back clamped to the range or as they are.
func checkPlane(t *pbt.T, name string, b imgbuf.ImageBuffer, want *jx.Chan, maxv int64) {
	w, h := dims(b)
	if w != want.W || h != want.H || int(b.Width) != w || int(b.Height) != h {
		t.Failf("%s: decoded size %dx%d (declared %dx%d), want %dx%d", name, w, h, b.Width, b.Height, want.W, want.H)
	}
	if !b.IsInt() {
		t.Failf("%s: integer image decoded to a float buffer", name)
	}
	for y := 0; y < h; y++ {
		row := b.IntBuffer[y]
		for x := 0; x < w; x++ {
			v := want.At(x, y)
			g := int64(row[x])
			if g == v {
				continue
			}
			if v < 0 && g == 0 || v > maxv && g == maxv {
				continue
			}
			t.Failf("%s: sample (%d,%d) decoded as %d, encoded as %d", name, x, y, g, v)
		}
	}
	t.Eval(w * h)
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func sig(t *pbt.T, data []byte) { t.Sig([]byte(fmt.Sprint(hash(data)))) }

// fill draws content for a plane of n-bit samples.
func fill(t *pbt.T, c *jx.Chan, bits int) {
	r := t.RNG()
	max := uint64(1)<<uint(bits) - 1
	kind := t.W(1, 3, 3, 3, 2, 2)
	switch kind {
	case 0:
		v := int64(r.Next() % (max + 1))
		for i := range c.D {
			c.D[i] = v
		}
	case 1: // noise
		for i := range c.D {
			c.D[i] = int64(r.Next() % (max + 1))
		}
	case 2: // smooth
		a, b, o := int64(r.N(9))-4, int64(r.N(9))-4, int64(r.Next()%(max+1))
		n := int64(r.N(4))
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				v := o + a*int64(x) + b*int64(y)
				if n > 0 {
					v += int64(r.N(int(2*n+1))) - n
				}
				c.Set(x, y, clamp(v, 0, int64(max)))
			}
		}
	case 3: // few colours, runs
		k := r.N(6) + 1
		pal := make([]int64, k)
		for i := range pal {
			pal[i] = int64(r.Next() % (max + 1))
		}
		p := 0
		for i := range c.D {
			if r.N(5) == 0 {
				p = r.N(k)
			}
			c.D[i] = pal[p]
		}
	case 4: // tiled pattern
		pw, ph := r.N(12)+1, r.N(12)+1
		pat := make([]int64, pw*ph)
		for i := range pat {
			pat[i] = int64(r.Next() % (max + 1))
		}
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				c.Set(x, y, pat[y%ph*pw+x%pw])
			}
		}
	case 5: // extremes
		for i := range c.D {
			switch r.N(4) {
			case 0:
				c.D[i] = 0
			case 1:
				c.D[i] = int64(max)
			case 2:
				c.D[i] = int64(max / 2)
			default:
				c.D[i] = int64(r.Next() % 3)
			}
			c.D[i] = clamp(c.D[i], 0, int64(max))
		}
	}
}

func clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func constant(c *jx.Chan) bool {
	for _, v := range c.D {
		if v != c.D[0] {
			return false
		}
	}
	return true
}

func anyVaried(ps []*jx.Chan) bool {
	for _, p := range ps {
		if len(p.D) >= 4 && !constant(p) {
			return true
		}
	}
	return false
}
