package props

import (
	"bytes"
	"image"
	"io"
	"runtime"
	"time"

	jxlgo "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/pbt"
)

func init() {
	reg("C11", c11)
}

// sizeOf reads the size header of a bare codestream.
func sizeOf(b []byte) (w, h uint64, ok bool) {
	if len(b) < 2 || b[0] != 0xFF || b[1] != 0x0A {
		return 0, 0, false
	}
	pos := 16
	bits := func(n int) (v uint64) {
		for i := 0; i < n; i++ {
			if pos/8 < len(b) && b[pos/8]>>(pos%8)&1 != 0 {
				v |= 1 << i
			}
			pos++
		}
		return
	}
	div8 := bits(1)
	dim := func() uint64 {
		if div8 == 1 {
			return (bits(5) + 1) * 8
		}
		return bits([]int{9, 13, 18, 30}[bits(2)]) + 1
	}
	h = dim()
	r := bits(3)
	switch r {
	case 0:
		w = dim()
	case 1:
		w = h
	case 2:
		w = h * 12 / 10
	case 3:
		w = h * 4 / 3
	case 4:
		w = h * 3 / 2
	case 5:
		w = h * 16 / 9
	case 6:
		w = h * 5 / 4
	case 7:
		w = h * 2
	}
	return w, h, true
}

// mutate changes bytes of b.
func mutate(r *pbt.RNG, b, other []byte, keep int) []byte {
	b = append([]byte(nil), b...)
	n := 1 + r.N(3)
	if r.N(4) == 0 {
		n = 1 + r.N(30)
	}
	at := func() int {
		if len(b) <= keep {
			return len(b)
		}
		// the headers are the interesting part
		if r.N(2) == 0 {
			return keep + r.N(min(len(b)-keep, 60))
		}
		return keep + r.N(len(b)-keep)
	}
	for ; n > 0; n-- {
		p := at()
		if p >= len(b) {
			b = append(b, byte(r.Next()))
			continue
		}
		switch r.N(9) {
		case 0, 1, 2:
			b[p] ^= 1 << r.N(8)
		case 3:
			b[p] = byte(r.Next())
		case 4:
			b[p] = []byte{0, 0xFF, 0x80, 1}[r.N(4)]
		case 5: // cut
			e := min(len(b), p+1+r.N(8))
			b = append(b[:p], b[e:]...)
		case 6: // insert
			k := 1 + r.N(8)
			ins := make([]byte, k)
			for i := range ins {
				ins[i] = byte(r.Next())
			}
			b = append(b[:p], append(ins, b[p:]...)...)
		case 7: // random run
			e := min(len(b), p+1+r.N(16))
			for i := p; i < e; i++ {
				b[i] = byte(r.Next())
			}
		case 8: // piece of another file
			if len(other) > 0 {
				o := r.N(len(other))
				k := min(len(other)-o, 1+r.N(64))
				b = append(b[:p], append(append([]byte(nil), other[o:o+k]...), b[min(len(b), p+k):]...)...)
			}
		}
	}
	return b
}

// c11: whatever the bytes, decoding ends with an image or an error.
func c11(t *pbt.T) {
	r := t.RNG()
	var data []byte
	kind := t.W(8, 3, 2, 2, 1)
	what := ""
	switch kind {
	case 0: // damaged stream
		s := anyStream(t, 24)
		other := corpus[t.N(len(corpus))].data
		data = mutate(r, s.data, other, 0)
		what = "damaged: " + s.what
		t.Label("damaged")
	case 1: // damaged file of another encoder
		s := corpus[t.N(len(corpus))]
		other := corpus[t.N(len(corpus))].data
		data = mutate(r, s.data, other, 0)
		what = "damaged: " + s.name
		t.Label("damaged-corpus")
	case 2: // damaged container
		s := anyStream(t, 24)
		data = mutate(r, wrap(t, s.data), s.data, 0)
		what = "damaged container"
		t.Label("damaged-container")
	case 3: // a valid beginning and noise
		s := anyStream(t, 24)
		k := 2 + r.N(min(len(s.data)-2, 40))
		data = append([]byte(nil), s.data[:k]...)
		for n := r.N(400); n > 0; n-- {
			if r.N(4) == 0 {
				data = append(data, 0)
			} else {
				data = append(data, byte(r.Next()))
			}
		}
		what = "valid beginning, then noise"
		t.Label("noise")
	case 4:
		n := r.N(200)
		data = make([]byte, n)
		for i := range data {
			data[i] = byte(r.Next())
		}
		switch r.N(3) {
		case 0:
			data = append([]byte{0xFF, 0x0A, 0x31, 0x10}, data...)
		case 1:
			data = append(append([]byte(nil), sigBox...), data...)
		}
		what = "noise"
		t.Label("all-noise")
	}
	if !bytes.HasPrefix(data, sigBox) {
		// a huge image needs a lot of memory, whatever comes next
		if w, h, ok := sizeOf(data); ok && (w > 1<<14 || h > 1<<14 || w*h > 1<<20) {
			t.Discard("large image")
		}
	}
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("%d bytes: %s", len(data), what)
	t.NonTrivial()
	routines := runtime.NumGoroutine()
	img, err := DecodeWith(data, []int{1, 4}[t.N(2)])
	if err == nil && img == nil {
		t.Failf("neither an image nor an error")
	}
	if err != nil {
		t.Label("error")
	} else {
		t.Label("decoded")
		if img.Width == 0 || img.Height == 0 {
			t.Failf("an image of %dx%d", img.Width, img.Height)
		}
	}
	// the other ways in
	dec := core.NewJXLDecoder(bytes.NewReader(data), options.NewJXLOptions(nil))
	hd, herr := dec.GetImageHeader()
	if herr == nil && hd == nil {
		t.Failf("GetImageHeader gives neither a header nor an error")
	}
	if err == nil && herr != nil {
		t.Failf("the image decodes, but GetImageHeader says %v", herr)
	}
	cfg, cerr := jxlgo.DecodeConfig(bytes.NewReader(data))
	if (cerr == nil) != (herr == nil) {
		t.Failf("DecodeConfig gives error %v, GetImageHeader %v", cerr, herr)
	}
	if cerr == nil && (cfg.Width <= 0 || cfg.Height <= 0) {
		t.Failf("DecodeConfig gives %dx%d", cfg.Width, cfg.Height)
	}
	for i := 0; runtime.NumGoroutine() > routines; i++ {
		if i == 300 {
			t.Failf("%d goroutines are left behind", runtime.NumGoroutine()-routines)
		}
		time.Sleep(10 * time.Millisecond)
	}
	if t.Chance(1, 4) {
		image.DecodeConfig(io.Reader(bytes.NewReader(data)))
		t.Label("image-package")
	}
}
