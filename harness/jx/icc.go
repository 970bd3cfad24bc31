package jx

import (
	"verif/pbt"
)

// ICC is a generated encoded ICC profile and what it stands for.
type ICC struct {
	Enc  []byte // the encoded stream before entropy coding
	Out  []byte // the profile
	Feat map[string]bool
}

var iccTagNames = []string{"cprt", "wtpt", "bkpt", "rXYZ", "gXYZ", "bXYZ", "kXYZ", "rTRC", "gTRC", "bTRC", "kTRC", "chad", "desc", "chrm", "dmnd", "dmdd", "lumi"}
var iccTypes = []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}

func varint(b []byte, v uint64) []byte {
	for v > 127 {
		b = append(b, byte(v)|128)
		v >>= 7
	}
	return append(b, byte(v))
}

func be32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

// unshuffle gives the byte order before the decoder's shuffle of width w.
func iccShuffle(in []byte, w int) []byte {
	h := (len(in) + w - 1) / w
	out := make([]byte, len(in))
	s, j := 0, 0
	for i := range out {
		out[i] = in[j]
		j += h
		if j >= len(in) {
			s++
			j = s
		}
	}
	return out
}

func iccHeaderPred(icc []byte, i int, osize uint32) byte {
	var h [128]byte
	copy(h[:], be32(nil, osize))
	h[8] = 4
	copy(h[12:], "mntrRGB XYZ ")
	copy(h[36:], "acsp")
	h[70], h[71], h[73], h[78], h[79] = 0xf6, 0xd6, 1, 0xd3, 0x2d
	if i >= 80 && i < 84 {
		h[i] = icc[4+i-80]
	}
	if i >= 41 && i < 44 {
		switch icc[40] {
		case 'A':
			copy(h[41:], "PPL")
		case 'M':
			copy(h[41:], "SFT")
		case 'S':
			if i >= 42 && icc[41] == 'G' {
				copy(h[42:], "I ")
			}
			if i >= 42 && icc[41] == 'U' {
				copy(h[42:], "NW")
			}
		}
	}
	return h[i]
}

func iccPredict(d []byte, start, i, stride, width, order int) byte {
	p := start + i/width*width
	val := func(at int) (v uint32) {
		for k := 0; k < width; k++ {
			v = v<<8 | uint32(d[at+k])
		}
		return
	}
	p1 := val(p - stride)
	var v uint32
	switch order {
	case 0:
		v = p1
	case 1:
		v = 2*p1 - val(p-2*stride)
	case 2:
		v = 3*p1 - 3*val(p-2*stride) + val(p-3*stride)
	}
	return byte(v >> uint(8*(width-1-i%width)))
}

// GenICC draws an encoded profile that uses the commands at random.
func GenICC(t *pbt.T) *ICC {
	c := &ICC{Feat: map[string]bool{}}
	r := t.RNG()
	rnd := func(n int) []byte {
		b := make([]byte, n)
		k := r.N(3)
		for i := range b {
			switch {
			case k == 0:
				b[i] = byte(r.Next())
			case k == 1:
				b[i] = "abcXYZ 0129.,\x00\x01\x02\xff\xf8"[r.N(18)]
			case i > 0:
				b[i] = b[i-1] + byte(r.N(3))
			}
		}
		return b
	}
	var cmds, data []byte
	head := make([]byte, 0, 128)
	// header as it will be
	for i := 0; i < 128; i++ {
		var b byte
		if i < 4 {
			b = byte(r.N(2))
		} else {
			b = iccHeaderPred(head, i, 0)
			if r.N(4) == 0 {
				b = rnd(1)[0]
			}
			if i == 40 {
				b = "AMSSS\x00x"[r.N(7)]
			}
			if i == 41 && head[40] == 'S' {
				b = "GUX"[r.N(3)]
			}
		}
		head = append(head, b)
	}
	out := append([]byte(nil), head...)
	if t.Chance(1, 10) {
		out = out[:t.Range(0, 128)]
		c.Feat["icc-only-header"] = true
	} else {
		if t.Chance(1, 6) {
			cmds = varint(cmds, 0)
			c.Feat["icc-no-tags"] = true
		} else {
			nt := t.Size(0, 12)
			n := nt
			if t.Chance(1, 8) {
				n = t.N(300)
			}
			cmds = varint(cmds, uint64(n)+1)
			out = be32(out, uint32(n))
			ps, pz := uint32(128+12*n), uint32(0)
			for k := 0; k < nt; k++ {
				code := r.N(21)
				if code == 0 {
					code = 1
				}
				cmd := byte(code)
				var tag string
				switch code {
				case 1:
					b := rnd(4)
					data = append(data, b...)
					tag = string(b)
				case 2:
					tag = "rTRC"
				case 3:
					tag = "rXYZ"
				default:
					tag = iccTagNames[code-4]
				}
				out = append(out, tag...)
				start, size := ps+pz, pz
				switch tag {
				case "rXYZ", "gXYZ", "bXYZ", "kXYZ", "wtpt", "bkpt", "lumi":
					size = 20
				}
				var args []byte
				if r.N(3) == 0 {
					cmd |= 64
					start = uint32(r.Next() % []uint64{300, 20000, 1 << 28, 1<<31 - 1}[r.N(4)])
					args = varint(args, uint64(start))
				}
				if r.N(3) == 0 {
					cmd |= 128
					size = uint32(r.Next() % []uint64{100, 3000, 100000, 1 << 20}[r.N(4)])
					args = varint(args, uint64(size))
				}
				if uint64(start)+3*uint64(size) > 1<<31-1 {
					if cmd&64 == 0 {
						cmd |= 64
						args = append(varint(nil, 0), args...)
					} else {
						// the offset is the first argument
						rest := args
						for rest[0] > 127 {
							rest = rest[1:]
						}
						args = append(varint(nil, 0), rest[1:]...)
					}
					start = 0
				}
				cmds = append(cmds, cmd)
				cmds = append(cmds, args...)
				out = be32(be32(out, start), size)
				ps, pz = start, size
				if code == 2 {
					for _, s := range []string{"gTRC", "bTRC"} {
						out = be32(be32(append(out, s...), start), size)
					}
				}
				if code == 3 {
					for j, s := range []string{"gXYZ", "bXYZ"} {
						out = be32(be32(append(out, s...), start+uint32(j+1)*size), size)
					}
				}
			}
			if t.Chance(5, 6) {
				cmds = append(cmds, byte(r.N(4)<<6))
			} else {
				goto done // the commands end in the tag list
			}
		}
		for k := t.Size(0, 12); k > 0; k-- {
			switch r.N(6) {
			case 0:
				b := rnd(r.N(40))
				cmds = varint(append(cmds, 1), uint64(len(b)))
				data = append(data, b...)
				out = append(out, b...)
				c.Feat["icc-insert"] = true
			case 1:
				w := 2 + 2*r.N(2)
				n := r.N(50)
				if r.N(8) == 0 {
					n = 130 + r.N(300)
				}
				b := rnd(n)
				cmds = varint(append(cmds, byte(w/2+1)), uint64(len(b)))
				data = append(data, b...)
				out = append(out, iccShuffle(b, w)...)
				c.Feat["icc-shuffle"] = true
				if n%w != 0 {
					c.Feat["icc-shuffle-uneven"] = true
				}
			case 2, 3:
				w := []int{1, 2, 4}[r.N(3)]
				order := r.N(3)
				fl := byte(w-1) | byte(order)<<2 | byte(r.N(8)<<5)
				stride := w
				if r.N(2) == 0 {
					fl |= 16
					stride = w + r.N((len(out)-1)/4-w+1)
					if r.N(2) == 0 {
						stride = w + r.N(min(12, (len(out)-1)/4-w)+1)
					}
				}
				n := r.N(60)
				if r.N(8) == 0 {
					n = 150 + r.N(500)
				}
				cmds = append(cmds, 4, fl)
				if fl&16 != 0 {
					cmds = varint(cmds, uint64(stride))
					c.Feat["icc-stride"] = true
				}
				cmds = varint(cmds, uint64(n))
				b := rnd(n)
				data = append(data, b...)
				if w > 1 {
					b = iccShuffle(b, w)
				}
				start := len(out)
				for i := range b {
					out = append(out, b[i]+iccPredict(out, start, i, stride, w, order))
				}
				c.Feat["icc-predict"] = true
				if n%w != 0 {
					c.Feat["icc-predict-uneven"] = true
				}
			case 4:
				b := rnd(12)
				cmds = append(cmds, 10)
				data = append(data, b...)
				out = append(append(out, "XYZ \x00\x00\x00\x00"...), b...)
			case 5:
				k := r.N(8)
				cmds = append(cmds, byte(16+k))
				out = append(append(out, iccTypes[k]...), 0, 0, 0, 0)
			}
		}
	}
done:
	c.Out = out
	var hd []byte
	for i := 0; i < min(128, len(out)); i++ {
		hd = append(hd, out[i]-iccHeaderPred(out, i, uint32(len(out))))
	}
	c.Enc = varint(c.Enc, uint64(len(out)))
	c.Enc = varint(c.Enc, uint64(len(cmds)))
	c.Enc = append(c.Enc, cmds...)
	c.Enc = append(c.Enc, hd...)
	c.Enc = append(c.Enc, data...)
	return c
}

func iccCtx(b []byte, i int) int {
	if i <= 128 {
		return 0
	}
	kind := func(v byte) int {
		switch {
		case v >= 'a' && v <= 'z' || v >= 'A' && v <= 'Z':
			return 0
		case v >= '0' && v <= '9' || v == '.' || v == ',':
			return 1
		}
		return -1
	}
	k1, k2 := kind(b[i-1]), kind(b[i-2])
	if k1 < 0 {
		switch v := b[i-1]; {
		case v == 0:
			k1 = 2
		case v == 1:
			k1 = 3
		case v < 16:
			k1 = 4
		case v == 255:
			k1 = 6
		case v > 240:
			k1 = 5
		default:
			k1 = 7
		}
	}
	if k2 < 0 {
		switch v := b[i-2]; {
		case v < 16:
			k2 = 2
		case v > 240:
			k2 = 3
		default:
			k2 = 4
		}
	}
	return 1 + k1 + 8*k2
}

// Code gives the writer of the entropy coded profile.
func (c *ICC) Code(t *pbt.T) func(w *BW) {
	var toks []Tok
	for i, b := range c.Enc {
		toks = append(toks, Tok{Ctx: iccCtx(c.Enc, i), Val: uint32(b)})
	}
	code := NewCode(t, 41, [][]Tok{toks}, []int{0}, EOpts{})
	return func(w *BW) {
		w.U64(uint64(len(c.Enc)))
		code.WriteHeader(w)
		code.WriteStream(w, 0)
	}
}
