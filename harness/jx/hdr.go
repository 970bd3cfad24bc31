package jx

import "verif/pbt"

// BitDepth of samples.
type BitDepth struct {
	Float bool
	Bits  int
	Exp   int
}

func (b BitDepth) write(w *BW, pick func(int) int) {
	w.Bool(b.Float)
	if b.Float {
		w.U32(uint32(b.Bits), pick, U32d{32, 0}, U32d{16, 0}, U32d{24, 0}, U32d{1, 6})
		w.Bits(uint64(b.Exp-1), 4)
		return
	}
	w.U32(uint32(b.Bits), pick, U32d{8, 0}, U32d{10, 0}, U32d{12, 0}, U32d{1, 6})
}

// Extra channel types.
const (
	ECAlpha    = 0
	ECDepth    = 1
	ECSpot     = 2
	ECSelMask  = 3
	ECBlack    = 4
	ECCFA      = 5
	ECThermal  = 6
	ECUnknown  = 15
	ECOptional = 16
)

// EC describes an extra channel.
type EC struct {
	Default bool // written as the all-default alpha channel
	Type    int
	Depth   BitDepth
	Shift   int
	Name    string
	Assoc   bool
	Spot    [4]uint16 // half floats
	CFA     int
}

// XY is a custom chromaticity in millionths.
type XY struct{ X, Y int32 }

func (p XY) write(w *BW, pick func(int) int) {
	for _, v := range []int32{p.X, p.Y} {
		w.U32(PackSigned(int64(v)), pick, U32d{0, 19}, U32d{524288, 19}, U32d{1048576, 20}, U32d{2097152, 21})
	}
}

// ColourEnc is the colour encoding bundle.
type ColourEnc struct {
	AllDefault bool
	ICC        bool
	Space      int // 0 RGB 1 gray 2 XYB 3 unknown
	White      int // 1 D65 2 custom 10 E 11 DCI
	WhiteXY    XY
	Prim       int // 1 sRGB 2 custom 9 2100 11 P3
	PrimXY     [3]XY
	HaveGamma  bool
	Gamma      uint32
	TF         int
	Intent     int
}

func (c *ColourEnc) write(w *BW, pick func(int) int) {
	w.Bool(c.AllDefault)
	if c.AllDefault {
		return
	}
	w.Bool(c.ICC)
	w.Enum(uint32(c.Space))
	if c.ICC {
		return
	}
	if c.Space != 2 {
		w.Enum(uint32(c.White))
		if c.White == 2 {
			c.WhiteXY.write(w, pick)
		}
	}
	if c.Space != 2 && c.Space != 1 {
		w.Enum(uint32(c.Prim))
		if c.Prim == 2 {
			for _, p := range c.PrimXY {
				p.write(w, pick)
			}
		}
	}
	if c.Space != 2 { // otherwise implied
		w.Bool(c.HaveGamma)
		if c.HaveGamma {
			w.Bits(uint64(c.Gamma), 24)
		} else {
			w.Enum(uint32(c.TF))
		}
	}
	w.Enum(uint32(c.Intent))
}

// SRGB is the plain sRGB encoding written out in full.
func SRGB() ColourEnc { return ColourEnc{White: 1, Prim: 1, TF: 13, Intent: 1} }

// Tone is the tone mapping bundle.
type Tone struct {
	AllDefault                bool
	Intensity, MinNits, Below uint16 // half floats
	Relative                  bool
}

// Opsin is the opsin inverse matrix bundle (half floats).
type Opsin struct {
	Default bool
	M       [9]uint16
	Bias    [3]uint16
	QBias   [3]uint16
	QNum    uint16
}

// Ext is an extension payload of N bits.
type Ext struct {
	Idx  int
	N    int
	Data []byte
}

// GenExts draws extensions of a header.
func GenExts(t *pbt.T, max int) (out []Ext) {
	for i := 0; i < 64; i++ {
		if t.Chance(1, 16) {
			e := Ext{Idx: i, N: []int{0, t.N(8), t.N(64), t.N(max)}[t.N(4)]}
			for k := 0; k < e.N; k += 8 {
				e.Data = append(e.Data, byte(t.Bits(min(8, e.N-k))))
			}
			out = append(out, e)
		}
	}
	return
}

// Meta is the image header.
type Meta struct {
	W, H                        int
	SizeForm                    int // 0 auto explicit, 1 div8 when possible, ratio index used when Ratio>0
	Ratio                       int
	AllDefault                  bool
	ExtraFields                 bool
	Orient                      int
	HaveIntr                    bool
	IntrW                       int
	IntrH                       int
	HavePreview                 bool
	PrevW, PrevH                int
	PrevSmall, IntrSmall        bool
	PrevRatio, IntrRatio        int
	HaveAnim                    bool
	AnimNum, AnimDen, AnimLoops uint32
	AnimTC                      bool
	Depth                       BitDepth
	Mod16                       bool
	ECs                         []EC
	XYB                         bool
	Colour                      ColourEnc
	ToneM                       Tone
	Exts                        []Ext
	// transform data
	DefaultTransform bool
	OpsinM           Opsin
	Up2, Up4, Up8    []uint16
	ICCEnc           []byte // encoded ICC stream content (before entropy coding)
	ICCCode          func(w *BW)
	Pick             func(int) int
}

// DefaultMeta is a plain 8-bit sRGB non-XYB image.
func DefaultMeta(w, h int) *Meta {
	return &Meta{W: w, H: h, Orient: 1, Depth: BitDepth{false, 8, 0}, Mod16: true, Colour: SRGB(), ToneM: Tone{AllDefault: true}, DefaultTransform: true}
}

func (m *Meta) NumColour() int {
	if m.Colour.Space == 1 && !m.Colour.AllDefault {
		return 1
	}
	return 3
}

// FrameColours is the number of colour channels that frame f codes.
func (m *Meta) FrameColours(f *FHdr) int {
	if m.XYB || f.YCbCr {
		return 3
	}
	return m.NumColour()
}

var ratios = [8][2]int{{}, {1, 1}, {12, 10}, {4, 3}, {3, 2}, {16, 9}, {5, 4}, {2, 1}}

// RatioWidth gives the width implied by height h and a ratio code.
func RatioWidth(h, r int) int { return int(uint64(h) * uint64(ratios[r][0]) / uint64(ratios[r][1])) }

func writeSize(w *BW, x, y, ratio int, small bool, pick func(int) int) {
	if small && y%8 == 0 && y <= 256 && (ratio > 0 || x%8 == 0 && x <= 256) {
		w.Bool(true)
		w.Bits(uint64(y/8-1), 5)
		w.Bits(uint64(ratio), 3)
		if ratio == 0 {
			w.Bits(uint64(x/8-1), 5)
		}
		return
	}
	d := []U32d{{1, 9}, {1, 13}, {1, 18}, {1, 30}}
	w.Bool(false)
	w.U32(uint32(y), pick, d...)
	w.Bits(uint64(ratio), 3)
	if ratio == 0 {
		w.U32(uint32(x), pick, d...)
	}
}

func writeExts(w *BW, e []Ext) {
	key := uint64(0)
	for _, x := range e {
		key |= 1 << uint(x.Idx)
	}
	w.U64(key)
	for _, x := range e {
		w.U64(uint64(x.N))
	}
	for _, x := range e {
		for k, b := range x.Data {
			w.Bits(uint64(b), min(8, x.N-8*k))
		}
	}
}

func writeName(w *BW, s string, pick func(int) int) {
	w.U32(uint32(len(s)), pick, U32d{0, 0}, U32d{0, 4}, U32d{16, 5}, U32d{48, 10})
	for i := 0; i < len(s); i++ {
		w.Bits(uint64(s[i]), 8)
	}
}

// Write writes signature and image header, up to byte alignment.
func (m *Meta) Write(w *BW) {
	w.Bits(0x0aff, 16)
	writeSize(w, m.W, m.H, m.Ratio, m.SizeForm == 1, m.Pick)
	w.Bool(m.AllDefault)
	if !m.AllDefault {
		w.Bool(m.ExtraFields)
		if m.ExtraFields {
			w.Bits(uint64(m.Orient-1), 3)
			w.Bool(m.HaveIntr)
			if m.HaveIntr {
				writeSize(w, m.IntrW, m.IntrH, m.IntrRatio, m.IntrSmall, m.Pick)
			}
			w.Bool(m.HavePreview)
			if m.HavePreview {
				w.Bool(m.PrevSmall)
				d, k := []U32d{{1, 6}, {65, 8}, {321, 10}, {1345, 12}}, 1
				if m.PrevSmall {
					d, k = []U32d{{16, 0}, {32, 0}, {1, 5}, {33, 9}}, 8
				}
				w.U32(uint32(m.PrevH/k), m.Pick, d...)
				w.Bits(uint64(m.PrevRatio), 3)
				if m.PrevRatio == 0 {
					w.U32(uint32(m.PrevW/k), m.Pick, d...)
				}
			}
			w.Bool(m.HaveAnim)
			if m.HaveAnim {
				w.U32(m.AnimNum, m.Pick, U32d{100, 0}, U32d{1000, 0}, U32d{1, 10}, U32d{1, 30})
				w.U32(m.AnimDen, m.Pick, U32d{1, 0}, U32d{1001, 0}, U32d{1, 8}, U32d{1, 10})
				w.U32(m.AnimLoops, m.Pick, U32d{0, 0}, U32d{0, 3}, U32d{0, 16}, U32d{0, 32})
				w.Bool(m.AnimTC)
			}
		}
		m.Depth.write(w, m.Pick)
		w.Bool(m.Mod16)
		w.U32(uint32(len(m.ECs)), m.Pick, U32d{0, 0}, U32d{1, 0}, U32d{2, 4}, U32d{1, 12})
		for _, e := range m.ECs {
			w.Bool(e.Default)
			if e.Default {
				continue
			}
			w.Enum(uint32(e.Type))
			e.Depth.write(w, m.Pick)
			w.U32(uint32(e.Shift), m.Pick, U32d{0, 0}, U32d{3, 0}, U32d{4, 0}, U32d{1, 3})
			writeName(w, e.Name, m.Pick)
			if e.Type == ECAlpha {
				w.Bool(e.Assoc)
			}
			if e.Type == ECSpot {
				for _, h := range e.Spot {
					w.F16(h)
				}
			}
			if e.Type == ECCFA {
				w.U32(uint32(e.CFA), m.Pick, U32d{1, 0}, U32d{0, 2}, U32d{3, 4}, U32d{19, 8})
			}
		}
		w.Bool(m.XYB)
		m.Colour.write(w, m.Pick)
		if m.ExtraFields {
			w.Bool(m.ToneM.AllDefault)
			if !m.ToneM.AllDefault {
				w.F16(m.ToneM.Intensity)
				w.F16(m.ToneM.MinNits)
				w.Bool(m.ToneM.Relative)
				w.F16(m.ToneM.Below)
			}
		}
		writeExts(w, m.Exts)
	}
	w.Bool(m.DefaultTransform)
	if !m.DefaultTransform {
		if m.XYB || m.AllDefault {
			w.Bool(m.OpsinM.Default)
			if !m.OpsinM.Default {
				for _, h := range m.OpsinM.M {
					w.F16(h)
				}
				for _, h := range m.OpsinM.Bias {
					w.F16(h)
				}
				for _, h := range m.OpsinM.QBias {
					w.F16(h)
				}
				w.F16(m.OpsinM.QNum)
			}
		}
		mask := 0
		if m.Up2 != nil {
			mask |= 1
		}
		if m.Up4 != nil {
			mask |= 2
		}
		if m.Up8 != nil {
			mask |= 4
		}
		w.Bits(uint64(mask), 3)
		for _, a := range [][]uint16{m.Up2, m.Up4, m.Up8} {
			for _, h := range a {
				w.F16(h)
			}
		}
	}
	if m.Colour.ICC && !m.Colour.AllDefault {
		m.ICCCode(w)
	}
	w.Align()
}

// Frame types and blend modes.
const (
	FRegular = 0
	FLF      = 1
	FRef     = 2
	FSkip    = 3

	BReplace = 0
	BAdd     = 1
	BBlend   = 2
	BMulAdd  = 3
	BMul     = 4
)

// Blend info.
type Blend struct {
	Mode   int
	Alpha  int
	Clamp  bool
	Source int
}

// LoopF are the restoration filter parameters.
type LoopF struct {
	AllDefault                          bool
	Gab                                 bool
	GabCustom                           bool
	GabW                                [6]uint16
	EPF                                 int
	SharpCustom                         bool
	Sharp                               [8]uint16
	WeightCustom                        bool
	ChanScale                           [3]uint16
	ZF                                  [2]uint16
	SigmaCustom                         bool
	QuantMul, Pass0, Pass2, Border, Mod uint16
	Exts                                []Ext
}

// FHdr is a frame header.
type FHdr struct {
	AllDefault bool
	Type       int
	Modular    bool
	Flags      uint64
	YCbCr      bool
	JpegUps    [3]int
	Ups        int // log2
	ECUps      []int
	GroupShift int
	XQM, BQM   int
	Passes     int
	Shifts     []int
	DS         []int // log2 downsample
	LastPass   []int
	LFLevel    int
	Crop       bool
	X0, Y0     int
	W, H       int // frame size before upsampling division (crop size or image size)
	Bl         Blend
	ECBl       []Blend
	Duration   uint32
	Timecode   uint32
	Last       bool
	SaveRef    int
	SaveBefore bool
	Name       string
	LF         LoopF
	Exts       []Ext
	Pick       func(int) int
}

// NewFHdr is a lossless modular, last, full frame.
func NewFHdr(m *Meta) *FHdr {
	return &FHdr{Modular: true, Passes: 1, W: m.W, H: m.H, Last: true, GroupShift: 1, XQM: 3, BQM: 2, ECUps: make([]int, len(m.ECs)), ECBl: make([]Blend, len(m.ECs))}
}

func (f *FHdr) FullFrame(m *Meta) bool {
	if !f.Crop {
		return true
	}
	return f.X0 <= 0 && f.Y0 <= 0 && f.X0+f.W >= m.W && f.Y0+f.H >= m.H
}

func (b Blend) write(w *BW, nec int, full bool, pick func(int) int) {
	w.U32(uint32(b.Mode), nil, U32d{0, 0}, U32d{1, 0}, U32d{2, 0}, U32d{3, 2})
	if nec > 0 && (b.Mode == BBlend || b.Mode == BMulAdd) {
		w.U32(uint32(b.Alpha), pick, U32d{0, 0}, U32d{1, 0}, U32d{2, 0}, U32d{3, 3})
	}
	if nec > 0 && (b.Mode == BBlend || b.Mode == BMulAdd) || b.Mode == BMul {
		w.Bool(b.Clamp)
	}
	if b.Mode != BReplace || !full {
		w.Bits(uint64(b.Source), 2)
	}
}

func (f *FHdr) normal() bool { return f.Type == FRegular || f.Type == FSkip }

// Write writes the frame header (unaligned end).
func (f *FHdr) Write(w *BW, m *Meta) {
	w.Bool(f.AllDefault)
	if f.AllDefault {
		return
	}
	w.Bits(uint64(f.Type), 2)
	w.Bool(f.Modular)
	w.U64(f.Flags)
	if !m.XYB {
		w.Bool(f.YCbCr)
	}
	useLF := f.Flags&32 != 0
	if f.YCbCr && !useLF {
		for _, j := range f.JpegUps {
			w.Bits(uint64(j), 2)
		}
	}
	if !useLF {
		w.Bits(uint64(f.Ups), 2)
		for _, u := range f.ECUps {
			w.Bits(uint64(u), 2)
		}
	}
	if f.Modular {
		w.Bits(uint64(f.GroupShift), 2)
	} else if m.XYB {
		w.Bits(uint64(f.XQM), 3)
		w.Bits(uint64(f.BQM), 3)
	}
	if f.Type != FRef {
		w.U32(uint32(f.Passes), f.Pick, U32d{1, 0}, U32d{2, 0}, U32d{3, 0}, U32d{4, 3})
		if f.Passes != 1 {
			w.U32(uint32(len(f.DS)), f.Pick, U32d{0, 0}, U32d{1, 0}, U32d{2, 0}, U32d{3, 1})
			for i := 0; i < f.Passes-1; i++ {
				w.Bits(uint64(f.Shifts[i]), 2)
			}
			for _, d := range f.DS {
				w.Bits(uint64(d), 2)
			}
			for _, l := range f.LastPass {
				w.U32(uint32(l), f.Pick, U32d{0, 0}, U32d{1, 0}, U32d{2, 0}, U32d{0, 3})
			}
		}
	}
	if f.Type == FLF {
		w.Bits(uint64(f.LFLevel-1), 2)
	} else {
		w.Bool(f.Crop)
		if f.Crop {
			d := []U32d{{0, 8}, {256, 11}, {2304, 14}, {18688, 30}}
			if f.normal() {
				w.U32(PackSigned(int64(f.X0)), f.Pick, d...)
				w.U32(PackSigned(int64(f.Y0)), f.Pick, d...)
			}
			w.U32(uint32(f.W), f.Pick, d...)
			w.U32(uint32(f.H), f.Pick, d...)
		}
	}
	full := f.FullFrame(m)
	if f.normal() {
		f.Bl.write(w, len(m.ECs), full, f.Pick)
		for _, b := range f.ECBl {
			b.write(w, len(m.ECs), full, f.Pick)
		}
		if m.HaveAnim {
			w.U32(f.Duration, nil, U32d{0, 0}, U32d{1, 0}, U32d{0, 8}, U32d{0, 32})
			if m.AnimTC {
				w.Bits(uint64(f.Timecode), 32)
			}
		}
		w.Bool(f.Last)
	}
	if f.Type != FLF && !f.isLast() {
		w.Bits(uint64(f.SaveRef), 2)
	}
	if f.Type == FRef || f.normal() && !f.isLast() && (f.Duration == 0 || f.SaveRef != 0) && f.Bl.Mode == BReplace && full {
		w.Bool(f.SaveBefore)
	}
	writeName(w, f.Name, f.Pick)
	l := &f.LF
	w.Bool(l.AllDefault)
	if !l.AllDefault {
		w.Bool(l.Gab)
		if l.Gab {
			w.Bool(l.GabCustom)
			if l.GabCustom {
				for _, h := range l.GabW {
					w.F16(h)
				}
			}
		}
		w.Bits(uint64(l.EPF), 2)
		if l.EPF > 0 {
			if !f.Modular {
				w.Bool(l.SharpCustom)
				if l.SharpCustom {
					for _, h := range l.Sharp {
						w.F16(h)
					}
				}
			}
			w.Bool(l.WeightCustom)
			if l.WeightCustom {
				for _, h := range l.ChanScale {
					w.F16(h)
				}
				w.F16(l.ZF[0])
				w.F16(l.ZF[1])
			}
			w.Bool(l.SigmaCustom)
			if l.SigmaCustom {
				if !f.Modular {
					w.F16(l.QuantMul)
				}
				w.F16(l.Pass0)
				w.F16(l.Pass2)
				w.F16(l.Border)
			}
			if f.Modular {
				w.F16(l.Mod)
			}
		}
		writeExts(w, l.Exts)
	}
	writeExts(w, f.Exts)
}

func (f *FHdr) isLast() bool {
	if f.AllDefault {
		return true
	}
	return f.normal() && f.Last
}

// Dim are derived frame dimensions.
type Dim struct {
	W, H             int // coded size (after upsampling division)
	GroupDim, LFDim  int
	GX, GY, LX, LY   int
	Groups, LFGroups int
	Sections         int
}

func CeilDiv(a, b int) int { return (a + b - 1) / b }

func (f *FHdr) Dims() Dim {
	var d Dim
	d.W, d.H = CeilDiv(f.W, 1<<uint(f.Ups)), CeilDiv(f.H, 1<<uint(f.Ups))
	d.W, d.H = CeilDiv(d.W, 1<<uint(3*f.LFLevel)), CeilDiv(d.H, 1<<uint(3*f.LFLevel))
	gs := f.GroupShift
	if !f.Modular {
		gs = 1
	}
	d.GroupDim = 128 << uint(gs)
	d.LFDim = d.GroupDim * 8
	d.GX, d.GY = CeilDiv(d.W, d.GroupDim), CeilDiv(d.H, d.GroupDim)
	d.LX, d.LY = CeilDiv(d.W, d.LFDim), CeilDiv(d.H, d.LFDim)
	d.Groups, d.LFGroups = d.GX*d.GY, d.LX*d.LY
	if d.Groups == 1 && f.Passes == 1 {
		d.Sections = 1
	} else {
		d.Sections = 2 + d.LFGroups + f.Passes*d.Groups
	}
	return d
}

// WriteTOC writes the table of contents; perm[i] is the logical section at
// physical position i (nil: identity).  It leaves the writer byte aligned.
func WriteTOC(w *BW, sizes []int, perm []int, permCode func(w *BW, lehmer []uint32)) {
	w.Bool(perm != nil)
	if perm != nil {
		permCode(w, nil)
	}
	w.Align()
	for _, s := range sizes {
		w.U32(uint32(s), nil, U32d{0, 10}, U32d{1024, 14}, U32d{17408, 22}, U32d{4211712, 30})
	}
	w.Align()
}
