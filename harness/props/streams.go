package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sync"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/pbt"
)

func init() {
	reg("C06", c06)
	reg("C09", c09)
	reg("C10", c10)
	reg("C12", c12)
}

// sameImage tells how two images differ ("" if they do not).
func sameImage(a, b *core.JXLImage) string {
	if (a == nil) != (b == nil) {
		return "one image is missing"
	}
	if a == nil {
		return ""
	}
	if a.Width != b.Width || a.Height != b.Height {
		return fmt.Sprintf("size %dx%d and %dx%d", a.Width, a.Height, b.Width, b.Height)
	}
	if a.ColorEncoding != b.ColorEncoding || a.HasAlpha() != b.HasAlpha() || a.NumExtraChannels() != b.NumExtraChannels() || a.HasICCProfile() != b.HasICCProfile() {
		return "different properties"
	}
	if len(a.Buffer) != len(b.Buffer) {
		return fmt.Sprintf("%d and %d channels", len(a.Buffer), len(b.Buffer))
	}
	for c := range a.Buffer {
		p, q := a.Buffer[c], b.Buffer[c]
		if p.IsInt() != q.IsInt() {
			return fmt.Sprintf("channel %d: integer and float", c)
		}
		pw, ph := dims(p)
		qw, qh := dims(q)
		if pw != qw || ph != qh {
			return fmt.Sprintf("channel %d: %dx%d and %dx%d", c, pw, ph, qw, qh)
		}
		for y := 0; y < ph; y++ {
			for x := 0; x < pw; x++ {
				if p.IsInt() {
					if p.IntBuffer[y][x] != q.IntBuffer[y][x] {
						return fmt.Sprintf("channel %d (%d,%d): %d and %d", c, x, y, p.IntBuffer[y][x], q.IntBuffer[y][x])
					}
				} else if math.Float32bits(p.FloatBuffer[y][x]) != math.Float32bits(q.FloatBuffer[y][x]) {
					return fmt.Sprintf("channel %d (%d,%d): %v and %v", c, x, y, p.FloatBuffer[y][x], q.FloatBuffer[y][x])
				}
			}
		}
	}
	return ""
}

var sigBox = []byte{0, 0, 0, 12, 'J', 'X', 'L', ' ', 13, 10, 0x87, 10}

// box writes one box; form: 0 32-bit size, 1 64-bit size, 2 to the end.
func box(out []byte, typ string, payload []byte, form int) []byte {
	switch form {
	case 1:
		out = append(out, 0, 0, 0, 1)
		out = append(out, typ...)
		out = binary.BigEndian.AppendUint64(out, uint64(len(payload)+16))
	case 2:
		out = append(out, 0, 0, 0, 0)
		out = append(out, typ...)
	default:
		out = binary.BigEndian.AppendUint32(out, uint32(len(payload)+8))
		out = append(out, typ...)
	}
	return append(out, payload...)
}

// wrap puts a codestream into a drawn container.
func wrap(t *pbt.T, cs []byte) []byte {
	out := append([]byte(nil), sigBox...)
	form := func() int { return t.W(4, 1) }
	extra := func() {
		for n := t.W(4, 2, 1); n > 0; n-- {
			typ := []string{"Exif", "xml ", "jumb", "brob", "jbrd", "jxli", "abcd", "free", "JXL "}[t.N(9)]
			p := make([]byte, t.Size(0, 60))
			r := t.RNG()
			for i := range p {
				p[i] = byte(r.Next())
			}
			if len(p) == 0 {
				t.Label("empty-box")
			}
			out = box(out, typ, p, form())
			t.Label("extra-box")
		}
	}
	if !t.Chance(1, 6) {
		out = box(out, "ftyp", []byte("jxl \x00\x00\x00\x00jxl "), form())
	}
	extra()
	if t.Chance(1, 3) {
		out = box(out, "jxll", []byte{[]byte{5, 10}[t.N(2)]}, form())
		t.Label("level")
	}
	extra()
	last := func() int {
		if t.Chance(1, 3) {
			t.Label("to-end-of-file")
			return 2
		}
		return form()
	}
	if t.Chance(1, 3) {
		f := last()
		out = box(out, "jxlc", cs, f)
		t.Label("jxlc")
		if f == 2 {
			return out
		}
		extra()
		return out
	}
	parts := t.Range(1, 5)
	t.Label("jxlp")
	pos := 0
	for i := 0; i < parts; i++ {
		n := len(cs) - pos
		if i < parts-1 {
			switch t.W(2, 1, 1) {
			case 0:
				n = t.N(n + 1)
			case 1:
				n = min(n, t.N(12))
			case 2:
				n = 0
			}
		}
		idx := uint32(i)
		f := form()
		if i == parts-1 {
			idx |= 1 << 31
			f = last()
		}
		p := binary.BigEndian.AppendUint32(nil, idx)
		p = append(p, cs[pos:pos+n]...)
		pos += n
		out = box(out, "jxlp", p, f)
		if f == 2 {
			return out
		}
		extra()
	}
	return out
}

// c06: the container does not change the image.
func c06(t *pbt.T) {
	s := anyStream(t, 48)
	if bytes.HasPrefix(s.data, sigBox) {
		t.Discard("already in a container")
	}
	ref, err := Decode(s.data)
	if err != nil {
		t.Failf("decoding a valid codestream failed: %v", err)
	}
	data := wrap(t, s.data)
	t.Attach("image.jxl", data)
	t.Attach("codestream.jxl", s.data)
	sig(t, data)
	t.Logf("codestream of %d bytes (%s) in a container of %d bytes", len(s.data), s.what, len(data))
	t.NonTrivial()
	img, err := Decode(data)
	if err != nil {
		t.Failf("a valid container failed to decode: %v", err)
	}
	if d := sameImage(ref, img); d != "" {
		t.Failf("the image in the container differs from the bare codestream: %s", d)
	}
	h0, err := core.NewJXLDecoder(bytes.NewReader(s.data), nil).GetImageHeader()
	if err != nil {
		t.Failf("reading the header of a valid codestream failed: %v", err)
	}
	h1, err := core.NewJXLDecoder(bytes.NewReader(data), nil).GetImageHeader()
	if err != nil || h1 == nil {
		t.Failf("reading the header of a valid container failed: %v", err)
	}
	if h0.GetSize() != h1.GetSize() || h0.Orientation != h1.Orientation || h0.GetColourModel() != h1.GetColourModel() || len(h0.ExtraChannelInfo) != len(h1.ExtraChannelInfo) || h0.BitDepth.BitsPerSample != h1.BitDepth.BitsPerSample {
		t.Failf("the header in the container differs from the bare codestream's")
	}
}

// c09: the result does not depend on the number of goroutines, on what was
// decoded before, or on what is decoded at the same time.
func c09(t *pbt.T) {
	n := t.Range(1, 3)
	var ss []stream
	var refs []*core.JXLImage
	for i := 0; i < n; i++ {
		max := 40
		if t.Chance(1, 2) {
			max = 400
		}
		s := stream{}
		if t.Chance(1, 4) {
			s = varStream(t, min(max, 300))
		} else if t.Chance(1, 10) {
			s = anyStream(t, max)
		} else {
			s = genStream(t, max)
		}
		g := []int{1, 2, 8}[t.N(3)]
		img, err := DecodeWith(s.data, g)
		if err != nil {
			t.Failf("decoding a valid image failed: %v", err)
		}
		t.Attach(fmt.Sprintf("image%d.jxl", i), s.data)
		sig(t, s.data)
		t.Logf("image %d: %dx%d %s, first with %d goroutines;", i, img.Width, img.Height, s.what, g)
		ss, refs = append(ss, s), append(refs, img)
		if img.Width > 128 || img.Height > 128 {
			t.NonTrivial()
			t.Label("several-groups")
		}
	}
	for i, s := range ss {
		for k := 0; k < 2; k++ {
			g := []int{1, 2, 3, 4, 8, 64, 0}[t.N(7)]
			img, err := DecodeWith(s.data, g)
			if err != nil {
				t.Failf("image %d decoded once, and fails with %d goroutines: %v", i, g, err)
			}
			if d := sameImage(refs[i], img); d != "" {
				t.Failf("image %d differs with %d goroutines: %s", i, g, d)
			}
		}
	}
	// the same decoder once more
	if t.Chance(1, 3) {
		t.Label("decoder-reused")
		d := core.NewJXLDecoder(bytes.NewReader(ss[0].data), nil)
		if t.Bool() {
			if _, err := d.GetImageHeader(); err != nil {
				t.Failf("reading the header: %v", err)
			}
		}
		for k := 0; k < 2; k++ {
			img, err := d.Decode()
			if err != nil {
				t.Failf("decoding with a decoder used before: %v", err)
			}
			if df := sameImage(refs[0], img); df != "" {
				t.Failf("decoding with a decoder used before differs: %s", df)
			}
		}
	}
	// all at once, and some twice
	var wg sync.WaitGroup
	var mu sync.Mutex
	msg := ""
	gs := []int{1, 2, 4, 8}[t.N(4)]
	for rep := 0; rep < 2; rep++ {
		for i := range ss {
			wg.Add(1)
			go func() {
				defer wg.Done()
				img, err := DecodeWith(ss[i].data, gs)
				d := ""
				if err != nil {
					d = err.Error()
				} else {
					d = sameImage(refs[i], img)
				}
				if d != "" {
					mu.Lock()
					msg = fmt.Sprintf("image %d decoded at the same time as others: %s", i, d)
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	if msg != "" {
		t.Failf("%s", msg)
	}
	// the first results were not disturbed by what came later
	for i := range refs {
		img, err := DecodeWith(ss[i].data, 2)
		if err != nil {
			t.Failf("image %d fails at the end: %v", i, err)
		}
		if d := sameImage(refs[i], img); d != "" {
			t.Failf("image %d changed while others were decoded, or decodes differently now: %s", i, d)
		}
	}
}

// chunky is a reader that splits reads, and can fail.
type chunky struct {
	b       []byte
	pos     int64
	r       *pbt.RNG
	max     int  // largest piece
	eofWith bool // the last bytes come together with io.EOF
	failAt  int64
	failed  bool
}

var errBroken = errors.New("broken stream")

func (c *chunky) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos >= int64(len(c.b)) {
		return 0, io.EOF
	}
	n := len(p)
	if c.max > 0 {
		n = min(n, 1+c.r.N(c.max))
	}
	n = min(n, len(c.b)-int(c.pos))
	if c.failAt >= 0 && c.pos+int64(n) > c.failAt {
		n = int(max(0, c.failAt-c.pos))
		if n == 0 {
			c.failed = true
			return 0, errBroken
		}
	}
	copy(p[:n], c.b[c.pos:])
	c.pos += int64(n)
	if c.eofWith && c.pos == int64(len(c.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (c *chunky) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += c.pos
	case io.SeekEnd:
		off += int64(len(c.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	c.pos = off
	return off, nil
}

// c10: how the reader delivers the bytes does not matter, and its errors are
// reported.
func c10(t *pbt.T) {
	s := anyStream(t, 40)
	data := s.data
	if t.Chance(1, 3) && !bytes.HasPrefix(data, sigBox) {
		data = wrap(t, data)
	}
	if t.Chance(1, 5) {
		data = data[:t.N(len(data))]
		t.Label("truncated")
	}
	t.Attach("image.jxl", data)
	sig(t, data)
	ref, rerr := Decode(data)
	r := &chunky{b: data, r: t.RNG(), max: []int{1, 2, 3, 7, 64, 1000, 0}[t.N(7)], eofWith: t.Bool(), failAt: -1}
	fail := t.Chance(1, 3)
	if fail {
		r.failAt = int64(t.N(len(data) + 1))
	}
	t.Logf("%d bytes (%s), pieces of at most %d, last piece with EOF %v, breaks at %d", len(data), s.what, r.max, r.eofWith, r.failAt)
	o := options.NewJXLOptions(nil)
	img, err := core.NewJXLDecoder(r, o).Decode()
	t.NonTrivial()
	if r.failed {
		t.Label("broken")
		if err == nil {
			t.Failf("the reader failed at byte %d, and the decoder reports no error", r.failAt)
		}
		return
	}
	if (err == nil) != (rerr == nil) {
		t.Failf("decoding gives error %v from memory and error %v from the reader", rerr, err)
	}
	if err != nil {
		return
	}
	if d := sameImage(ref, img); d != "" {
		t.Failf("the image differs from that decoded from memory: %s", d)
	}
}

// c12: a truncated file is an error, and bytes after the image do not matter.
func c12(t *pbt.T) {
	s := anyStream(t, 32)
	data := s.data
	cont := t.Chance(1, 3) && !bytes.HasPrefix(data, sigBox)
	if cont {
		data = wrap(t, data)
		t.Label("container")
	}
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("%d bytes (%s)", len(data), s.what)
	ref, err := Decode(data)
	if err != nil {
		t.Failf("decoding a valid image failed: %v", err)
	}
	t.NonTrivial()
	check := func(n int) {
		img, err := Decode(data[:n])
		if err == nil && img == nil {
			t.Failf("the first %d of %d bytes give neither an image nor an error", n, len(data))
		}
		if err != nil {
			return
		}
		if d := sameImage(ref, img); d != "" {
			t.Attach("truncated.jxl", data[:n])
			t.Failf("the first %d of %d bytes decode to another image: %s", n, len(data), d)
		}
		if n < len(data) {
			t.Label("complete-early")
		}
	}
	k := 12
	if t.Thorough {
		k = 60
	}
	if len(data) <= 40 {
		for n := 0; n < len(data); n++ {
			check(n)
		}
		t.Eval(len(data))
	} else {
		r := t.RNG()
		for i := 0; i < k; i++ {
			switch r.N(3) {
			case 0:
				check(r.N(len(data)))
			case 1:
				check(r.N(min(len(data), 40)))
			case 2:
				check(len(data) - 1 - r.N(min(len(data)-1, 10)))
			}
		}
		t.Eval(k)
	}
	if !cont && !bytes.HasPrefix(data, sigBox) {
		more := append([]byte(nil), data...)
		r := t.RNG()
		for n := r.N(200) + 1; n > 0; n-- {
			more = append(more, byte(r.Next()))
		}
		img, err := Decode(more)
		if err != nil {
			t.Failf("bytes after the image make it fail: %v", err)
		}
		if d := sameImage(ref, img); d != "" {
			t.Failf("bytes after the image change it: %s", d)
		}
	}
}
