package props

import (
	"bytes"
	"runtime"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/pbt"
)

func init() { reg("C32", c32) }

// c32: a parse-only decode goes through all frames of a file and gives
// neither an image nor an error; options are taken as given.
func c32(t *pbt.T) {
	n := t.Range(0, 64)
	o := options.NewJXLOptions(&options.JXLOptions{MaxGoroutines: n, ParseOnly: true})
	want := n
	if n == 0 {
		want = runtime.GOMAXPROCS(-1)
	}
	if o.MaxGoroutines != want || !o.ParseOnly {
		t.Failf("options with %d goroutines, parse only become %d goroutines, parse only %v", n, o.MaxGoroutines, o.ParseOnly)
	}
	if p := options.NewJXLOptions(nil); p.ParseOnly || p.MaxGoroutines < 1 {
		t.Failf("default options are %+v", *p)
	}

	s := anyStream(t, 48)
	cs := s.data
	data := cs
	cont := bytes.HasPrefix(data, sigBox)
	if !cont && t.Chance(1, 3) {
		data, cont = wrap(t, data), true
		t.Label("container")
	}
	t.Attach("image.jxl", data)
	sig(t, data)
	t.Logf("%d bytes (%s), container %v", len(data), s.what, cont)
	t.NonTrivial()
	parse := func(data []byte, what string, valid bool) {
		for _, through := range []bool{false, true} {
			d := core.NewJXLDecoder(bytes.NewReader(data), o)
			if through {
				// a header query before does not matter
				if _, err := d.GetImageHeader(); err != nil && valid {
					t.Failf("reading the header of %s: %v", what, err)
				}
			}
			for i := 0; i < 2; i++ {
				img, err := d.Decode()
				if img != nil {
					t.Failf("parsing %s gives an image", what)
				}
				if valid && err != nil {
					t.Failf("parsing %s fails: %v", what, err)
				}
				if !valid && err == nil {
					t.Attach("truncated.jxl", data)
					t.Failf("parsing %s reports no error", what)
				}
			}
		}
	}
	parse(data, "a valid file", true)
	if !cont {
		// a part of it is always noticed
		r := t.RNG()
		for i := 0; i < 6; i++ {
			k := r.N(len(data))
			if i == 0 {
				k = len(data) - 1
			}
			parse(data[:k], "the beginning of a file", false)
		}
		t.Eval(6)
		more := append(append([]byte(nil), data...), make([]byte, 1+r.N(20))...)
		parse(more, "a file with bytes after it", true)
	}
}
