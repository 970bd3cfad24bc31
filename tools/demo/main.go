// Decodes an image and compares every sample with the expected ones.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
)

func fail(f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

// samples gives the image as text-free bytes: size, channels, and every sample as a float.
func samples(b []byte) (out []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	img, err := core.NewJXLDecoder(bytes.NewReader(b), options.NewJXLOptions(nil)).Decode()
	if err != nil {
		return nil, err
	}
	if img == nil {
		return nil, fmt.Errorf("no image")
	}
	put := func(v uint32) { out = binary.LittleEndian.AppendUint32(out, v) }
	put(img.Width)
	put(img.Height)
	put(uint32(len(img.Buffer)))
	for _, c := range img.Buffer {
		for y := 0; y < int(c.Height); y++ {
			for x := 0; x < int(c.Width); x++ {
				v := float32(0)
				if c.IsInt() {
					v = float32(c.IntBuffer[y][x])
				} else {
					v = c.FloatBuffer[y][x]
				}
				put(math.Float32bits(v))
			}
		}
	}
	return out, nil
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fail("%v", err)
	}
	got, err := samples(b)
	if len(os.Args) > 3 && os.Args[3] == "-record" {
		if err != nil {
			got = []byte("error")
		}
		if err := os.WriteFile(os.Args[2], got, 0o644); err != nil {
			fail("%v", err)
		}
		return
	}
	want, werr := os.ReadFile(os.Args[2])
	if werr != nil {
		fail("%v", werr)
	}
	if string(want) == "error" {
		if err == nil {
			fail("a damaged image was decoded without an error")
		}
		return
	}
	if err != nil {
		fail("the image was not decoded: %v", err)
	}
	if len(got) != len(want) {
		fail("decoded %d bytes of samples, expected %d", len(got), len(want))
	}
	for i := 0; i < len(want); i += 4 {
		g := float64(math.Float32frombits(binary.LittleEndian.Uint32(got[i:])))
		w := float64(math.Float32frombits(binary.LittleEndian.Uint32(want[i:])))
		if i < 12 && g != w || math.Abs(g-w) > 1e-4*(1+math.Abs(w)) || math.IsNaN(g) != math.IsNaN(w) {
			fail("word %d of the image is %v, expected %v", i/4, g, w)
		}
	}
}
