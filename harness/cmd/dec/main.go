// dec decodes files and prints a summary (development aid).
package main

import (
	"bytes"
	"fmt"
	"os"
	"time"

	"github.com/kpfaulkner/jxl-go/core"
)

func main() {
	for _, f := range os.Args[1:] {
		b, _ := os.ReadFile(f)
		func() {
			defer func() {
				if os.Getenv("RAW") != "" {
					return
				}
				if r := recover(); r != nil {
					fmt.Println(f, "PANIC", r)
				}
			}()
			t0 := time.Now()
			img, err := core.NewJXLDecoder(bytes.NewReader(b), nil).Decode()
			d := time.Since(t0).Round(time.Millisecond)
			if err != nil || img == nil {
				fmt.Println(f, "error:", err, d)
				return
			}
			fmt.Println(f, len(b), img.Width, img.Height, len(img.Buffer), img.Buffer[0].IsInt(), d)
		}()
	}
}
