// one runs cases in process (development aid): one ID FIRST [LAST].
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/pbt"
	"verif/props"
	"verif/unit"
)

func main() {
	n, _ := strconv.Atoi(os.Args[2])
	f := props.Props[os.Args[1]]
	if f == nil {
		f = unit.Props[os.Args[1]]
	}
	if len(os.Args) < 4 {
		r := pbt.Run(pbt.New(os.Args[1], 1, uint64(n)), f)
		fmt.Println(r.Status, r.Msg, r.Sample)
		if d := os.Getenv("ATTACH"); d != "" { // write the attachments there
			for k, b := range r.Attach {
				os.WriteFile(d+"/"+k, b, 0o644)
			}
		}
		return
	}
	last, _ := strconv.Atoi(os.Args[3])
	count := map[string]int{}
	shown := 0
	for ; n <= last; n++ {
		r := pbt.Run(pbt.New(os.Args[1], 1, uint64(n)), f)
		st := fmt.Sprint(r.Status)
		count[st]++
		if st != "pass" && st != "discard" {
			if shown++; shown <= 20 {
				fmt.Printf("%d %s %.300s\n", n, st, r.Msg)
			}
		}
	}
	fmt.Println(count)
}
