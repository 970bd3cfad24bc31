// kill runs a share of the quick cases of some properties in process and stops at the first failure
// (development aid for mutation runs): kill SHARE ID,ID,...
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif/meta"
	"verif/pbt"
	"verif/props"
	"verif/unit"
)

func main() {
	share, _ := strconv.ParseFloat(os.Args[1], 64)
	for _, id := range strings.Split(os.Args[2], ",") {
		f := props.Props[id]
		if f == nil {
			f = unit.Props[id]
		}
		n := int(float64(meta.Props[id].Quick) * share)
		for i := 0; i < n; i++ {
			r := pbt.Run(pbt.New(id, 1, uint64(i)), f)
			if st := fmt.Sprint(r.Status); st != "pass" && st != "discard" && r.Known == "" {
				fmt.Printf("KILLED %s case %d %s %.200s\n", id, i, st, strings.ReplaceAll(r.Msg, "\n", " "))
				if os.Getenv("GOON") == "" {
					os.Exit(1)
				}
			}
		}
	}
	fmt.Println("SURVIVED")
}
