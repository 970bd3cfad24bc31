package main

import (
	"verif/pbt"
	"verif/unit"
)

func main() { pbt.WorkerMain(unit.Props) }
