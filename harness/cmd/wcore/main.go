package main

import (
	"verif/pbt"
	"verif/props"
)

func main() { pbt.WorkerMain(props.Props) }
