package main

import (
	"os"

	"verif.local/v/hx"
)

func main() {
	if len(os.Args) == 4 && os.Args[1] == "-roots" {
		printRoots(os.Args[2:])
		return
	}
	hx.Main()
}
