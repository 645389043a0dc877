package main

import (
	"os"

	"schemaverif/checks"
	"schemaverif/fw"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-limited" {
		checks.Limited(os.Args[2:])
	}
	if len(os.Args) > 2 && os.Args[1] == "-cold" {
		checks.Cold(os.Args[2:])
	}
	fw.Main()
}
