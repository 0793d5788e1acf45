package main

import (
	"os"

	"verif/checks"
	"verif/mc"
)

func main() {
	if len(os.Args) > 3 && os.Args[1] == "ops" {
		os.Exit(checks.Ops(os.Args[2:]))
	}
	os.Exit(mc.Main(checks.All, os.Args[1:]))
}
