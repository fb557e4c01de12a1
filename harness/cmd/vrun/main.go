package main

import (
	"verif/harness/core"
	_ "verif/harness/props"
)

func main() { core.Main() }
