package main

import (
	"verifharness/bidi"
	"verifharness/run"
)

func main() { run.Main(bidi.B01(), bidi.B02(), bidi.B03(), bidi.B04()) }
