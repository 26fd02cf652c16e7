package main

import (
	"os"

	"verifharness/fc"
	"verifharness/pg"
	"verifharness/run"
)

func main() {
	os.Setenv("LANG", "en_US.UTF-8")
	os.Unsetenv("LC_ALL")
	os.Unsetenv("LC_CTYPE")
	os.Unsetenv("FC_LANG")
	run.Main(fc.F15(), pg.P18())
}
