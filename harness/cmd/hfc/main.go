package main

import (
	"os"

	"verifharness/fc"
	"verifharness/run"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-default-lang" {
		fc.Default()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-locale-child" {
		fc.LocaleChild()
		return
	}
	// the default language of the process is part of the inputs: fix it
	os.Setenv("LANG", "en_US.UTF-8")
	os.Unsetenv("LC_ALL")
	os.Unsetenv("LC_CTYPE")
	os.Unsetenv("FC_LANG")
	run.Main(fc.F01(), fc.F02(), fc.F03(), fc.F04(), fc.F05(), fc.F06(), fc.F07(), fc.F08(), fc.F09(), fc.F10(), fc.F11(), fc.F12(), fc.F13(), fc.F14(), fc.F16())
}
