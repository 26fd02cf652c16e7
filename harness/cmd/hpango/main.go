package main

import (
	"verifharness/pg"
	"verifharness/run"
)

func main() { run.Main(pg.P01(), pg.P02(), pg.P03(), pg.P04(), pg.P05(), pg.P06(), pg.P08(), pg.P09(), pg.P10(), pg.P11(), pg.P12(), pg.P13(), pg.P14(), pg.P15(), pg.P16(), pg.P17(), pg.P19(), pg.P20(), pg.P21(), pg.P22()) }
