package main

import (
	"verif/mc"
	"verif/props"
)

func main() { mc.Main(props.All) }
