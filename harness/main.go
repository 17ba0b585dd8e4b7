package main

import (
	"fmt"
	"os"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness check ID | worker ... | replay FILE")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "worker":
		workerMain(os.Args[2:])
	case "limited":
		os.Exit(limitedMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	}
	os.Exit(3)
}
