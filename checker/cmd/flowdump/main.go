// Command flowdump prints the paths of one host function (for development).
package main

import (
	"fmt"
	"os"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
	"zkcheck/internal/load"
)

func main() {
	repo := "/repo"
	if len(os.Args) > 3 {
		repo = os.Args[3]
	}
	p, err := load.Load(repo)
	if err != nil {
		panic(err)
	}
	f := ai.FindFunc(p, os.Args[1], os.Args[2])
	e := flow.New(p)
	for i, pa := range e.Explore(f) {
		fmt.Printf("--- path %d %s %s %s\n", i, pa.Kind, p.Pos(pa.Pos), pa.Note)
		for _, d := range pa.Decisions(p) {
			fmt.Println("   ?", d)
		}
		for _, ev := range pa.Events {
			fmt.Println("   !", ev.Kind, ev.Name, ev.Args, ev.Deref, "->", ev.Results)
		}
		for _, r := range pa.Results {
			fmt.Println("   =>", r)
		}
	}
}
