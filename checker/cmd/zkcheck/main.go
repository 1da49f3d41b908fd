// Command zkcheck decides one property of zk-utils by static analysis.
package main

import (
	"runtime/pprof"

	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"zkcheck/internal/load"
	"zkcheck/internal/rules"
)

func main() {
	prop := flag.String("prop", "", "property ids, comma separated, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository to analyse")
	root := flag.String("root", "/verif", "where evidence is written")
	flag.Parse()
	if f := os.Getenv("ZKDBG_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(20 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
			h, _ := os.Create(f + ".heap")
			pprof.WriteHeapProfile(h)
			h.Close()
		}()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	var ids []string
	if *prop == "all" {
		for id := range rules.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	p, err := load.Load(*repo)
	code := 0
	for _, id := range ids {
		r := rules.All[id]
		if r == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		c := rules.NewCtx(p, id, *tier == "thorough")
		if err != nil {
			rp := filepath.Join(*root, "evidence", "replay", id+"-1.json")
			os.MkdirAll(filepath.Dir(rp), 0o755)
			os.WriteFile(rp, []byte(fmt.Sprintf("%q\n", err.Error())), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  the tree cannot be loaded: %v\n", id, rp, err)
			os.WriteFile(filepath.Join(*root, "evidence", id+".json"), []byte(fmt.Sprintf(`{"property":%q,"tier":%q,"seed":%d,"level":"other","coverage":{"explanation":"the tree could not be loaded"},"wall_s":%f}`, id, *tier, seed, time.Since(start).Seconds())), 0o644)
			code = 1
			continue
		}
		go c.Guard(*root, *tier, seed, start, r)
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail("analyser", "panic", fmt.Sprintf("%v\n%s", e, debug.Stack()))
				}
			}()
			r.Run(c)
		}()
		c.Finish()
		if k := c.Report(*root, *tier, seed, start, r); k > code {
			code = k
		}
		start = time.Now()
	}
	os.Exit(code)
}
