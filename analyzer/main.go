package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	pr := flag.String("prop", "", "property id, or a comma-separated list, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	dir := flag.String("out", "/verif", "directory whose evidence/ is written")
	flag.Parse()
	if flag.NArg() > 0 || *pr == "" {
		os.Args = append(os.Args[:1], flag.Args()...)
		debugMain()
		return
	}
	var ids []string
	if *pr == "all" {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*pr, ",")
	}
	rc := 0
	var shared *World
	for _, id := range ids {
		f := props[id]
		if f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		c := &Check{prop: id, tier: *tier, seen: map[string]bool{}, cov: map[string]any{}, counts: map[string]int{}, start: time.Now()}
		if shared != nil {
			c.world, c.prog = shared, shared.prog
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("SVB_DEBUG") != "" {
						panic(x)
					}
					c.fail("undecided", "analysis", "?", fmt.Sprint("analysis failure: ", x))
				}
			}()
			f(c)
		}()
		shared = c.world
		if r := c.finish(*dir); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}
