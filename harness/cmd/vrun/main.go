package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verifharness/checks"
	"verifharness/rt"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Uint64("seed", 1, "seed")
	child := flag.Bool("child", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	from := flag.Int("from", 0, "")
	out := flag.String("out", "", "")
	cs := flag.String("case", "", "run one case")
	verif := flag.String("verif", "/verif", "")
	list := flag.Bool("list", false, "")
	begin := flag.Int64("begin", 0, "")
	helper := flag.String("helper", "", "run a helper process")
	flag.Parse()
	if *helper != "" {
		checks.Helper(*helper, flag.Args())
		return
	}
	if s := os.Getenv("VERIF_SEED"); s != "" && !*child {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			*seed = v
		}
	}
	c := checks.All[*prop]
	if c == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *list {
		for _, x := range c.Cases(*tier, *seed) {
			fmt.Println(x.Name)
		}
		return
	}
	if *child {
		rt.ChildMain(c, *tier, *seed, *shard, *shards, *from, *out, *verif, *begin)
		return
	}
	if *cs != "" {
		os.Exit(rt.RunOne(c, *tier, *seed, *cs))
	}
	os.Exit(rt.ParentMain(c, *tier, *seed, *verif, ""))
}
