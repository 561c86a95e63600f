package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
)

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "directory of evidence and known findings")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if *list {
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	args := flag.Args()
	if len(args) == 1 && args[0] == "all" {
		args = ids
	}
	code := 0
	for _, id := range args {
		ck := checks[id]
		if ck == nil {
			fmt.Printf("no check for %s\nVIOLATION property=%s replay=none\n", id, id)
			code = 1
			continue
		}
		if r := runCheck(ck, *repo, *verif, tier, seed); r != 0 {
			code = 1
		}
	}
	os.Exit(code)
}
