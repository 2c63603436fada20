package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vmon run PROPERTY VERIF_DIR [case] | vmon list")
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Quick, props[id].Deep)
		}
	case "run":
		if len(os.Args) < 4 || props[os.Args[2]] == nil {
			usage()
		}
		only := -1
		if len(os.Args) > 4 {
			only, err = strconv.Atoi(os.Args[4])
			if err != nil {
				usage()
			}
		}
		os.Exit(parentMain(props[os.Args[2]], tier, seed, os.Args[3], only))
	case "worker":
		s, _ := strconv.ParseInt(os.Args[4], 10, 64)
		workerMain(props[os.Args[2]], os.Args[3], s, os.Args[5])
	default:
		usage()
	}
}
