// agv decides properties of the repository from its source.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	"agverif/checks"
)

func main() {
	verif, repo := os.Getenv("AGV_VERIF"), os.Getenv("AGV_REPO")
	if verif == "" {
		verif = "/verif"
	}
	if repo == "" {
		repo = "/repo"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		fmt.Println("usage: agv all | <property>...")
		os.Exit(2)
	}
	os.Exit(checks.Main(verif, repo, tier, seed, ids))
}
