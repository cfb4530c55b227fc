// Command gaps lists the functions of the library that no check has looked at, going by the evidence files.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"agverif/checks"
)

func main() {
	repo, ev := os.Args[1], os.Args[2]
	w, err := checks.Load(repo)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(ev, "*.json"))
	for _, f := range files {
		var e struct {
			Coverage struct {
				Fns []string `json:"functions_analysed"`
			}
		}
		b, _ := os.ReadFile(f)
		if json.Unmarshal(b, &e) == nil {
			for _, n := range e.Coverage.Fns {
				if i := strings.IndexByte(n, '['); i > 0 {
					n = n[:i]
				}
				seen[n] = true
			}
		}
	}
	var out []string
	all := w.Functions()
	for _, n := range all {
		k := n
		if i := strings.IndexByte(n, '['); i > 0 {
			k = n[:i]
		}
		if !seen[k] {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	fmt.Printf("%d of %d\n", len(out), len(all))
	for _, n := range out {
		fmt.Println(n)
	}
}
