package main

import (
	"encoding/json"
	"os"
	"sort"
)

// LoadHints reads the loop invariants that were found before. They are only candidates: each run proves them again.
func (P *Program) LoadHints(file string) {
	P.Hints = map[string]map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	var m map[string][]string
	if json.Unmarshal(b, &m) != nil {
		return
	}
	for k, l := range m {
		P.Hints[k] = map[string]bool{}
		for _, d := range l {
			P.Hints[k][d] = true
		}
	}
}

// SaveHints adds the invariants of verified functions to the file.
func (P *Program) SaveHints(file string, n map[string]map[string]bool) error {
	out := map[string][]string{}
	put := func(m map[string]map[string]bool) {
		for k, s := range m {
			var l []string
			for d := range s {
				l = append(l, d)
			}
			sort.Strings(l)
			out[k] = l
		}
	}
	put(P.Hints)
	put(n)
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}
