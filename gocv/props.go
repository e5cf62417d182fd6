package main

import (
	"encoding/json"
	"os"
)

// Prop says which obligations decide a property.
type Prop struct {
	ID      string   `json:"id"`
	Funcs   []string `json:"funcs"`  // patterns of the functions whose obligations it needs
	Tags    []string `json:"tags"`   // the obligations, besides the untagged ones
	Native  []string `json:"native"` // the comparisons of the replay program
	Assume  []string `json:"assume"`
	Bounded []string `json:"bounded"` // what is only compared natively
	Level   string   `json:"level"`
}

func loadProps(file string) (map[string]*Prop, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var ps []*Prop
	if err := json.Unmarshal(b, &ps); err != nil {
		return nil, err
	}
	m := map[string]*Prop{}
	for _, p := range ps {
		if p.Level == "" {
			p.Level = "proof"
		}
		m[p.ID] = p
	}
	return m, nil
}
