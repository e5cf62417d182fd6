package main

// atomsOf are the applications and variables of a term.
func (c *Ctx) atomsOf(t *Term) []int {
	if r, ok := c.atomMemo[t.id]; ok {
		return r
	}
	var out []int
	seen := map[int]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case OpVar, OpApp, OpStrC:
			out = append(out, t.id)
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	if c.atomMemo == nil {
		c.atomMemo = map[int][]int{}
	}
	c.atomMemo[t.id] = out
	return out
}

// near are the facts that are connected with the goal by terms that few facts mention.
func (E *Exec) near(facts []*Term, goals []*Term, hops int) []*Term {
	c := E.C
	if len(facts) < 30 {
		return facts
	}
	freq := map[int]int{}
	for _, f := range facts {
		for _, a := range c.atomsOf(f) {
			freq[a]++
		}
	}
	limit := len(facts)/8 + 4
	inGoal := map[int]bool{}
	front := map[int]bool{}
	for _, g := range goals {
		for _, a := range c.atomsOf(g) {
			inGoal[a] = true
			if freq[a] <= limit {
				front[a] = true
			}
		}
	}
	taken := make([]bool, len(facts))
	for h := 0; h < hops; h++ {
		next := map[int]bool{}
		any := false
		for i, f := range facts {
			if taken[i] {
				continue
			}
			hit := false
			all := true
			as := c.atomsOf(f)
			for _, a := range as {
				if front[a] {
					hit = true
				}
				if !inGoal[a] {
					all = false
				}
			}
			if !hit && !(all && len(as) > 0) {
				continue
			}
			taken[i] = true
			any = true
			for _, a := range as {
				if freq[a] <= limit {
					next[a] = true
				}
			}
		}
		if !any {
			break
		}
		for a := range next {
			front[a] = true
		}
	}
	var out []*Term
	for i, f := range facts {
		if taken[i] {
			out = append(out, f)
		}
	}
	return out
}
