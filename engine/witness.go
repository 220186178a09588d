package main

// witness adds, for every existential of a goal that names a pattern, its
// instances for the terms of the state that match the pattern.
func witness(g *Term, st *State) *Term {
	if !hasExists(g) {
		return g
	}
	var ground []*Term
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		if len(t.fb) == 0 && len(t.args) > 0 {
			ground = append(ground, t)
		}
	}
	visit(g)
	for _, t := range st.heap {
		visit(t)
	}
	for _, f := range st.facts() {
		visit(f)
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		switch t.op {
		case "exists":
			if len(t.pats) == 0 || len(t.fb) > 0 {
				return t
			}
			or := []*Term{t}
			for _, p := range t.pats {
				if len(p) != 1 {
					continue
				}
				for _, c := range ground {
					m := map[int]*Term{}
					if len(or) < 10 && match(p[0], c, m) && len(m) == len(t.bv) {
						or = append(or, subst(t.args[0], m))
					}
				}
			}
			return Or(or...)
		case "and", "or":
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = rec(a)
			}
			return rebuild(t, as)
		case "=>":
			return Implies(t.args[0], rec(t.args[1]))
		}
		return t
	}
	return rec(g)
}

func hasExists(t *Term) bool {
	switch t.op {
	case "exists":
		return true
	case "and", "or", "=>":
		for _, a := range t.args {
			if hasExists(a) {
				return true
			}
		}
	}
	return false
}

// match finds a binding of the bound variables of p that makes it t
func match(p, t *Term, m map[int]*Term) bool {
	if len(p.fb) == 0 {
		return p == t
	}
	if p.op == "bvar" {
		if o, ok := m[p.id]; ok {
			return o == t
		}
		if p.sort != t.sort {
			return false
		}
		m[p.id] = t
		return true
	}
	if p.op != t.op || p.name != t.name || p.i != t.i || p.sort != t.sort || len(p.args) != len(t.args) {
		return false
	}
	for i := range p.args {
		if !match(p.args[i], t.args[i], m) {
			return false
		}
	}
	return true
}
