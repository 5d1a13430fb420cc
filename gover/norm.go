package main

// normIndex shifts a quantified index so that the arrays it reads are indexed by the
// variable itself (not by offset+variable), which lets the solvers match triggers.
func normIndex(v *Term, ts ...*Term) []*Term {
	type occ struct {
		t    *Term
		c    *Term
		rest *Term
	}
	var occs []occ
	count := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op != "select" {
			return
		}
		ix := t.args[1]
		if ix == v {
			count[nil]++
			return
		}
		rest, c, ok := splitIndex(ix, v)
		if !ok || rest == nil {
			return
		}
		if count[rest] == 0 {
			order = append(order, rest)
		}
		count[rest]++
		occs = append(occs, occ{ix, c, rest})
	}
	for _, t := range ts {
		rec(t)
	}
	var best *Term
	for _, r := range order {
		if best == nil || count[r] > count[best] {
			best = r
		}
	}
	if best == nil || count[best] < count[nil] {
		return ts
	}
	m := map[*Term]*Term{v: mkSub(v, best)}
	for _, o := range occs {
		if o.rest == best {
			m[o.t] = mkAdd(v, o.c)
		}
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = substitute(t, m)
	}
	return out
}

// splitIndex writes ix as v + rest + c with rest free of v (nil when absent).
func splitIndex(ix, v *Term) (rest, c *Term, ok bool) {
	c = mkInt(0)
	n := 0
	var adds []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		switch {
		case t == v:
			n++
		case t.op == "+":
			for _, a := range t.args {
				fl(a)
			}
		case isInt(t):
			c = mkAdd(c, t)
		default:
			adds = append(adds, t)
		}
	}
	fl(ix)
	if n != 1 {
		return nil, nil, false
	}
	for _, a := range adds {
		fv := map[*Term]bool{}
		collectBVars(a, fv, map[*Term]bool{})
		if fv[v] {
			return nil, nil, false
		}
		if rest == nil {
			rest = a
		} else {
			rest = mkAdd(rest, a)
		}
	}
	return rest, c, true
}
