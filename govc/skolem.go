package main

import "strconv"

// A goal's top-level universal quantifiers are replaced by constants before the goal is negated, and the
// terms of their patterns are asserted to exist: z3's own skolemisation leaves a pattern term that occurs
// only below a nested quantifier out of its term graph, so that hypotheses triggered by it never fire.

func substBV(t *Term, m map[string]*Term, memo map[int]*Term) *Term {
	if t.Op == "#v" {
		if r, ok := m[t.Name]; ok {
			return r
		}
		return t
	}
	if !t.bnd && t.Op != "forall" && t.Op != "exists" || len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = substBV(a, m, memo)
	}
	var r *Term
	if t.Op == "forall" || t.Op == "exists" {
		pats := make([][]*Term, len(t.Pats))
		for i, ps := range t.Pats {
			for _, p := range ps {
				pats[i] = append(pats[i], substBV(p, m, memo))
			}
		}
		r = Quant(t.Op, t.Vars, args[0], pats)
	} else {
		r = mk(t.Op, t.Name, t.Sort, args...)
	}
	memo[t.ID] = r
	return r
}

// negated lists facts that hold together exactly when goal fails (for some choice of the new constants).
func negated(goal *Term) []*Term {
	switch goal.Op {
	case "forall":
		m := map[string]*Term{}
		for _, v := range goal.Vars {
			m[v.Name] = Sym("sk!"+v.Name, v.Sort)
		}
		memo := map[int]*Term{}
		var out []*Term
		for i, ps := range goal.Pats {
			for j, p := range ps {
				g := substBV(p, m, memo)
				if len(g.Args) == 0 || g.bnd {
					continue
				}
				out = append(out, mk("=", "", "Bool", Sym("sg!"+strconv.Itoa(goal.ID)+"_"+strconv.Itoa(i)+"_"+strconv.Itoa(j), g.Sort), g))
			}
		}
		return append(out, negated(substBV(goal.Args[0], m, memo))...)
	case "=>":
		return append([]*Term{goal.Args[0]}, negated(goal.Args[1])...)
	case "or":
		var out []*Term
		for _, a := range goal.Args {
			out = append(out, negated(a)...)
		}
		return out
	}
	return []*Term{Not(goal)}
}
