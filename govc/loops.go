package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// modKeys over-approximates the heap keys, local cells and iterators written by a set of blocks.
type modSet struct {
	heaps     map[string]bool
	allocs    map[*ssa.Alloc]bool
	iters     map[*ssa.Range]bool
	free      map[*ssa.FreeVar]bool
	allocates bool
}

func newModSet() *modSet {
	return &modSet{map[string]bool{}, map[*ssa.Alloc]bool{}, map[*ssa.Range]bool{}, map[*ssa.FreeVar]bool{}, false}
}

func (x *Exec) addStore(ms *modSet, addr ssa.Value) {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			// pointer-to-object base: field heap
			switch b := a.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				addr = b
				continue
			case *ssa.Alloc:
				if localAlloc(b) {
					ms.allocs[b] = true
					return
				}
			}
			ms.heaps[fieldKey(deref(a.X.Type()), a.Field)] = true
			return
		case *ssa.IndexAddr:
			switch u := a.X.Type().Underlying().(type) {
			case *types.Slice:
				ms.heaps[elemKey(u.Elem())] = true
				return
			case *types.Pointer:
				switch b := a.X.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					addr = b
					continue
				case *ssa.Alloc:
					if localAlloc(b) {
						ms.allocs[b] = true
						return
					}
				}
				ms.heaps[elemKey(u.Elem().Underlying().(*types.Array).Elem())] = true
				return
			}
		case *ssa.Alloc:
			if localAlloc(a) {
				ms.allocs[a] = true
				return
			}
			x.addTypeStore(ms, deref(a.Type()))
			return
		case *ssa.Global:
			ms.heaps[globalKey(a)] = true
			return
		case *ssa.FreeVar:
			ms.free[a] = true
			x.addTypeStore(ms, deref(a.Type()))
			return
		}
		x.addTypeStore(ms, deref(addr.Type()))
		return
	}
}
func (x *Exec) addTypeStore(ms *modSet, t types.Type) {
	if _, ok := structOf(t); ok {
		si := structSort(t)
		for i := range si.fields {
			ms.heaps[fieldKey(t, i)] = true
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		ms.heaps[elemKey(at.Elem())] = true
		return
	}
	ms.heaps[cellKey(t)] = true
}

func (x *Exec) modBlocks(ms *modSet, fn *ssa.Function, blocks func(b *ssa.BasicBlock) bool, seen map[*ssa.Function]bool) {
	for _, b := range fn.Blocks {
		if blocks != nil && !blocks(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				x.addStore(ms, v.Addr)
			case *ssa.MapUpdate:
				a, b, c := mapKeys(v.Map.Type().Underlying().(*types.Map))
				ms.heaps[a], ms.heaps[b], ms.heaps[c] = true, true, true
			case *ssa.Next:
				if r, ok := v.Iter.(*ssa.Range); ok {
					ms.iters[r] = true
				}
			case *ssa.Alloc:
				if !localAlloc(v) {
					// fresh objects: contents written at allocation
					x.addTypeStore(ms, deref(v.Type()))
					ms.allocates = true
				}
			case *ssa.MakeSlice:
				ms.heaps[elemKey(v.Type().Underlying().(*types.Slice).Elem())] = true
				ms.allocates = true
			case *ssa.Convert:
				if s, ok := v.Type().Underlying().(*types.Slice); ok {
					ms.heaps[elemKey(s.Elem())] = true
					ms.allocates = true
				}
			case *ssa.Slice:
				if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
					ms.heaps[elemKey(p.Elem().Underlying().(*types.Array).Elem())] = true
					ms.allocates = true
				}
			case *ssa.MakeMap:
				a, b, c := mapKeys(v.Type().Underlying().(*types.Map))
				ms.heaps[a], ms.heaps[b], ms.heaps[c] = true, true, true
				ms.allocates = true
			case *ssa.Call:
				x.modCall(ms, v.Common(), seen)
			}
		}
	}
}

func (x *Exec) modCall(ms *modSet, c *ssa.CallCommon, seen map[*ssa.Function]bool) {
	ms.allocates = true
	if c.IsInvoke() {
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		switch f.Name() {
		case "append", "copy":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				ms.heaps[elemKey(s.Elem())] = true
			}
		case "delete", "clear":
			if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				a, b, d := mapKeys(m)
				ms.heaps[a], ms.heaps[b], ms.heaps[d] = true, true, true
			}
		}
		return
	}
	f := c.StaticCallee()
	if f == nil {
		// dynamic: contract-based or local closures
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		} else {
			if con := x.P.dynContract(c.Value.Type()); con != nil {
				tys := []types.Type{c.Value.Type()}
				for i := 0; i < c.Signature().Params().Len(); i++ {
					tys = append(tys, c.Signature().Params().At(i).Type())
				}
				for k := range x.conKeysT(con, tys) {
					ms.heaps[k] = true
				}
			}
			return
		}
	}
	key := funcKey(f)
	if con := x.P.DB.Contracts[key]; con != nil && !con.Inline {
		for k := range x.conKeys(con, f) {
			ms.heaps[k] = true
		}
		return
	}
	if !x.ours(f) {
		for _, a := range c.Args {
			if p, ok := a.Type().Underlying().(*types.Pointer); ok {
				if _, ours := structOf(p.Elem()); !ours {
					if _, isS := p.Elem().Underlying().(*types.Struct); isS {
						ms.heaps[cellKey(p.Elem())] = true
						for _, g := range x.P.DB.Ghosts {
							if len(g.Params) > 0 {
								if _, ty := x.P.specSort(g.Params[0].Type); ty != nil && types.Identical(ty, p) {
									ms.heaps[x.P.ghostKey(g)] = true
								}
							}
						}
					}
				}
			}
		}
		for _, a := range c.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				x.modFn(ms, mc.Fn.(*ssa.Function), seen)
			}
			if strings.HasPrefix(key, "sort.") {
				if s, ok := a.Type().Underlying().(*types.Slice); ok {
					ms.heaps[elemKey(s.Elem())] = true
				}
			}
		}
		return
	}
	x.modFn(ms, f, seen)
}
func (x *Exec) modFn(ms *modSet, f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	sub := newModSet()
	x.modBlocks(sub, f, nil, seen)
	for k := range sub.heaps {
		ms.heaps[k] = true
	}
	for a := range sub.allocs {
		ms.allocs[a] = true
	}
	for fv := range sub.free {
		ms.free[fv] = true
	}
	for _, an := range f.AnonFuncs {
		x.modFn(ms, an, seen)
	}
}

// conKeys lists heap keys a contract's modifies clause names.
func (x *Exec) conKeys(con *Contract, f *ssa.Function) map[string]bool {
	var tys []types.Type // a function without a body has no ssa parameters
	if r := f.Signature.Recv(); r != nil {
		tys = append(tys, r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		tys = append(tys, f.Signature.Params().At(i).Type())
	}
	return x.conKeysT(con, tys)
}

func (x *Exec) conKeysT(con *Contract, tys []types.Type) (out map[string]bool) {
	out = map[string]bool{}
	if len(con.Modifies) == 0 {
		return
	}
	vars := map[string]SVal{}
	names := []string{}
	if con.Recv != "" {
		names = append(names, con.Recv)
	}
	names = append(names, con.Params...)
	for i, n := range names {
		if i < len(tys) {
			t := tys[i]
			vars[n] = SVal{T: Sym("dummy_"+n, sortOf(t)), Ty: t}
		}
	}
	hv := &HeapView{map[string]*Term{}, Sym("alloc@0", "Int")}
	env := &Env{x: x, vars: vars, cur: hv, old: hv, fresh0: hv.alloc}
	for _, k := range x.regions(con, env).keys() {
		out[k] = true
	}
	return
}

type cand struct {
	name string
	f    func(st *State) *Term // evaluated in a state positioned at the loop head
	user bool
}

// loop cuts a loop with an inductive invariant found by Houdini over the
// contract's invariants and automatic candidates.
func (x *Exec) loop(st *State, fr *Frame, l *loop, pred *ssa.BasicBlock, k Cont) {
	h := l.head
	// entry values of the phis
	var phis []*ssa.Phi
	initV := map[*ssa.Phi]Val{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	x.phis(st, fr, h, pred)
	for _, p := range phis {
		initV[p] = st.regs[regKey{fr.id, p}]
	}
	ms := newModSet()
	x.modBlocks(ms, fr.fn, func(b *ssa.BasicBlock) bool { return l.blocks[b] }, map[*ssa.Function]bool{})
	// forget counters of loops that have already been left
	var act []loopTag
	for _, t := range st.loops {
		for f, in := fr, h; f != nil; f, in = f.parent, f.callBlk {
			if f.id == t.fr {
				for _, ol := range f.li.loops {
					if ol.head.Index == t.blk && ol.blocks[in] && !(f == fr && ol == l) {
						act = append(act, t)
					}
				}
			}
		}
	}
	st.loops = act
	pre := snapshot(st)
	entrySt := st.clone()
	entrySt.loops = append(entrySt.loops, loopTag{fr.id, h.Index, Int(0)})

	// havoc
	hav := st.clone()
	kv := Fresh("k", "Int")
	hav.assume(Le(Int(0), kv))
	hav.assume(Le(kv, Int(maxLen))) // iteration count bound (assumption: fewer than 2^60 iterations)
	hav.loops = append(hav.loops, loopTag{fr.id, h.Index, kv})
	na := Fresh("alloc", "Int")
	if ms.allocates {
		hav.assume(Le(hav.alloc, na))
		hav.alloc = na
	}
	var hkeys []string
	for key := range ms.heaps {
		hkeys = append(hkeys, key)
	}
	sort.Strings(hkeys)
	for _, key := range hkeys {
		hav.havocHeap(key)
	}
	for id := range hav.locals {
		// cells created outside and written inside
		for _, a := range hav.regs {
			ad, ok := a.(*Addr)
			if ok && ad.Kind == "local" && ad.Cell.id == id && ad.Cell.blk != nil && ms.allocs[ad.Cell.blk] {
				x.havocLocal(hav, ad.Cell)
				break
			}
		}
	}
	for fv := range ms.free {
		for i, f := range fr.fn.FreeVars {
			if f == fv && i < len(fr.free) {
				if ad, ok := fr.free[i].(*Addr); ok && ad.Kind == "local" {
					x.havocLocal(hav, ad.Cell)
				}
			}
		}
	}
	for r := range ms.iters {
		if iv, ok := hav.regs[regKey{fr.id, r}].(*IterVal); ok {
			nv := Fresh("pos", "Int")
			if old, ok := hav.locals[iv.Pos.id].(*Term); ok {
				nv = Fresh("pos", old.Sort)
			}
			hav.locals[iv.Pos.id] = nv
			if s, ok := iv.X.(*Term); ok && s.Sort == "Str" {
				hav.assume(And(Le(Int(0), nv), Le(nv, strLenT(s))))
			}
		}
	}
	for _, p := range phis {
		iv := initV[p]
		tm, ok := iv.(*Term)
		if !ok {
			if _, isA := iv.(*Addr); isA {
				fail("loop-carried address %s", p.Comment)
			}
			tm = x.term(hav, iv)
			initV[p] = tm
			entrySt.regs[regKey{fr.id, p}] = tm
		}
		nv := Fresh("phi_"+p.Comment, tm.Sort)
		hav.assume(typeFacts(p.Type(), nv, hav.alloc))
		x.set(hav, fr, p, nv)
		if p.Comment != "" {
			hav.names[nameKey{fr.id, p.Comment}] = nameVal{v: nv, typ: p.Type()}
		}
	}

	cands := x.candidates(entrySt, hav, fr, l, phis, initV, pre, hkeys)
	// A loop inside a loop is analysed once per round of the outer inference, each time under weaker
	// assumptions (candidates are only ever removed), so what failed on this path fails again.
	pathKey := fmt.Sprintf("%s|%s|%d|%s|", strings.Join(x.stack, ">"), fr.fn.Name(), h.Index, strings.Join(st.trace, ","))
	kept := cands[:0]
	for _, c := range cands {
		if !x.dropped[pathKey+c.name] {
			kept = append(kept, c)
		}
	}
	cands = kept
	drop := func(before, after []cand) []cand {
		m := map[string]bool{}
		for _, c := range after {
			m[c.name] = true
		}
		for _, c := range before {
			if !m[c.name] && !c.user {
				x.dropped[pathKey+c.name] = true
			}
		}
		return after
	}
	// entry check
	cands = drop(append([]cand{}, cands...), x.filter(cands, func(c cand) ([]*Term, *Term) { return entrySt.pcList(), x.evalCand(c, entrySt) }, "entry", fr, l))
	// inductiveness
	for round := 0; ; round++ {
		if round > 24 {
			fail("loop invariant inference did not converge")
		}
		type back struct{ st *State }
		var backs []*State
		s := hav.clone()
		for _, c := range cands {
			s.assume(x.evalCand(c, s))
		}
		cx := &loopCtx{fr: fr.id, l: l, check: true}
		cx.back = func(bs *State, pr *ssa.BasicBlock) {
			bs = bs.clone()
			x.phis(bs, fr, h, pr)
			for i := len(bs.loops) - 1; i >= 0; i-- {
				if bs.loops[i].fr == fr.id && bs.loops[i].blk == h.Index {
					bs.loops = append([]loopTag{}, bs.loops[:i+1]...)
					bs.loops[i].k = Add(kv, Int(1))
					break
				}
			}
			backs = append(backs, bs)
		}
		x.ctx = append(x.ctx, cx)
		x.suppress++
		savedStack := append([]string{}, x.stack...)
		x.runHead(s, fr, h, func(*State, []Val) {})
		x.stack = savedStack
		x.suppress--
		x.ctx = x.ctx[:len(x.ctx)-1]
		before := len(cands)
		// the given invariants are tried only once the inferred ones are stable
		for _, user := range []bool{false, true} {
			if user && len(cands) != before {
				break
			}
			var sel, rest []cand
			for _, c := range cands {
				if c.user == user {
					sel = append(sel, c)
				} else {
					rest = append(rest, c)
				}
			}
			if len(sel) == 0 || len(backs) == 0 {
				continue
			}
			var obs []func(c cand) ([]*Term, *Term)
			for _, bs := range backs {
				bs := bs
				obs = append(obs, func(c cand) ([]*Term, *Term) { return bs.pcList(), x.evalCand(c, bs) })
			}
			kept := drop(append([]cand{}, sel...), x.filterAll(sel, obs, "step", fr, l))
			cands = append(rest, kept...)
		}
		if len(cands) == before {
			break
		}
	}
	if x.suppress == 0 {
		var ns []string
		for _, c := range cands {
			ns = append(ns, c.name)
		}
		x.loopInfoOut = append(x.loopInfoOut, fmt.Sprintf("%s loop@%s: %s", fr.fn.Name(), posStr(x.P, headPos(h)), strings.Join(ns, "; ")))
	}
	// continue with the invariant
	for _, c := range cands {
		hav.assume(x.evalCand(c, hav))
	}
	cx := &loopCtx{fr: fr.id, l: l}
	cx.back = func(bs *State, pr *ssa.BasicBlock) {}
	x.ctx = append(x.ctx, cx)
	depth := len(x.ctx)
	x.runHead(hav, fr, h, func(s2 *State, rets []Val) {
		// leaving through return: the context stays on the stack but is inert
		k(s2, rets)
	})
	x.ctx = x.ctx[:depth-1]
}

func headPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) havocLocal(st *State, c *LocalCell) {
	switch v := st.locals[c.id].(type) {
	case *Term:
		nv := Fresh("loc", v.Sort)
		st.locals[c.id] = nv
		st.assume(typeFacts(c.typ, nv, st.alloc))
	default:
		fail("loop writes a local holding %T", v)
	}
}

// runHead executes the header block (phis already set).
func (x *Exec) runHead(st *State, fr *Frame, h *ssa.BasicBlock, k Cont) {
	x.instrs(st, fr, h, 0, k)
}

func (x *Exec) evalCand(c cand, st *State) (t *Term) {
	return c.f(st)
}

// filter keeps the candidates whose obligation is proved.
func (x *Exec) filter(cs []cand, ob func(cand) ([]*Term, *Term), phase string, fr *Frame, l *loop) []cand {
	return x.filterAll(cs, []func(cand) ([]*Term, *Term){ob}, phase, fr, l)
}

// filterAll keeps the candidates whose obligation is proved on every path: first all of them at
// once on each path, then one by one where that fails.
func (x *Exec) filterAll(cs []cand, obs []func(cand) ([]*Term, *Term), phase string, fr *Frame, l *loop) []cand {
	if len(cs) == 0 {
		return nil
	}
	type item struct {
		ci   int
		goal *Term
		pc   []*Term
	}
	bad := map[int]*item{}
	perPath := make([][]*item, len(obs))
	var conj []query
	var conjPath []int
	for pi, ob := range obs {
		var goals []*Term
		for ci, c := range cs {
			pc, g := ob(c)
			if g == True {
				continue
			}
			goals = append(goals, g)
			perPath[pi] = append(perPath[pi], &item{ci, g, pc})
		}
		if len(goals) > 0 {
			pc, _ := ob(cs[0])
			if all := And(goals...); all != True {
				conj = append(conj, query{BuildQuery(pc, all, nil), 2500})
				conjPath = append(conjPath, pi)
			}
		}
	}
	var failed []int
	tz := time.Now()
	defer func() {
		if os.Getenv("GOVC_TIME") != "" {
			fmt.Fprintf(os.Stderr, "filter %s %s cands %d paths %d bad %d %v\n", phase, posStr(x.P, headPos(l.head)), len(cs), len(obs), len(bad), time.Since(tz))
		}
	}()
	for i, r := range x.S.Batch(conj) {
		if !r {
			failed = append(failed, conjPath[i])
		}
	}
	for n, pi := range failed {
		var qs []query
		var its []*item
		var goals []*Term
		for _, it := range perPath[pi] {
			if bad[it.ci] == nil {
				qs = append(qs, query{BuildQuery(it.pc, it.goal, nil), 4000})
				its = append(its, it)
				goals = append(goals, it.goal)
			}
		}
		if len(its) == 0 {
			continue
		}
		if n > 0 && len(bad) > 0 && x.S.Prove(its[0].pc, And(goals...), 2500) {
			continue
		}
		for i, r := range x.S.Batch(qs) {
			if !r {
				bad[its[i].ci] = its[i]
			}
		}
	}
	var out []cand
	for ci, c := range cs {
		it := bad[ci]
		if it == nil {
			out = append(out, c)
		} else if debugLoops || (c.user && (x.suppress == 0 || dumpDir != "")) {
			x.loopInfoOut = append(x.loopInfoOut, fmt.Sprintf("%s loop@%s: dropped at %s: %s", fr.fn.Name(), posStr(x.P, headPos(l.head)), phase, c.name))
			if dumpDir != "" && c.user {
				dumpQuery(fmt.Sprintf("inv-%s-%s-%d-%s", sanitize(fr.fn.Name()), phase, freshN, sanitize(c.name)), BuildQuery(it.pc, it.goal, nil))
			}
		}
	}
	return out
}

func (x *Exec) candidates(entry, hav *State, fr *Frame, l *loop, phis []*ssa.Phi, initV map[*ssa.Phi]Val, pre *HeapView, hkeys []string) []cand {
	var cs []cand
	add := func(name string, f func(st *State) *Term) {
		cs = append(cs, cand{name: name, f: f})
	}
	kOf := func(st *State) *Term {
		for i := len(st.loops) - 1; i >= 0; i-- {
			if st.loops[i].fr == fr.id && st.loops[i].blk == l.head.Index {
				return st.loops[i].k
			}
		}
		return Int(0)
	}
	// phi candidates
	for _, p := range phis {
		p := p
		init, ok := initV[p].(*Term)
		if !ok {
			continue
		}
		cur := func(st *State) *Term { return x.term(st, st.regs[regKey{fr.id, p}]) }
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		add(nm+"==init", func(st *State) *Term { return Eq(cur(st), init) })
		switch init.Sort {
		case "Int":
			if _, _, isI := intRange(p.Type()); isI {
				steps := map[int64]bool{}
				for i, e := range p.Edges {
					if !l.blocks[p.Block().Preds[i]] {
						continue
					}
					if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
						if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
							n := c.Int64()
							if b.Op == token.SUB {
								n = -n
							}
							steps[n] = true
						}
					}
				}
				for n := range steps {
					n := n
					add(fmt.Sprintf("%s==init%+d*k", nm, n), func(st *State) *Term { return Eq(cur(st), Add(init, Mul(Int(n), kOf(st)))) })
				}
				add(nm+">=init", func(st *State) *Term { return Le(init, cur(st)) })
				add(nm+"<=init", func(st *State) *Term { return Le(cur(st), init) })
				add(nm+">=0", func(st *State) *Term { return Le(Int(0), cur(st)) })
				add(nm+">=-1", func(st *State) *Term { return Le(Int(-1), cur(st)) })
				add(nm+"<=k+init", func(st *State) *Term { return Le(cur(st), Add(init, kOf(st))) })
				for _, q := range phis {
					q := q
					if q == p {
						continue
					}
					if _, _, isI := intRange(q.Type()); isI {
						curq := func(st *State) *Term { return x.term(st, st.regs[regKey{fr.id, q}]) }
						add(nm+"<="+q.Comment, func(st *State) *Term { return Le(cur(st), curq(st)) })
						add(nm+"<"+q.Comment, func(st *State) *Term { return Lt(cur(st), curq(st)) })
						iq, _ := initV[q].(*Term)
						if iq != nil {
							add(nm+"<=init "+q.Comment, func(st *State) *Term { return Le(cur(st), iq) })
						}
					}
				}
			}
		case "Slice":
			add("len("+nm+")==init+k", func(st *State) *Term { return Eq(SlLen(cur(st)), Add(SlLen(init), kOf(st))) })
			add("len("+nm+")==init", func(st *State) *Term { return Eq(SlLen(cur(st)), SlLen(init)) })
			add("arr("+nm+")==init", func(st *State) *Term { return Eq(SlArr(cur(st)), SlArr(init)) })
			add("arr("+nm+") fresh", func(st *State) *Term { return Or(Eq(SlArr(cur(st)), SlArr(init)), Le(pre.alloc, SlArr(cur(st)))) })
			add("arr("+nm+") fresh2", func(st *State) *Term { return Or(Eq(SlArr(cur(st)), Int(0)), Le(pre.alloc, SlArr(cur(st)))) })
		case "Any":
			add(nm+"==nil", func(st *State) *Term { return Eq(cur(st), AnyNil) })
			add(nm+"!=nil", func(st *State) *Term { return Ne(cur(st), AnyNil) })
		}
	}
	// header guard of the previous iteration: for "a < b" loops, k == 0 or the bound still covers a
	if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
		if c, ok := iff.Cond.(*ssa.BinOp); ok {
			g := x.headEval(fr, l, phis)
			switch c.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ, token.NEQ:
				lo, hi := c.X, c.Y
				if c.Op == token.GTR || c.Op == token.GEQ {
					lo, hi = hi, lo
				}
				strict := c.Op == token.LSS || c.Op == token.GTR || c.Op == token.NEQ
				if _, _, isI := intRange(c.X.Type()); isI {
					for d := int64(0); d <= 1; d++ {
						d := d
						add(fmt.Sprintf("guard-%d", d), func(st *State) *Term {
							a, b := g(st, lo), g(st, hi)
							if a == nil || b == nil {
								return True
							}
							off := d
							if !strict {
								off = d + 1 - 1
							}
							return Or(Eq(kOf(st), Int(0)), Le(a, Add(b, Int(off))))
						})
						add(fmt.Sprintf("guardu-%d", d), func(st *State) *Term {
							a, b := g(st, lo), g(st, hi)
							if a == nil || b == nil {
								return True
							}
							return Le(a, Add(b, Int(d)))
						})
					}
				}
			}
		}
	}
	// heap candidates
	for _, key := range hkeys {
		key := key
		hi := heapTab[key]
		p0 := pre.get(key)
		add(key+" unchanged", func(st *State) *Term { return Eq(st.H(key), p0) })
		if hi.kind == "G" {
			continue
		}
		// only objects allocated during the loop are written
		add(key+" old-unchanged", func(st *State) *Term {
			r := BVar("fr?", "Int")
			s1 := Select(st.H(key), r)
			if s1 == Select(p0, r) {
				return True
			}
			return Quant("forall", []*Term{r}, Implies(Lt(r, pre.alloc), Eq(s1, Select(p0, r))), [][]*Term{{s1}})
		})
		// only objects allocated since function entry, or inside the function's footprint, are written
		if x.entry != nil {
			e0 := x.entry.get(key)
			var rs *regionSet
			if x.con != nil {
				env := &Env{x: x, vars: x.params, cur: x.entry, old: x.entry, fresh0: x.entry.alloc}
				rs = x.regions(x.con, env)
			} else {
				rs = newRegionSet()
			}
			if !rs.whole[key] {
				add(key+" footprint", func(st *State) *Term { return frameGoal(rs, key, hi, st.H(key), e0, x.entry.alloc) })
			}
			add(key+" entry-old-unchanged", func(st *State) *Term {
				r := BVar("fr?", "Int")
				s1 := Select(st.H(key), r)
				return Quant("forall", []*Term{r}, Implies(Lt(r, x.entry.alloc), Eq(s1, Select(e0, r))), [][]*Term{{s1}})
			})
		}
		// per slice in scope: its contents
		if hi.kind == "E" {
			seen := map[*Term]bool{}
			var ts []*Term
			for rk, v := range entry.regs {
				t, ok := v.(*Term)
				if !ok || t.Sort != "Slice" || rk.fr != fr.id || seen[t] {
					continue
				}
				if sl, ok := rk.v.Type().Underlying().(*types.Slice); !ok || elemKey(sl.Elem()) != key {
					continue
				}
				seen[t] = true
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
			for i, t := range ts {
				if i >= 16 {
					break
				}
				a := SlArr(t)
				v0 := Select(p0, a)
				add(fmt.Sprintf("%s contents-%d unchanged", key, i), func(st *State) *Term { return Eq(Select(st.H(key), a), v0) })
			}
		}
		// per parameter object
		if hi.kind == "F" {
			var objs []*Term
			for _, ob := range x.loopObjs(entry, fr) {
				if ob.typ == strings.Split(key, "!")[1] {
					objs = append(objs, ob.t)
				}
			}
			if len(objs) > 0 && len(objs) <= 4 {
				add(key+" changed in scope only", func(st *State) *Term {
					r := BVar("fr?", "Int")
					s1 := Select(st.H(key), r)
					or := []*Term{Le(pre.alloc, r), Eq(s1, Select(p0, r))}
					for _, o := range objs {
						or = append(or, Eq(r, o))
					}
					return Quant("forall", []*Term{r}, Or(or...), [][]*Term{{s1}})
				})
			}
			for _, ob := range x.loopObjs(entry, fr) {
				if ob.typ != strings.Split(key, "!")[1] {
					continue
				}
				ob := ob
				v0 := Select(p0, ob.t)
				add(key+"@"+ob.name+" unchanged", func(st *State) *Term { return Eq(Select(st.H(key), ob.t), v0) })
				if hi.srt == arrSort("Slice") {
					cur := func(st *State) *Term { return Select(st.H(key), ob.t) }
					add("len "+key+"@"+ob.name+" +k", func(st *State) *Term { return Eq(SlLen(cur(st)), Add(SlLen(v0), kOf(st))) })
					add("len "+key+"@"+ob.name+" same", func(st *State) *Term { return Eq(SlLen(cur(st)), SlLen(v0)) })
					add("arr "+key+"@"+ob.name+" same", func(st *State) *Term { return Eq(SlArr(cur(st)), SlArr(v0)) })
					add("arr "+key+"@"+ob.name+" fresh", func(st *State) *Term { return Or(Eq(SlArr(cur(st)), SlArr(v0)), Le(pre.alloc, SlArr(cur(st)))) })
				}
			}
		}
	}
	// contract invariants and preconditions
	if x.con != nil {
		mkEnv := func(st *State) *Env {
			e := &Env{x: x, vars: x.params, cur: snapshot(st), old: x.entry, pre: pre, fresh0: x.entry.alloc}
			e.look = x.loopLook(st, fr, l, phis)
			return e
		}
		attempt := func(c *Clause, alias map[string]string) (msg string) {
			defer func() {
				if r := recover(); r != nil {
					if se, is := r.(specErr); is {
						msg = se.msg
						return
					}
					panic(r)
				}
			}()
			for _, st := range []*State{hav, entry} {
				e := mkEnv(st)
				e.look = aliasLook(e.look, alias)
				if bad := illSorted(e.Bool(c.E), map[int]bool{}); bad != nil {
					return "ill-sorted: " + bad.String()
				}
			}
			return ""
		}
		accept := func(c *Clause, name string, user bool, alias map[string]string) {
			cs = append(cs, cand{name: name, user: user, f: func(st *State) *Term {
				e := mkEnv(st)
				e.look = aliasLook(e.look, alias)
				return e.Bool(c.E)
			}})
		}
		try := func(c *Clause, name string, user bool) {
			msg := attempt(c, nil)
			if msg == "" {
				accept(c, name, user, nil)
				return
			}
			x.note("invariant %s not applicable at loop %s: %s", name, posStr(x.P, headPos(l.head)), msg)
			if !user {
				return
			}
			// A local variable that the invariant mentions may have been renamed: try the locals the
			// contract never mentions in its place (an invariant that does not hold is filtered out).
			var rec func(alias map[string]string, msg string, depth int)
			rec = func(alias map[string]string, msg string, depth int) {
				var id string
				if n, _ := fmt.Sscanf(msg, "unknown identifier %s", &id); n != 1 || strings.HasPrefix(id, "$") || depth > 2 || x.idents()[id] {
					return
				}
				for _, cnd := range x.strangers(st0names(hav, fr)) {
					used := false
					for _, v := range alias {
						used = used || v == cnd
					}
					if used {
						continue
					}
					al := map[string]string{id: cnd}
					for k, v := range alias {
						al[k] = v
					}
					m := attempt(c, al)
					if m == "" {
						accept(c, name+"{"+aliasStr(al)+"}", false, al)
					} else {
						rec(al, m, depth+1)
					}
				}
			}
			rec(nil, msg, 1)
		}
		pos := 0
		for i := range hav.loops {
			if hav.loops[i].fr == fr.id && hav.loops[i].blk == l.head.Index {
				pos = i
			}
		}
		for i, c := range x.con.Invs {
			if c.Depth != 0 && c.Depth-1 != pos {
				continue
			}
			try(c, "inv:"+clauseName(c, i), true)
		}
		for i, c := range x.con.Requires {
			try(c, "req:"+clauseName(c, i), false)
		}
	}
	return cs
}

// frameGoal: every object that existed in e0 and is outside the footprint is unchanged.
func frameGoal(rs *regionSet, key string, hi *heapInfo, h, e0, alloc0 *Term) *Term {
	if h == e0 || rs.whole[key] {
		return True
	}
	r := BVar("fr?", "Int")
	if hi.kind == "E" && rs.has(key, "elem", "range", "quant") {
		p := BVar("fp?", "Int")
		s1, s2 := Select(Select(h, r), p), Select(Select(e0, r), p)
		return Quant("forall", []*Term{r, p}, Implies(Lt(r, alloc0), Or(rs.contains(key, r, p), Eq(s1, s2))), [][]*Term{{s1}})
	}
	s1, s2 := Select(h, r), Select(e0, r)
	return Quant("forall", []*Term{r}, Implies(Lt(r, alloc0), Or(rs.contains(key, r, nil), Eq(s1, s2))), [][]*Term{{s1}})
}

type objRef struct {
	name, typ string
	t         *Term
}

// loopObjs lists struct pointers in scope (parameters and named locals).
func (x *Exec) loopObjs(st *State, fr *Frame) []objRef {
	var out []objRef
	seen := map[int]bool{}
	add := func(n string, v Val, t types.Type) {
		tm, ok := v.(*Term)
		if !ok || t == nil {
			return
		}
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		if _, ok := structOf(p.Elem()); !ok || seen[tm.ID] || tm == Int(0) {
			return
		}
		seen[tm.ID] = true
		out = append(out, objRef{n, typeKey(p.Elem()), tm})
	}
	var ns []string
	for n := range x.params {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		add(n, x.params[n].T, x.params[n].Ty)
	}
	var nk []nameKey
	for n := range st.names {
		if n.fr == fr.id {
			nk = append(nk, n)
		}
	}
	sort.Slice(nk, func(i, j int) bool { return nk[i].n < nk[j].n })
	for _, n := range nk {
		nv := st.names[n]
		if !nv.addr {
			add(n.n, nv.v, nv.typ)
		}
	}
	return out
}

// headEval evaluates values of the loop head over the current phis (pure instructions only).
func (x *Exec) headEval(fr *Frame, l *loop, phis []*ssa.Phi) func(st *State, v ssa.Value) *Term {
	return func(st *State, v ssa.Value) *Term {
		s := st.clone()
		var ev func(v ssa.Value, d int) *Term
		ev = func(v ssa.Value, d int) *Term {
			if d > 12 {
				return nil
			}
			switch u := v.(type) {
			case *ssa.Const:
				t, _ := constTerm(u).(*Term)
				return t
			case *ssa.Phi:
				if r, ok := s.regs[regKey{fr.id, u}]; ok {
					t, _ := r.(*Term)
					return t
				}
				return nil
			}
			in, ok := v.(ssa.Instruction)
			if !ok || in.Block() == nil || !l.blocks[in.Block()] {
				if _, isI := v.(ssa.Instruction); isI || true {
					defer func() { _ = recover() }()
					t, _ := x.val(s, fr, v).(*Term)
					return t
				}
			}
			switch u := v.(type) {
			case *ssa.BinOp:
				a, b := ev(u.X, d+1), ev(u.Y, d+1)
				if a == nil || b == nil {
					return nil
				}
				switch u.Op {
				case token.ADD:
					return Add(a, b)
				case token.SUB:
					return Sub(a, b)
				case token.QUO:
					return nil
				}
				return nil
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return nil
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					return nil
				}
				b := ev(fa.X, d+1)
				if b == nil || b.Sort != "Int" {
					return nil
				}
				return Select(s.H(fieldKey(deref(fa.X.Type()), fa.Field)), b)
			case *ssa.Call:
				if bi, ok := u.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					a := ev(u.Call.Args[0], d+1)
					if a == nil {
						return nil
					}
					if a.Sort == "Slice" {
						return SlLen(a)
					}
					if a.Sort == "Str" {
						return strLenT(a)
					}
				}
			}
			return nil
		}
		return ev(v, 0)
	}
}

// loopLook resolves invariant names: $k (iterations of this loop), $k0.. (outer loops),
// $phi_T (the unique loop-carried variable of type T), and source variables.
func (x *Exec) loopLook(st *State, fr *Frame, l *loop, phis []*ssa.Phi) func(string) (SVal, bool) {
	return func(n string) (SVal, bool) {
		if n == "$k" {
			for i := len(st.loops) - 1; i >= 0; i-- {
				if st.loops[i].fr == fr.id && st.loops[i].blk == l.head.Index {
					return SVal{T: st.loops[i].k}, true
				}
			}
			return SVal{}, false
		}
		if strings.HasPrefix(n, "$k") {
			var d int
			if _, err := fmt.Sscanf(n, "$k%d", &d); err == nil {
				// nest position of this loop must be deeper than d
				pos := -1
				for i := range st.loops {
					if st.loops[i].fr == fr.id && st.loops[i].blk == l.head.Index {
						pos = i
					}
				}
				if d < pos {
					return SVal{T: st.loops[d].k}, true
				}
			}
			return SVal{}, false
		}
		if n == "$seen" { // the keys a range over a map has produced
			for _, in := range l.head.Instrs {
				nx, ok := in.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				if iv, ok := st.regs[regKey{fr.id, nx.Iter}].(*IterVal); ok {
					if t, ok := st.locals[iv.Pos.id].(*Term); ok {
						return SVal{T: t}, true
					}
				}
			}
			return SVal{}, false
		}
		if strings.HasPrefix(n, "$phi_") {
			want := n[5:]
			var found *ssa.Phi
			for _, p := range phis {
				if sanitize(typeKey(p.Type())) == want {
					if found != nil {
						return SVal{}, false
					}
					found = p
				}
			}
			if found == nil {
				return SVal{}, false
			}
			return SVal{T: x.term(st, st.regs[regKey{fr.id, found}]), Ty: found.Type()}, true
		}
		nv, ok := st.names[nameKey{fr.id, n}]
		if !ok {
			// enclosing frames (inlined helper inside the function)
			best := -1
			for k, v := range st.names {
				if k.n == n && k.fr > best && k.fr < fr.id {
					best = k.fr
					nv = v
				}
			}
			if best < 0 {
				return SVal{}, false
			}
		}
		if nv.addr {
			defer func() {}()
			v := x.load(st, nv.v, nv.typ)
			t, ok := v.(*Term)
			if !ok {
				return SVal{}, false
			}
			return SVal{T: t, Ty: nv.typ}, true
		}
		t, ok := nv.v.(*Term)
		if !ok {
			return SVal{}, false
		}
		return SVal{T: t, Ty: nv.typ}, true
	}
}

var debugLoops bool

func aliasLook(look func(string) (SVal, bool), alias map[string]string) func(string) (SVal, bool) {
	if len(alias) == 0 {
		return look
	}
	return func(n string) (SVal, bool) {
		if a, ok := alias[n]; ok {
			return look(a)
		}
		return look(n)
	}
}

func aliasStr(al map[string]string) string {
	var out []string
	for k, v := range al {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// st0names lists the source names in scope of the frame and of the frames enclosing it.
func st0names(st *State, fr *Frame) []string {
	seen := map[string]bool{}
	var out []string
	for k := range st.names {
		if k.fr <= fr.id && !seen[k.n] {
			seen[k.n] = true
			out = append(out, k.n)
		}
	}
	sort.Strings(out)
	return out
}

// idents lists the identifiers that name a value anywhere in the function under verification.
func (x *Exec) idents() map[string]bool {
	if x.identSet != nil {
		return x.identSet
	}
	x.identSet = map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok {
					if o := d.Object(); o != nil {
						x.identSet[o.Name()] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(x.fn)
	return x.identSet
}

// strangers filters the names that no invariant of the contract mentions.
func (x *Exec) strangers(names []string) []string {
	ment := map[string]bool{}
	var walk func(e *SExpr)
	walk = func(e *SExpr) {
		if e == nil {
			return
		}
		if e.Op == "id" {
			ment[e.Name] = true
		}
		for _, a := range e.Args {
			walk(a)
		}
	}
	for _, c := range x.con.Invs {
		walk(c.E)
	}
	var out []string
	for _, n := range names {
		if !ment[n] && n != "err" && n != "_" && len(out) < 12 {
			if _, isParam := x.params[n]; !isParam {
				out = append(out, n)
			}
		}
	}
	return out
}

// illSorted returns a subterm whose arguments do not have the sorts its operator takes; nil when there is none.
func illSorted(t *Term, seen map[int]bool) *Term {
	if seen[t.ID] {
		return nil
	}
	seen[t.ID] = true
	for _, a := range t.Args {
		if b := illSorted(a, seen); b != nil {
			return b
		}
	}
	all := func(srt string, as []*Term) bool {
		for _, a := range as {
			if a.Sort != srt {
				return false
			}
		}
		return true
	}
	ok := true
	switch t.Op {
	case "not", "and", "or", "=>":
		ok = all("Bool", t.Args)
	case "=":
		ok = all(t.Args[0].Sort, t.Args)
	case "ite":
		ok = t.Args[0].Sort == "Bool" && t.Args[1].Sort == t.Args[2].Sort
	case "<", "<=", "+", "-", "*", "div", "mod":
		ok = all("Int", t.Args)
	case "select", "store":
		if !strings.HasPrefix(t.Args[0].Sort, "(Array ") {
			return t
		}
		k, v := arrKV(t.Args[0].Sort)
		ok = t.Args[1].Sort == k && (t.Op == "select" || t.Args[2].Sort == v)
	default:
		if sig, has := funSigs[t.Op]; has && len(sig.Args) == len(t.Args) {
			for i, a := range t.Args {
				ok = ok && a.Sort == sig.Args[i]
			}
		}
	}
	if !ok {
		return t
	}
	return nil
}
