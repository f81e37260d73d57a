package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Function values. A function value is an integer identity; applying it is the
// uninterpreted function fapp_<sig>(f, args), allowed when fpre_<sig>(f, args) holds.
// Both are known only through (a) contracts marked "asvalue" of named functions or
// function literals stored once in a package variable, and (b) "fnarg" clauses, which
// describe a literal passed to a callee and are checked against the literal's body.

func fappName(sig *types.Signature) (app, pre string, ok bool) {
	if sig.Results().Len() != 1 || sig.Variadic() {
		return "", "", false
	}
	var as []string
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, sortOf(sig.Params().At(i).Type()))
	}
	rs := sortOf(sig.Results().At(0).Type())
	n := sanitize(strings.Join(as, "_") + "_to_" + rs)
	app, pre = "fapp_"+n, "fpre_"+n
	if _, done := funSigs[app]; !done {
		all := append([]string{"Int"}, as...)
		declFun(app, rs, all...)
		declFun(pre, "Bool", all...)
	}
	return app, pre, true
}

func sigOf(t types.Type) *types.Signature {
	s, _ := types.Unalias(t).Underlying().(*types.Signature)
	return s
}

// bindFuncVars lets a contract name a package variable that holds one function literal.
func (p *Program) bindFuncVars() {
	for _, key := range append([]string{}, p.DB.Order...) {
		if p.Funcs[key] != nil {
			continue
		}
		g, ok := p.SPkg.Members[key].(*ssa.Global)
		if !ok || p.stored[g] || len(p.initStores[g]) != 1 {
			continue
		}
		for _, b := range p.initStores[g][0].Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				v := st.Val
				for {
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
						continue
					}
					break
				}
				f, ok := v.(*ssa.Function)
				if !ok {
					continue
				}
				p.Funcs[key] = f
				p.DB.Contracts[funcKey(f)] = p.DB.Contracts[key]
				k := globalKey(g) + "@0"
				id := p.funcID(funcKey(f))
				symAxioms[k] = append(symAxioms[k], Eq(Sym(k, "Int"), id))
			}
		}
	}
}

// asValueAxioms states the contracts of the functions marked asvalue over their identities.
func (p *Program) asValueAxioms() map[string][]*Term {
	out := map[string][]*Term{}
	hv := &HeapView{map[string]*Term{}, Sym("alloc@0", "Int")}
	x := &Exec{P: p, notes: map[string]bool{}, dropped: map[string]bool{}}
	for _, key := range p.DB.Order {
		con, f := p.DB.Contracts[key], p.Funcs[key]
		if !con.AsValue || f == nil {
			continue
		}
		app, pre, ok := fappName(f.Signature)
		if !ok || len(con.Params) != len(f.Params) || !con.Pure || len(con.PanicsIf) > 0 {
			sfail("%s cannot be a function value", key)
		}
		env := &Env{x: x, vars: map[string]SVal{}, cur: hv, old: hv, fresh0: hv.alloc}
		id := p.funcID(funcKey(f))
		args := []*Term{id}
		var bvs []*Term
		for i, n := range con.Params {
			t := f.Params[i].Type()
			b := FreshBV(n, sortOf(t))
			bvs = append(bvs, b)
			args = append(args, b)
			env = env.bind(n, SVal{T: b, Ty: t})
		}
		at := App(app, sortOf(f.Signature.Results().At(0).Type()), args...)
		pt := App(pre, "Bool", args...)
		bindResults(env.vars, con, f.Signature, []*Term{at})
		var rq, en []*Term
		for _, r := range con.Requires {
			rq = append(rq, env.Bool(r.E))
		}
		for _, e := range con.Ensures {
			en = append(en, env.Bool(e.E))
		}
		ax := Quant("forall", bvs, Implies(And(rq...), And(pt, And(en...))), [][]*Term{{at}, {pt}})
		if h := heapSymIn(ax); h != "" {
			sfail("%s: the contract of a function value depends on the heap (%s)", key, h)
		}
		axOwner[ax.ID] = key
		out[app] = append(out[app], ax)
		out[pre] = append(out[pre], ax)
	}
	return out
}

// dynCall applies a function value nothing but its identity is known of.
func (x *Exec) dynCall(st *State, fr *Frame, v *ssa.Call, f *Term) {
	c := v.Common()
	sig := c.Signature()
	app, pre, ok := fappName(sig)
	if !ok {
		fail("dynamic call through %s", typeKey(c.Value.Type()))
	}
	args := []*Term{f}
	for _, a := range c.Args {
		args = append(args, x.tv(st, fr, a))
	}
	x.oblige(st, "pre", "func-value."+sanitize(typeKey(c.Value.Type())), v.Pos(), App(pre, "Bool", args...))
	x.oblige(st, "nil-deref", "func-value", v.Pos(), Ne(f, Int(0)))
	rt := sig.Results().At(0).Type()
	r := App(app, sortOf(rt), args...)
	st.assume(typeFacts(rt, r, st.alloc))
	x.set(st, fr, v, r)
}

// lookAll resolves source names in the frame and its callers.
func (x *Exec) lookAll(st *State, fr *Frame) func(string) (SVal, bool) {
	return x.loopLook(st, fr, &loop{head: fr.fn.Blocks[0]}, nil)
}

// runFn executes a function body on a state, calling k at each return.
func (x *Exec) runFn(st *State, parent *Frame, callBlk *ssa.BasicBlock, f *ssa.Function, bind []Val, args []Val, k func(st *State, rets []Val)) {
	if len(f.Blocks) == 0 {
		fail("call of bodyless %s", funcKey(f))
	}
	li := x.P.loopsOf(f)
	if li.irred {
		fail("irreducible control flow in %s", funcKey(f))
	}
	x.P.Inlined[funcKey(f)] = true
	x.frames++
	nf := &Frame{id: x.frames, fn: f, li: li, depth: parent.depth + 1, free: bind, parent: parent, callBlk: callBlk}
	for i, p := range f.Params {
		x.set(st, nf, p, args[i])
		st.names[nameKey{nf.id, p.Name()}] = nameVal{v: args[i], typ: p.Type()}
	}
	x.stack = append(x.stack, funcKey(f))
	saved := append([]string{}, x.stack...)
	x.block(st, nf, f.Blocks[0], nil, func(st2 *State, rets []Val) {
		inner := x.stack
		x.stack = saved[:len(saved)-1]
		k(st2, rets)
		x.stack = inner
	})
	x.stack = saved[:len(saved)-1]
}

// unchangedState: nothing that existed in a is different in b.
func (x *Exec) unchangedState(a, b *State, bind []Val) *Term {
	var cs []*Term
	for _, k := range sortedKeys(b.heap) {
		hi := heapTab[k]
		h0 := a.H(k)
		if b.heap[k] == h0 {
			continue
		}
		if hi.kind == "C" && opaqueSorts[sortOf(hi.typ)] {
			continue
		}
		if hi.kind == "G" {
			cs = append(cs, Eq(b.heap[k], h0))
			continue
		}
		cs = append(cs, frameGoal(newRegionSet(), k, hi, b.heap[k], h0, a.alloc))
	}
	for _, v := range bind {
		ad, ok := v.(*Addr)
		if !ok || ad.Kind != "local" {
			continue
		}
		p, q := a.locals[ad.Cell.id], b.locals[ad.Cell.id]
		if p == q {
			continue
		}
		pt, ok1 := p.(*Term)
		qt, ok2 := q.(*Term)
		if !ok1 || !ok2 {
			fail("a function literal passed to a callee changes a captured variable")
		}
		cs = append(cs, Eq(pt, qt))
	}
	return And(cs...)
}

// passClosure checks a literal handed to a callee against the fnarg clauses and
// lets the callee use what they say.
func (x *Exec) passClosure(st *State, fr *Frame, v *ssa.Call, cl *Closure) {
	if x.con == nil || x.con.FnArg == nil {
		return
	}
	fa := x.con.FnArg
	sig := cl.Fn.Signature
	if len(fa.Params) != sig.Params().Len() || len(fa.Results) != sig.Results().Len() {
		return
	}
	app, pre, ok := fappName(sig)
	if !ok {
		return
	}
	cur := snapshot(st)
	mkEnv := func() *Env {
		e := &Env{x: x, vars: map[string]SVal{}, cur: cur, old: x.entry, fresh0: x.entry.alloc, look: x.lookAll(st, fr)}
		return e.with(x.params)
	}
	// the literal's body
	st2 := st.clone()
	env := mkEnv()
	var args []Val
	for i, n := range fa.Params {
		t := sig.Params().At(i).Type()
		c := Fresh("fa_"+n, sortOf(t))
		st2.assume(typeFacts(t, c, st2.alloc))
		args = append(args, c)
		env = env.bind(n, SVal{T: c, Ty: t})
	}
	for _, r := range fa.Requires {
		st2.assume(env.Bool(r.E))
	}
	before := st2.clone()
	x.runFn(st2, fr, v.Block(), cl.Fn, cl.Bind, args, func(st3 *State, rets []Val) {
		if st3.dead() {
			return
		}
		e := env
		var rt []*Term
		for _, r := range rets {
			rt = append(rt, x.term(st3, r))
		}
		for i, n := range fa.Results {
			e = e.bind(n, SVal{T: rt[i], Ty: sig.Results().At(i).Type()})
		}
		for i, c := range fa.Ensures {
			x.oblige(st3, "literal", clauseName(c, i), cl.Fn.Pos(), e.Bool(c.E))
		}
		x.oblige(st3, "literal", "changes-nothing", cl.Fn.Pos(), x.unchangedState(before, st3, cl.Bind))
	})
	// what the callee may rely on
	id := x.term(st, cl)
	env = mkEnv()
	var bvs []*Term
	as := []*Term{id}
	var tf []*Term
	for i, n := range fa.Params {
		t := sig.Params().At(i).Type()
		b := FreshBV(n, sortOf(t))
		bvs = append(bvs, b)
		as = append(as, b)
		tf = append(tf, typeFacts(t, b, st.alloc))
		env = env.bind(n, SVal{T: b, Ty: t})
	}
	at := App(app, sortOf(sig.Results().At(0).Type()), as...)
	pt := App(pre, "Bool", as...)
	for i, n := range fa.Results {
		env = env.bind(n, SVal{T: at, Ty: sig.Results().At(i).Type()})
	}
	var en []*Term
	for _, r := range fa.Requires {
		tf = append(tf, env.Bool(r.E))
	}
	for _, e := range fa.Ensures {
		en = append(en, env.Bool(e.E))
	}
	st.assume(Quant("forall", bvs, Implies(And(tf...), And(pt, And(en...))), [][]*Term{{at}, {pt}}))
}

// passClosures handles every function literal among the arguments of a call.
func (x *Exec) passClosures(st *State, fr *Frame, v *ssa.Call, con *Contract, args []Val, sig *types.Signature) (after func(*State)) {
	after = func(*State) {}
	for i, a := range args {
		cl, ok := a.(*Closure)
		if !ok {
			if t, isT := a.(*Term); isT {
				cl, ok = x.closures[t.ID]
			}
		}
		if !ok || len(cl.Fn.FreeVars) == 0 && cl.Fn.Parent() == nil {
			continue
		}
		if len(con.Modifies) > 0 {
			ms := newModSet()
			x.modFn(ms, cl.Fn, map[*ssa.Function]bool{})
			if j := i + sig.Params().Len() - len(args); j >= 0 && x.con != nil {
				if dyn := x.P.dynContract(sig.Params().At(j).Type()); dyn != nil && len(cl.Bind) > 0 {
					a := x.passVisitor(st, fr, v, con, dyn, cl, args, sig, a)
					before := after
					after = func(st *State) { before(st); a(st) }
					continue
				}
			}
			if len(ms.heaps) > 0 || len(ms.free) > 0 {
				fail("function literal that changes memory passed to a callee that changes memory")
			}
			continue // nothing is known about the literal while the callee changes memory
		}
		x.passClosure(st, fr, v, cl)
	}
	return after
}

// passVisitor is the rule for a function literal handed to a callee that changes memory and calls the literal under
// the contract of its type. The body is run on an arbitrary state the callee can bring about, must satisfy the
// contract's preconditions' callees, and may change nothing but maps that only this function and its literals can
// reach; those are forgotten after the call. For a postcondition "G ==> Q" of the type's contract over state that
// nothing changes, and a clause "fnens A ==> Q" that the body satisfies, the callee may rely on A ==> G.
func (x *Exec) passVisitor(st *State, fr *Frame, v *ssa.Call, con, dyn *Contract, cl *Closure, args []Val, sig *types.Signature, self Val) func(*State) {
	var recvT types.Type
	if sig.Recv() != nil {
		recvT = sig.Recv().Type()
	}
	cenv := &Env{x: x, vars: x.contractEnv(st, con, args, sig, recvT, nil), cur: snapshot(st), old: snapshot(st), fresh0: st.alloc}
	mine := &Contract{}
	menv := &Env{x: x, vars: map[string]SVal{}, cur: snapshot(st), old: snapshot(st), fresh0: st.alloc}
	for i, m := range privateMaps(fr.fn) {
		t, ok := st.regs[regKey{fr.id, m}].(*Term)
		if !ok {
			continue
		}
		n := fmt.Sprintf("private%d", i)
		menv.vars[n] = SVal{T: t, Ty: m.Type()}
		mine.Modifies = append(mine.Modifies, &Region{E: parseRegion("mapof(" + n + ")"), Src: n})
	}
	forget := func(s *State) {
		if len(mine.Modifies) > 0 {
			x.havocRegions(s, mine, menv)
		}
	}
	// the literal's body
	st2 := st.clone()
	na := Fresh("alloc", "Int")
	st2.assume(Le(st2.alloc, na))
	st2.alloc = na
	x.havocRegions(st2, con, cenv)
	forget(st2)
	lsig := cl.Fn.Signature
	id := x.term(st, self)
	vars := map[string]SVal{}
	pre := x.lookAll(st, fr)
	env := &Env{x: x, vars: vars, cur: snapshot(st2), old: snapshot(st2), fresh0: st2.alloc}
	names := dyn.Params
	if len(names) != lsig.Params().Len()+1 {
		fail("the contract of %s has the wrong number of parameters", typeKey(lsig))
	}
	vars[names[0]] = SVal{T: id, Ty: lsig}
	var largs []Val
	for i := 0; i < lsig.Params().Len(); i++ {
		t := lsig.Params().At(i).Type()
		c := Fresh("va_"+names[i+1], sortOf(t))
		st2.assume(typeFacts(t, c, st2.alloc))
		largs = append(largs, c)
		vars[names[i+1]] = SVal{T: c, Ty: t}
	}
	for _, r := range dyn.Requires {
		st2.assume(env.Bool(r.E))
	}
	var ens []*Clause
	if x.con.FnArg != nil {
		ens = x.con.FnArg.Ensures
	}
	rs := x.regions(mine, menv)
	before := st2.clone()
	x.runFn(st2, fr, v.Block(), cl.Fn, cl.Bind, largs, func(st3 *State, rets []Val) {
		if st3.dead() {
			return
		}
		e := &Env{x: x, vars: map[string]SVal{}, cur: snapshot(st), old: x.entry, fresh0: x.entry.alloc, look: pre}
		e = e.with(x.params)
		for k, v := range vars {
			e = e.bind(k, v)
		}
		for i, n := range dyn.Results {
			e = e.bind(n, SVal{T: x.term(st3, rets[i]), Ty: lsig.Results().At(i).Type()})
		}
		for i, c := range ens {
			x.oblige(st3, "literal", clauseName(c, i), cl.Fn.Pos(), e.Bool(c.E))
		}
		for _, k := range sortedKeys(st3.heap) {
			hi := heapTab[k]
			h0 := before.H(k)
			if st3.heap[k] == h0 || hi.kind == "C" && opaqueSorts[sortOf(hi.typ)] {
				continue
			}
			if hi.kind == "G" {
				x.oblige(st3, "literal", "frame-"+k, cl.Fn.Pos(), Eq(st3.heap[k], h0))
				continue
			}
			x.oblige(st3, "literal", "frame-"+k, cl.Fn.Pos(), frameGoal(rs, k, hi, st3.heap[k], h0, before.alloc))
		}
		for _, b := range cl.Bind {
			if ad, ok := b.(*Addr); ok && ad.Kind == "local" && before.locals[ad.Cell.id] != st3.locals[ad.Cell.id] {
				fail("a function literal passed to a callee changes a captured variable")
			}
		}
	})
	// what the callee may rely on
	crs, drs := x.regions(con, cenv), x.regions(dyn, env)
	for _, c := range ens {
		for _, d := range dyn.Ensures {
			if c.E.Op != "bin" || c.E.Name != "==>" || d.E.Op != "bin" || d.E.Name != "==>" || !reflect.DeepEqual(c.E.Args[1], d.E.Args[1]) {
				continue
			}
			g := d.E.Args[0]
			if g.Op != "call" || crs.whole["GH!"+g.Name] || drs.whole["GH!"+g.Name] || x.P.DB.Ghosts[g.Name] == nil {
				continue
			}
			e := &Env{x: x, vars: map[string]SVal{}, cur: snapshot(st), old: x.entry, fresh0: x.entry.alloc, look: pre}
			e = e.with(x.params)
			e = e.bind(names[0], SVal{T: id, Ty: lsig})
			var bvs []*Term
			for i := 0; i < lsig.Params().Len(); i++ {
				t := lsig.Params().At(i).Type()
				bt := boundOf(names[i+1], t, &bvs)
				e = e.bind(names[i+1], SVal{T: bt, Ty: t})
			}
			a, gt := e.Bool(c.E.Args[0]), e.Bool(g)
			used := map[int]bool{}
			termIDs(gt, used)
			var qs []*Term
			for _, b := range bvs {
				if used[b.ID] {
					qs = append(qs, b)
				}
			}
			st.assume(Quant("forall", qs, Implies(a, gt), [][]*Term{{gt}}))
		}
	}
	return forget
}

// boundOf is a bound variable of a type, a structure of one for each field.
func boundOf(n string, t types.Type, bvs *[]*Term) *Term {
	if _, ok := structOf(t); ok {
		si := structSort(t)
		var as []*Term
		for i, ft := range si.types {
			as = append(as, boundOf(n+"_"+si.fnames[i], ft, bvs))
		}
		return App(si.ctor, si.name, as...)
	}
	b := FreshBV(n, sortOf(t))
	*bvs = append(*bvs, b)
	return b
}

func termIDs(t *Term, ids map[int]bool) {
	if ids[t.ID] {
		return
	}
	ids[t.ID] = true
	for _, a := range t.Args {
		termIDs(a, ids)
	}
}

// privateMaps lists the maps a function makes that only it and its literals use, and only by name.
func privateMaps(f *ssa.Function) []*ssa.MakeMap {
	var out []*ssa.MakeMap
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			m, ok := in.(*ssa.MakeMap)
			if !ok {
				continue
			}
			if privateUses(m, 0) {
				out = append(out, m)
			}
		}
	}
	return out
}

func privateUses(m ssa.Value, depth int) bool {
	if depth > 8 || m.Referrers() == nil {
		return false
	}
	for _, r := range *m.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
		case *ssa.MapUpdate:
			if u.Key == m || u.Value == m {
				return false
			}
		case *ssa.ChangeType:
			if !privateUses(u, depth+1) {
				return false
			}
		case *ssa.Store:
			a, ok := u.Addr.(*ssa.Alloc)
			if !ok || u.Val != m || !privateCell(a, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// privateCell: a variable that is only read as a map, assigned, and captured by literals that do the same.
func privateCell(a ssa.Value, depth int) bool {
	if depth > 8 || a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != a {
				return false
			}
		case *ssa.UnOp:
			if !privateUses(u, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			f, ok := u.Fn.(*ssa.Function)
			if !ok {
				return false
			}
			for i, b := range u.Bindings {
				if b == a && !privateCell(f.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := x.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// sortCall is the rule for sort.Sort, sort.Stable, sort.Slice and sort.SliceStable. The
// "sorts" clause of the function under verification names the sequence and the order.
// Checked: length and exchange act on that sequence, the comparison decides the stated
// order on any rearrangement of it, and the order is a strict weak order on its elements.
// Assumed afterwards: the sequence is a permutation of what it was, in order.
func (x *Exec) sortCall(st *State, fr *Frame, v *ssa.Call, key string, args []Val) {
	if x.con == nil || x.con.Sort == nil {
		fail("%s without a sorts clause", key)
	}
	x.P.TrustedUsed[key+" (permutes and orders by the given comparison)"] = true
	ss := x.con.Sort
	look := x.lookAll(st, fr)
	mk0 := func(s *State) *Env {
		e := &Env{x: x, vars: map[string]SVal{}, cur: snapshot(s), old: x.entry, fresh0: x.entry.alloc, look: look}
		return e.with(x.params)
	}
	seqv := mk0(st).eval(ss.Seq)
	seq := seqv.T
	elem := types.Unalias(seqv.Ty).Underlying().(*types.Slice).Elem()
	ek := elemKey(elem)
	oldc := Select(st.H(ek), SlArr(seq))
	n, off := SlLen(seq), SlOff(seq)
	pos := v.Pos()

	bt, _ := args[0].(*Term)
	if bt == nil {
		fail("%s: unknown argument", key)
	}
	var dyn *boxInfo
	for _, k := range boxOrder {
		if boxTab[k].ctor == bt.Op {
			dyn = boxTab[k]
		}
	}
	if dyn == nil {
		fail("%s: argument of unknown dynamic type", key)
	}
	isSlice := key == "sort.Slice" || key == "sort.SliceStable"

	// an arbitrary rearrangement of the sequence
	any1 := func() (*State, *Term) {
		s := st.clone()
		nc := Fresh("seq", oldc.Sort)
		pi := "pi!" + fmt.Sprint(nc.ID)
		declFun(pi, "Int", "Int")
		q := FreshBV("q", "Int")
		pq := App(pi, "Int", q)
		sel := Select(nc, Idx(off, q))
		s.assume(Quant("forall", []*Term{q}, Implies(And(Le(Int(0), q), Lt(q, n)), And(Le(Int(0), pq), Lt(pq, n), Eq(sel, Select(oldc, Idx(off, pq))))), [][]*Term{{sel}}))
		p := FreshBV("p", "Int")
		s2 := Select(nc, p)
		s.assume(Quant("forall", []*Term{p}, Implies(Or(Lt(p, off), Le(Add(off, n), p)), Eq(s2, Select(oldc, p))), [][]*Term{{s2}}))
		s.setH(ek, Store(s.H(ek), SlArr(seq), nc))
		return s, nc
	}
	lessOf := func(s *State, a, b *Term) *Term {
		e := mk0(s).bind(ss.A, SVal{T: a, Ty: elem}).bind(ss.B, SVal{T: b, Ty: elem})
		return e.Bool(ss.Less)
	}
	twoIdx := func(s *State) (*Term, *Term) {
		i, j := Fresh("si", "Int"), Fresh("sj", "Int")
		s.assume(And(Le(Int(0), i), Lt(i, n), Le(Int(0), j), Lt(j, n)))
		return i, j
	}
	checkLess := func(run func(s *State, i, j *Term, k func(*State, []Val)), bind []Val) {
		s, nc := any1()
		i, j := twoIdx(s)
		ea, eb := Select(nc, Idx(off, i)), Select(nc, Idx(off, j))
		s.assume(typeFacts(elem, ea, s.alloc))
		s.assume(typeFacts(elem, eb, s.alloc))
		s.names[nameKey{0, "$a"}] = nameVal{v: ea, typ: elem}
		s.names[nameKey{0, "$b"}] = nameVal{v: eb, typ: elem}
		before := s.clone()
		goal := lessOf(s, ea, eb)
		run(s, i, j, func(s2 *State, rets []Val) {
			if s2.dead() {
				return
			}
			x.oblige(s2, "sort", "comparison", pos, Eq(x.term(s2, rets[0]), goal))
			x.oblige(s2, "sort", "comparison-changes-nothing", pos, x.unchangedState(before, s2, bind))
		})
	}
	if isSlice {
		if len(args) != 2 {
			fail("%s arguments", key)
		}
		cl, ok := args[1].(*Closure)
		if !ok {
			fail("%s with an unknown comparison", key)
		}
		x.oblige(st, "sort", "sequence", pos, Eq(bt.Args[0], seq))
		checkLess(func(s *State, i, j *Term, k func(*State, []Val)) {
			x.runFn(s, fr, v.Block(), cl.Fn, cl.Bind, []Val{i, j}, k)
		}, cl.Bind)
	} else {
		recv := bt.Args[0]
		var bind []Val
		for _, c := range x.closures {
			bind = append(bind, c.Bind...)
		}
		meth := func(nm string) *ssa.Function {
			m := x.methodOf(dyn.typ, nm)
			if m == nil || m.Pkg != nil && m.Pkg != x.P.SPkg {
				fail("%s: no method %s", key, nm)
			}
			return m
		}
		s, _ := any1()
		b0 := s.clone()
		x.runFn(s, fr, v.Block(), meth("Len"), nil, []Val{recv}, func(s2 *State, rets []Val) {
			x.oblige(s2, "sort", "length", pos, And(Eq(x.term(s2, rets[0]), n), x.unchangedState(b0, s2, bind)))
		})
		checkLess(func(s *State, i, j *Term, k func(*State, []Val)) {
			x.runFn(s, fr, v.Block(), meth("Less"), nil, []Val{recv, i, j}, k)
		}, bind)
		s, nc := any1()
		i, j := twoIdx(s)
		b1 := s.clone()
		x.runFn(s, fr, v.Block(), meth("Swap"), nil, []Val{recv, i, j}, func(s2 *State, rets []Val) {
			if s2.dead() {
				return
			}
			h2 := Select(s2.H(ek), SlArr(seq))
			q := FreshBV("q", "Int")
			ai, aj := Idx(off, i), Idx(off, j)
			want := Ite(Eq(q, ai), Select(nc, aj), Ite(Eq(q, aj), Select(nc, ai), Select(nc, q)))
			x.oblige(s2, "sort", "exchange", pos, Quant("forall", []*Term{q}, Eq(Select(h2, q), want), [][]*Term{{Select(h2, q)}}))
			// nothing else changes
			s2.setH(ek, Store(s2.H(ek), SlArr(seq), Select(b1.H(ek), SlArr(seq))))
			x.oblige(s2, "sort", "exchange-changes-nothing-else", pos, x.unchangedState(b1, s2, bind))
		})
	}
	// strict weak order on the elements
	s := st.clone()
	i, j := twoIdx(s)
	k2, _ := twoIdx(s)
	el := func(q *Term) *Term { return Select(oldc, Idx(off, q)) }
	for _, q := range []*Term{i, j, k2} {
		s.assume(typeFacts(elem, el(q), s.alloc))
	}
	lij, ljk, lik := lessOf(s, el(i), el(j)), lessOf(s, el(j), el(k2)), lessOf(s, el(i), el(k2))
	x.oblige(s, "sort", "order", pos, And(Not(lessOf(s, el(i), el(i))), Implies(And(lij, ljk), lik), Implies(And(Not(lij), Not(ljk)), Not(lik))))

	// result
	nc2 := Fresh("sorted", oldc.Sort)
	st.setH(ek, Store(st.H(ek), SlArr(seq), nc2))
	p := FreshBV("p", "Int")
	sp := Select(nc2, p)
	st.assume(Quant("forall", []*Term{p}, Implies(Or(Lt(p, off), Le(Add(off, n), p)), Eq(sp, Select(oldc, p))), [][]*Term{{sp}}))
	pe := mk0(st)
	pe = pe.bind("$old", SVal{T: oldc}).bind("$new", SVal{T: nc2}).bind("$off", SVal{T: off, Ty: tInt}).bind("$len", SVal{T: n, Ty: tInt})
	pe.look = nil
	id := func(nm string) *SExpr { return &SExpr{Op: "id", Name: nm} }
	st.assume(pe.Bool(&SExpr{Op: "call", Name: "permuted", Args: []*SExpr{id("$old"), id("$new"), id("$off"), id("$len")}}))
	a, b := FreshBV("a", "Int"), FreshBV("b", "Int")
	na, nb := Select(nc2, Idx(off, a)), Select(nc2, Idx(off, b))
	st.assume(Quant("forall", []*Term{a, b}, Implies(And(Le(Int(0), a), Lt(a, b), Lt(b, n)), Not(lessOf(st, nb, na))), [][]*Term{{na, nb}}))
}

// ---- lemmas ----

func lemmaKeys(db *SpecDB) (out []string) {
	for _, l := range db.Lemmas {
		out = append(out, "lemma:"+l.Name)
	}
	return
}

// guardInduct restricts an inductive lemma to the naturals.
func guardInduct(l *Lemma) *SExpr {
	if l.Induct == "" {
		return l.E
	}
	e := *l.E
	g := parseExpr("0 <= " + l.Induct)
	e.Args = []*SExpr{bin("==>", g, l.E.Args[0])}
	return &e
}

// VerifyLemma proves a lemma from the axioms and the lemmas stated before it.
func VerifyLemma(p *Program, s *Solver, name string) (res *FnResult) {
	key := "lemma:" + name
	res = &FnResult{Key: key, Returns: 1}
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				res.Unsupported = u.msg
			case specErr:
				res.Unsupported = "lemma: " + u.msg
			default:
				panic(r)
			}
		}
	}()
	var l *Lemma
	hide := map[string]bool{}
	for _, q := range p.DB.Lemmas {
		if q.Name == name {
			l = q
		}
		if l != nil {
			hide["lemma:"+q.Name] = true
		}
	}
	if l == nil {
		sfail("no lemma %s", name)
	}
	saved := map[string][]*Term{}
	for f, as := range funAxioms {
		saved[f] = as
		var keep []*Term
		for _, a := range as {
			if o := axOwner[a.ID]; !hide[o] && !strings.HasPrefix(o, "ginv:") {
				keep = append(keep, a)
			}
		}
		funAxioms[f] = keep
	}
	defer func() {
		for f, as := range saved {
			funAxioms[f] = as
		}
	}()
	hv := &HeapView{map[string]*Term{}, Sym("alloc@0", "Int")}
	x := &Exec{P: p, S: s, key: key, notes: map[string]bool{}, dropped: map[string]bool{}}
	env := &Env{x: x, vars: map[string]SVal{}, cur: hv, old: hv, fresh0: hv.alloc}
	if l.E.Op != "forall" {
		sfail("a lemma is a universal formula")
	}
	for _, v := range l.E.Vars {
		srt, ty := p.specSort(v.Type)
		env = env.bind(v.Name, SVal{T: Fresh("l_"+v.Name, srt), Ty: ty})
	}
	body := l.E.Args[0]
	uses := func(e *Env) (out []*Term) {
		for _, u := range l.Use {
			t := e.eval(u).T
			f := "mention_" + sanitize(t.Sort)
			if _, ok := funSigs[f]; !ok {
				declFun(f, "Bool", t.Sort)
			}
			out = append(out, App(f, "Bool", t))
		}
		return
	}
	add := func(nm string, pc []*Term, goal *Term) {
		res.Obls = append(res.Obls, &Oblig{Fn: key, Kind: "lemma", Name: nm, Pc: pc, Goal: goal, Pos: "contracts"})
	}
	var base []*Term
	base = append(base, Le(Int(1), Int(2)))
	if l.Induct == "" {
		add("proof", append(base, uses(env)...), env.Bool(body))
		res.entryText = BuildQuery(append(base, uses(env)...), False, nil)
	} else {
		n := env.vars[l.Induct].T
		e0 := env.bind(l.Induct, SVal{T: Int(0), Ty: tInt})
		add("base", append(base, uses(e0)...), e0.Bool(body))
		ih := *l.E
		ih.Vars = nil
		for _, v := range l.E.Vars {
			if v.Name != l.Induct {
				ih.Vars = append(ih.Vars, v)
			}
		}
		hyp := env.Bool(&ih)
		e1 := env.bind(l.Induct, SVal{T: Add(n, Int(1)), Ty: tInt})
		pc := append([]*Term{Le(Int(0), n), hyp}, uses(env)...)
		add("step", pc, e1.Bool(body))
		res.entryText = BuildQuery(pc, False, nil)
	}
	discharge(p, s, res)
	if res.Vacuous == "no path returns" {
		res.Vacuous = ""
	}
	return
}

var _ = token.NoPos
