package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var byteWord, runeWord = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

func sortStrings(s []string) { sort.Strings(s) }

const maxInline = 8

// call executes a call instruction. It returns false if the result was stored
// synchronously (the caller proceeds), true if the continuation was invoked.
func (x *Exec) call(st *State, fr *Frame, v *ssa.Call, k func(*State, Val)) bool {
	c := v.Common()
	if c.IsInvoke() {
		recv := x.tv(st, fr, c.Value)
		x.oblige(st, "nil-deref", "interface-method-"+c.Method.Name(), v.Pos(), Ne(recv, AnyNil))
		if types.IsInterface(c.Value.Type()) {
			key := "$" + typeKey(c.Value.Type()) + "." + c.Method.Name()
			if con := x.P.DB.Contracts[key]; con != nil {
				args := []Val{recv}
				for _, a := range c.Args {
					args = append(args, x.val(st, fr, a))
				}
				x.set(st, fr, v, x.applyContract(st, con, key, v.Pos(), args, c.Signature(), nil, c.Value.Type()))
				return false
			}
		}
		x.P.Externs["(interface)."+c.Method.Name()]++
		x.set(st, fr, v, x.opaqueResult(st, c.Signature(), c.Method.Name()))
		return false
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(st, fr, v, f, k)
	case *ssa.Function:
		return x.callFn(st, fr, v, f, nil, k)
	}
	// dynamic
	fv := x.val(st, fr, c.Value)
	switch f := fv.(type) {
	case *Closure:
		return x.callFn(st, fr, v, f.Fn, f.Bind, k)
	case *Term:
		if n, ok := isInt(f); ok {
			if fn := x.P.fidFn[n.Int64()]; fn != nil {
				return x.callFn(st, fr, v, fn, nil, k)
			}
		}
		if cl, ok := x.closures[f.ID]; ok {
			return x.callFn(st, fr, v, cl.Fn, cl.Bind, k)
		}
		con := x.P.dynContract(c.Value.Type())
		key := "$" + typeKey(c.Value.Type())
		if con == nil {
			x.dynCall(st, fr, v, f)
			return false
		}
		x.oblige(st, "nil-deref", "func-value", v.Pos(), Ne(f, Int(0)))
		args := []Val{f}
		for _, a := range c.Args {
			args = append(args, x.val(st, fr, a))
		}
		r := x.applyContract(st, con, key, v.Pos(), args, c.Signature(), nil, c.Value.Type())
		x.set(st, fr, v, r)
		return false
	}
	fail("call through %T", fv)
	return false
}

func (x *Exec) callFn(st *State, fr *Frame, v *ssa.Call, f *ssa.Function, bind []Val, k func(*State, Val)) bool {
	key := funcKey(f)
	var args []Val
	for _, a := range v.Common().Args {
		args = append(args, x.val(st, fr, a))
	}
	con := x.P.DB.Contracts[key]
	external := !x.ours(f)
	if external && f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil {
		r := f.Signature.Recv()
		if r != nil {
			key = "(" + typeKey(r.Type()) + ")." + f.Name()
		} else {
			key = f.Object().Pkg().Name() + "." + f.Name()
		}
		con = x.P.DB.Contracts[key]
	}
	if sp := x.special(st, fr, v, key, args, k); sp != nil {
		return *sp
	}
	if con != nil && !con.Inline {
		after := x.passClosures(st, fr, v, con, args, f.Signature)
		r := x.applyContract(st, con, key, v.Pos(), args, f.Signature, f, nil)
		after(st)
		x.set(st, fr, v, r)
		return false
	}
	if external {
		x.set(st, fr, v, x.externCall(st, v, f, key, args))
		return false
	}
	if len(f.Blocks) == 0 {
		fail("call of bodyless %s", key)
	}
	for _, s := range x.stack {
		if s == key {
			fail("recursive call of %s without contract", key)
		}
	}
	if len(x.stack) > maxInline {
		fail("inlining too deep at %s", key)
	}
	li := x.P.loopsOf(f)
	if li.irred {
		fail("irreducible control flow in %s", key)
	}
	x.P.Inlined[key] = true
	x.frames++
	nf := &Frame{id: x.frames, fn: f, li: li, depth: fr.depth + 1, free: bind, parent: fr, callBlk: v.Block()}
	for i, p := range f.Params {
		x.set(st, nf, p, args[i])
		st.names[nameKey{nf.id, p.Name()}] = nameVal{v: args[i], typ: p.Type()}
	}
	x.stack = append(x.stack, key)
	saved := append([]string{}, x.stack...)
	x.block(st, nf, f.Blocks[0], nil, func(st2 *State, rets []Val) {
		inner := x.stack
		x.stack = saved[:len(saved)-1]
		var r Val
		if len(rets) == 1 {
			r = rets[0]
		} else {
			r = Tuple(rets)
		}
		k(st2, r)
		x.stack = inner
	})
	x.stack = saved[:len(saved)-1]
	return true
}

// opaqueResult makes unconstrained results for a signature.
func (x *Exec) opaqueResult(st *State, sig *types.Signature, hint string) Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("r_"+hint, sortOf(t))
		rs = append(rs, r)
	}
	// results may refer to newly allocated objects
	na := Fresh("alloc", "Int")
	st.assume(Le(st.alloc, na))
	hasRef := false
	for i := 0; i < sig.Results().Len(); i++ {
		if refLike(sig.Results().At(i).Type()) || types.IsInterface(sig.Results().At(i).Type()) {
			hasRef = true
		}
	}
	if hasRef {
		st.alloc = na
	}
	for i := range rs {
		st.assume(typeFacts(sig.Results().At(i).Type(), rs[i].(*Term), st.alloc))
	}
	switch len(rs) {
	case 0:
		return Tuple{}
	case 1:
		return rs[0]
	}
	return Tuple(rs)
}

var pureExternPkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "unicode": true, "utf8": true, "math": true, "errors": true, "time": true,
	"regexp": true, "log": true, "runtime": true, "filepath": true, "path": true, "os": true, "reflect": true, "bytes": true, "rand": true, "bufio": true, "html": true}

func (x *Exec) externCall(st *State, v *ssa.Call, f *ssa.Function, key string, args []Val) Val {
	if strings.HasPrefix(key, "os.Exit") || strings.HasPrefix(key, "log.Fatal") || strings.HasPrefix(key, "log.Panic") {
		x.oblige(st, "no-panic", key, v.Pos(), False)
		return x.opaqueResult(st, f.Signature, f.Name())
	}
	x.P.Externs[key]++
	sig := f.Signature
	check := func(t types.Type, a Val) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			el := u.Elem()
			if _, isS := el.Underlying().(*types.Struct); isS {
				if _, ours := structOf(el); !ours {
					// opaque external object: its contents may change
					if tm, ok := a.(*Term); ok {
						ck := cellKey(el)
						st.setH(ck, Store(st.H(ck), tm, Fresh("obj", sortOf(el))))
						for _, n := range sortedKeys(x.P.DB.Ghosts) {
							g := x.P.DB.Ghosts[n]
							if len(g.Params) == 0 {
								continue
							}
							if _, ty := x.P.specSort(g.Params[0].Type); ty != nil && types.Identical(ty, types.NewPointer(el)) {
								gk := x.P.ghostKey(g)
								st.setH(gk, Store(st.H(gk), tm, Fresh("ghost", arrElemSort(heapTab[gk].srt))))
							}
						}
					}
					return
				}
			}
			fail("external call %s takes pointer %s without a contract", key, t)
		case *types.Map, *types.Signature, *types.Chan:
			fail("external call %s takes %s without a contract", key, t)
		case *types.Slice:
			if _, ok := a.(*LocalSlice); !ok {
				// read-only by convention for the listed pure packages
				if f.Object() == nil || f.Object().Pkg() == nil || !pureExternPkgs[f.Object().Pkg().Name()] {
					fail("external call %s takes %s without a contract", key, t)
				}
			}
		case *types.Interface:
			if f.Object() == nil || f.Object().Pkg() == nil || !pureExternPkgs[f.Object().Pkg().Name()] {
				fail("external call %s takes %s without a contract", key, t)
			}
		}
	}
	i := 0
	if sig.Recv() != nil {
		check(sig.Recv().Type(), args[0])
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		check(sig.Params().At(j).Type(), args[i+j])
	}
	return x.opaqueResult(st, sig, f.Name())
}

// env builds the specification environment of the function under verification.
func (x *Exec) env(st *State) *Env {
	return &Env{x: x, vars: x.params, cur: snapshot(st), old: x.entry, fresh0: x.entry.alloc}
}

func (x *Exec) contractEnv(st *State, con *Contract, args []Val, sig *types.Signature, recvT types.Type, dynT types.Type) map[string]SVal {
	vars := map[string]SVal{}
	names := []string{}
	var tys []types.Type
	if con.Recv != "" {
		names = append(names, con.Recv)
		if recvT != nil {
			tys = append(tys, recvT)
		} else {
			tys = append(tys, nil)
		}
	} else if dynT != nil {
		// dynamic call: first parameter is the function (or receiver) value
		tys = append(tys, dynT)
	}
	names = append(names, con.Params...)
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	if len(names) > len(args) {
		sfail("contract %s names %d parameters, call has %d", con.Key, len(names), len(args))
	}
	for i, n := range names {
		vars[n] = SVal{T: x.term(st, args[i]), Ty: tys[i]}
	}
	return vars
}

func bindResults(vars map[string]SVal, con *Contract, sig *types.Signature, rs []*Term) {
	for i, r := range rs {
		t := sig.Results().At(i).Type()
		sv := SVal{T: r, Ty: t}
		vars[fmt.Sprintf("result%d", i)] = sv
		if i < len(con.Results) {
			vars[con.Results[i]] = sv
		}
		if len(rs) == 1 {
			vars["result"] = sv
		}
	}
}

func (x *Exec) applyContract(st *State, con *Contract, key string, pos token.Pos, args []Val, sig *types.Signature, f *ssa.Function, dynT types.Type) Val {
	if con.Trusted {
		x.P.TrustedUsed[con.Key] = true
	} else {
		x.P.Used[con.Key] = true
	}
	var recvT types.Type
	if sig.Recv() != nil {
		recvT = sig.Recv().Type()
	}
	vars := x.contractEnv(st, con, args, sig, recvT, dynT)
	pre := snapshot(st)
	env := &Env{x: x, vars: vars, cur: pre, old: pre, fresh0: pre.alloc}
	for i, r := range con.Requires {
		x.oblige(st, "pre", shortKey(key)+"."+clauseName(r, i), pos, env.Bool(r.E))
	}
	for i, r := range con.PanicsIf {
		x.oblige(st, "no-panic", shortKey(key)+".panics."+clauseName(r, i), pos, Not(env.Bool(r.E)))
	}
	// effects
	if !con.Pure {
		na := Fresh("alloc", "Int")
		st.assume(Le(st.alloc, na))
		st.alloc = na
	}
	x.havocRegions(st, con, env)
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("r_"+shortKey(key), sortOf(t))
		rs = append(rs, r)
		st.assume(typeFacts(t, r, st.alloc))
		x.fieldFacts(st, t, r)
	}
	bindResults(vars, con, sig, rs)
	post := &Env{x: x, vars: vars, cur: snapshot(st), old: pre, fresh0: pre.alloc}
	for _, e := range con.Ensures {
		if e.Part != "" && x.con != nil && e.Part != x.con.only && con.Key == x.con.Key {
			continue // a recursive call: this part is proved from itself and the main part
		}
		st.assume(post.Bool(e.E))
	}
	// syntactic propagation: result equalities known as facts
	out := make([]Val, len(rs))
	for i, r := range rs {
		out[i] = x.resolveEq(st, r)
	}
	switch len(out) {
	case 0:
		return Tuple{}
	case 1:
		return out[0]
	}
	return Tuple(out)
}

// fieldFacts: the references held by the object a result points to are allocated.
func (x *Exec) fieldFacts(st *State, t types.Type, r *Term) {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if _, ok := structOf(p.Elem()); !ok {
		return
	}
	si := structSort(p.Elem())
	var cs []*Term
	for i, ft := range si.types {
		switch types.Unalias(ft).Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			cs = append(cs, typeFacts(ft, Select(st.H(fieldKey(p.Elem(), i)), r), st.alloc))
		}
	}
	st.assume(Implies(Ne(r, Int(0)), And(cs...)))
}

// resolveEq replaces a fresh result symbol by the term an unconditional fact equates it with.
func (x *Exec) resolveEq(st *State, r *Term) *Term {
	n := st.pc
	for i := 0; n != nil && i < 40; i++ {
		t := n.t
		if t.Op == "=" {
			if t.Args[0] == r && simpleTerm(t.Args[1]) {
				return t.Args[1]
			}
			if t.Args[1] == r && simpleTerm(t.Args[0]) {
				return t.Args[0]
			}
		}
		if t == r {
			return True
		}
		if t.Op == "not" && t.Args[0] == r {
			return False
		}
		n = n.prev
	}
	return r
}
func simpleTerm(t *Term) bool {
	return !t.bnd
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// ---- regions ----

// regionEnt is one footprint component: an object, one element, or an element range of
// one backing array (all under a condition), or a quantified membership predicate.
type regionEnt struct {
	kind   string // obj, elem, range, quant
	cond   *Term
	obj    *Term
	lo, hi *Term // elem: lo; range: lo <= position < hi
	q      func(r, p *Term) *Term
}

type regionSet struct {
	// per heap key: predicate over object (and element position) being inside the footprint
	whole map[string]bool
	ents  map[string][]regionEnt
}

func newRegionSet() *regionSet {
	return &regionSet{map[string]bool{}, map[string][]regionEnt{}}
}

func (rs *regionSet) add(key string, e regionEnt) { rs.ents[key] = append(rs.ents[key], e) }

func (rs *regionSet) has(key string, kinds ...string) bool {
	for _, e := range rs.ents[key] {
		for _, k := range kinds {
			if e.kind == k {
				return true
			}
		}
	}
	return false
}

func (rs *regionSet) keys() []string {
	m := map[string]bool{}
	for k := range rs.whole {
		m[k] = true
	}
	for k := range rs.ents {
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// contains gives membership of object r (position p for element heaps) in the footprint.
func (rs *regionSet) contains(key string, r, p *Term) *Term {
	if rs.whole[key] {
		return True
	}
	var cs []*Term
	for _, e := range rs.ents[key] {
		var m *Term
		switch e.kind {
		case "obj":
			m = Eq(r, e.obj)
		case "elem":
			m = Eq(r, e.obj)
			if p != nil {
				m = And(m, Eq(p, e.lo))
			}
		case "range":
			m = Eq(r, e.obj)
			if p != nil {
				m = And(m, Le(e.lo, p), Lt(p, e.hi))
			}
		default:
			m = e.q(r, p)
		}
		cs = append(cs, And(e.cond, m))
	}
	return Or(cs...)
}

func (x *Exec) regions(con *Contract, env *Env) *regionSet {
	rs := newRegionSet()
	for _, m := range con.Modifies {
		x.region(rs, m.E, env, nil, nil)
	}
	return rs
}

// region adds one footprint expression; bvs/guard describe enclosing each(...) quantifiers.
func (x *Exec) region(rs *regionSet, e *SExpr, env *Env, bvs []*Term, guard *Term) {
	addObj := func(key string, o *Term) {
		if len(bvs) == 0 {
			rs.add(key, regionEnt{kind: "obj", cond: True, obj: o})
			return
		}
		rs.add(key, regionEnt{kind: "quant", cond: True, q: func(r, p *Term) *Term {
			return Quant("exists", bvs, And(guard, Eq(r, o)), nil)
		}})
	}
	switch e.Op {
	case "field":
		v := env.eval(e.Args[0])
		pt, ok := types.Unalias(v.Ty).Underlying().(*types.Pointer)
		if !ok {
			sfail("modifies: %s is not a pointer field", e.Name)
		}
		f := env.structFieldIndex(pt.Elem(), e.Name)
		addObj(fieldKey(pt.Elem(), f), v.T)
		return
	case "allfields":
		v := env.eval(e.Args[0])
		pt := types.Unalias(v.Ty).Underlying().(*types.Pointer)
		si := structSort(pt.Elem())
		for i := range si.fields {
			addObj(fieldKey(pt.Elem(), i), v.T)
		}
		return
	case "call":
		switch e.Name {
		case "elems":
			v := env.eval(e.Args[0])
			u := types.Unalias(v.Ty).Underlying().(*types.Slice)
			addObj(elemKey(u.Elem()), SlArr(v.T))
			return
		case "spare": // spare(s): the elements between len and cap
			v := env.eval(e.Args[0])
			k := elemKey(types.Unalias(v.Ty).Underlying().(*types.Slice).Elem())
			a, lo, hi := SlArr(v.T), Idx(SlOff(v.T), SlLen(v.T)), Idx(SlOff(v.T), SlCap(v.T))
			if len(bvs) == 0 {
				rs.add(k, regionEnt{kind: "range", cond: True, obj: a, lo: lo, hi: hi})
				return
			}
			rs.add(k, regionEnt{kind: "quant", cond: True, q: func(r, p *Term) *Term {
				if p == nil {
					return Quant("exists", bvs, And(guard, Eq(r, a)), nil)
				}
				return Quant("exists", bvs, And(guard, Eq(r, a), Le(lo, p), Lt(p, hi)), nil)
			}})
			return
		case "elem":
			v := env.eval(e.Args[0])
			i := env.eval(e.Args[1])
			u := types.Unalias(v.Ty).Underlying().(*types.Slice)
			k := elemKey(u.Elem())
			if len(bvs) == 1 && env.rlo != nil && i.T == bvs[0] && !mentions(v.T, bvs[0]) {
				rs.add(k, regionEnt{kind: "range", cond: True, obj: SlArr(v.T), lo: Idx(SlOff(v.T), env.rlo), hi: Idx(SlOff(v.T), env.rhi)})
				return
			}
			if len(bvs) > 0 {
				a, ps := SlArr(v.T), Idx(SlOff(v.T), i.T)
				rs.add(k, regionEnt{kind: "quant", cond: True, q: func(r, p *Term) *Term {
					if p == nil {
						return Quant("exists", bvs, And(guard, Eq(r, a)), nil)
					}
					return Quant("exists", bvs, And(guard, Eq(r, a), Eq(p, ps)), nil)
				}})
				return
			}
			rs.add(k, regionEnt{kind: "elem", cond: True, obj: SlArr(v.T), lo: Idx(SlOff(v.T), i.T)})
			return
		case "mapof":
			v := env.eval(e.Args[0])
			md, mv, ml := mapKeys(types.Unalias(v.Ty).Underlying().(*types.Map))
			addObj(md, v.T)
			addObj(mv, v.T)
			addObj(ml, v.T)
			return
		case "each": // each(i, lo, hi, region)
			name := e.Args[0].Name
			b := FreshBV(name, "Int")
			lo, hi := env.eval(e.Args[1]), env.eval(e.Args[2])
			g := And(Le(lo.T, b), Lt(b, hi.T))
			if guard != nil {
				g = And(guard, g)
			}
			ne := env.bind(name, SVal{T: b})
			ne.rlo, ne.rhi = lo.T, hi.T
			x.region(rs, e.Args[3], ne, append(append([]*Term{}, bvs...), b), g)
			return
		case "allof": // allof(Table.rows): the field of every object
			fe := e.Args[0]
			t := x.P.parseType(fe.Args[0].Name)
			f := env.structFieldIndex(t, fe.Name)
			rs.whole[fieldKey(t, f)] = true
			return
		case "allelems": // allelems("[]T")
			t := x.P.parseType(e.Args[0].Name)
			rs.whole[elemKey(t.Underlying().(*types.Slice).Elem())] = true
			return
		case "global":
			if g, ok := x.P.SPkg.Members[e.Args[0].Name].(*ssa.Global); ok {
				rs.whole[globalKey(g)] = true
			}
			return
		case "ghost":
			g := x.P.DB.Ghosts[e.Args[0].Name]
			if g == nil {
				sfail("unknown ghost %s", e.Args[0].Name)
			}
			if len(e.Args) > 1 {
				addObj(x.P.ghostKey(g), env.eval(e.Args[1]).T)
				return
			}
			rs.whole[x.P.ghostKey(g)] = true
			return
		case "when": // when(cond, region)
			c := env.Bool(e.Args[0])
			if c == False {
				return
			}
			if c == True {
				x.region(rs, e.Args[1], env, bvs, guard)
				return
			}
			if len(bvs) > 0 {
				ne := *env
				ne.rlo = nil
				x.region(rs, e.Args[1], &ne, bvs, And(guard, c))
				return
			}
			tmp := newRegionSet()
			x.region(tmp, e.Args[1], env, bvs, guard)
			for _, k := range tmp.keys() {
				if tmp.whole[k] {
					rs.add(k, regionEnt{kind: "quant", cond: c, q: func(r, p *Term) *Term { return True }})
					continue
				}
				for _, t := range tmp.ents[k] {
					t.cond = And(c, t.cond)
					rs.add(k, t)
				}
			}
			return
		}
	}
	sfail("bad modifies region")
}

func (x *Exec) havocRegions(st *State, con *Contract, env *Env) {
	rs := x.regions(con, env)
	for _, k := range rs.keys() {
		hi := heapTab[k]
		old := st.H(k)
		switch {
		case rs.whole[k] || rs.has(k, "quant"):
			nw := st.havocHeap(k)
			if rs.whole[k] {
				continue
			}
			r := FreshBV("r", "Int")
			if hi.kind == "E" {
				p := FreshBV("p", "Int")
				sel := Select(Select(nw, r), p)
				if !rs.has(k, "elem", "range") {
					// object-level frame is enough
					s1 := Select(nw, r)
					st.assume(Quant("forall", []*Term{r}, Or(rs.contains(k, r, nil), Eq(s1, Select(old, r))), [][]*Term{{s1}}))
				}
				st.assume(Quant("forall", []*Term{r, p}, Or(rs.contains(k, r, p), Eq(sel, Select(Select(old, r), p))), [][]*Term{{sel}}))
			} else {
				sel := Select(nw, r)
				st.assume(Quant("forall", []*Term{r}, Or(rs.contains(k, r, nil), Eq(sel, Select(old, r))), [][]*Term{{sel}}))
			}
		default:
			h := old
			for _, e := range rs.ents[k] {
				cur := Select(h, e.obj)
				switch e.kind {
				case "obj":
					nv := Fresh("h_"+k, arrElemSort(hi.srt))
					x.freshFacts(st, hi, nv)
					st.assume(Or(e.cond, Eq(nv, cur)))
					h = Store(h, e.obj, nv)
				case "elem":
					nv := Fresh("e_"+k, sortOf(hi.typ))
					st.assume(typeFacts(hi.typ, nv, st.alloc))
					st.assume(Or(e.cond, Eq(nv, Select(cur, e.lo))))
					h = Store(h, e.obj, Store(cur, e.lo, nv))
				case "range":
					nv := Fresh("h_"+k, arrElemSort(hi.srt))
					x.freshFacts(st, hi, nv)
					p := FreshBV("p", "Int")
					sel := Select(nv, p)
					st.assume(Quant("forall", []*Term{p}, Or(And(e.cond, Le(e.lo, p), Lt(p, e.hi)), Eq(sel, Select(cur, p))), [][]*Term{{sel}}))
					h = Store(h, e.obj, nv)
				}
			}
			st.setH(k, h)
		}
	}
}

// freshFacts assumes well-formedness of the new contents of one object.
func (x *Exec) freshFacts(st *State, hi *heapInfo, nv *Term) {
	switch hi.kind {
	case "F", "C":
		if !types.IsInterface(hi.typ) {
			st.assume(typeFacts(hi.typ, nv, st.alloc))
		}
	case "E":
		if refLike(hi.typ) {
			p := FreshBV("p", "Int")
			sel := Select(nv, p)
			st.assume(Quant("forall", []*Term{p}, typeFacts(hi.typ, sel, st.alloc), [][]*Term{{sel}}))
		}
	case "ML":
		st.assume(Le(Int(0), nv))
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, fr *Frame, v *ssa.Call, b *ssa.Builtin, k func(*State, Val)) bool {
	args := v.Call.Args
	switch b.Name() {
	case "len", "cap":
		a := x.val(st, fr, args[0])
		if ls, ok := a.(*LocalSlice); ok {
			x.set(st, fr, v, Int(int64(ls.N)))
			return false
		}
		t := x.term(st, a)
		switch u := args[0].Type().Underlying().(type) {
		case *types.Map:
			_, _, ml := mapKeys(u)
			if un, ok := args[0].(*ssa.UnOp); ok {
				if g, ok := un.X.(*ssa.Global); ok {
					if ents, ok := x.P.constG[g]; ok {
						x.set(st, fr, v, Int(int64(len(ents))))
						return false
					}
				}
			}
			r := Ite(Eq(t, Int(0)), Int(0), Select(st.H(ml), t))
			st.assume(Le(Int(0), r))
			x.set(st, fr, v, r)
		case *types.Array:
			x.set(st, fr, v, Int(u.Len()))
		case *types.Pointer:
			x.set(st, fr, v, Int(u.Elem().Underlying().(*types.Array).Len()))
		default:
			if t.Sort == "Str" {
				x.set(st, fr, v, strLenT(t))
			} else if b.Name() == "len" {
				x.set(st, fr, v, SlLen(t))
			} else {
				x.set(st, fr, v, SlCap(t))
			}
		}
		return false
	case "print", "println":
		x.set(st, fr, v, Tuple{})
		return false
	case "append":
		return x.appendCall(st, fr, v, k)
	case "copy":
		x.copyCall(st, fr, v)
		return false
	case "delete":
		mt := args[0].Type().Underlying().(*types.Map)
		m, key := x.tv(st, fr, args[0]), x.tv(st, fr, args[1])
		md, _, ml := mapKeys(mt)
		// delete on a nil map is a no-op
		dom := Select(st.H(md), m)
		st.setH(ml, Store(st.H(ml), m, Ite(And(Ne(m, Int(0)), Select(dom, key)), Sub(Select(st.H(ml), m), Int(1)), Select(st.H(ml), m))))
		st.setH(md, Store(st.H(md), m, Store(dom, key, Ite(Eq(m, Int(0)), Select(dom, key), False))))
		x.set(st, fr, v, Tuple{})
		return false
	case "min", "max":
		r := x.tv(st, fr, args[0])
		for _, a := range args[1:] {
			y := x.tv(st, fr, a)
			if r.Sort != "Int" {
				fail("min/max on %s", r.Sort)
			}
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(y, r), r, y)
			}
		}
		x.set(st, fr, v, r)
		return false
	case "recover":
		x.set(st, fr, v, AnyNil)
		return false
	case "clear":
		mt, ok := args[0].Type().Underlying().(*types.Map)
		if !ok {
			fail("clear of slice")
		}
		m := x.tv(st, fr, args[0])
		md, _, ml := mapKeys(mt)
		st.setH(md, Store(st.H(md), m, ConstArr(arrElemSort(heapTab[md].srt), False)))
		st.setH(ml, Store(st.H(ml), m, Int(0)))
		x.set(st, fr, v, Tuple{})
		return false
	}
	if b.Name() == "ssa:wrapnilchk" {
		x.set(st, fr, v, x.val(st, fr, args[0]))
		return false
	}
	fail("builtin %s", b.Name())
	return false
}

func (x *Exec) appendCall(st *State, fr *Frame, v *ssa.Call, k func(*State, Val)) bool {
	args := v.Call.Args
	el := v.Type().Underlying().(*types.Slice).Elem()
	key := elemKey(el)
	base := x.tv(st, fr, args[0])
	srcV := x.val(st, fr, args[1])
	var items []*Term // known elements
	var src *Term
	if ls, ok := srcV.(*LocalSlice); ok {
		content := st.locals[ls.Cell.id].(*Term)
		for i := 0; i < ls.N; i++ {
			items = append(items, Select(content, Idx(Int(0), Int(int64(i)))))
		}
	} else {
		src = x.term(st, srcV)
		if src == NilSlice {
			x.set(st, fr, v, base)
			return false
		}
	}
	var n *Term
	if src == nil {
		n = Int(int64(len(items)))
		if len(items) == 0 {
			x.set(st, fr, v, base)
			return false
		}
	} else if src.Sort == "Str" {
		n = strLenT(src)
	} else {
		n = SlLen(src)
	}
	ln := SlLen(base)
	newLen := Add(ln, n)
	if src != nil && src.Sort == "Str" {
		// append([]byte, string...): contents abstracted
		r := Fresh("app", "Slice")
		na := Fresh("alloc", "Int")
		st.assume(Lt(st.alloc, na))
		st.assume(And(Eq(SlLen(r), newLen), Le(st.alloc, SlArr(r)), Lt(SlArr(r), na), Le(newLen, SlCap(r)), Eq(SlOff(r), Int(0))))
		st.alloc = na
		x.set(st, fr, v, r)
		return false
	}
	elsrt := sortOf(el)
	oldH := st.H(key)
	inPlace := func(st *State) Val {
		content := Select(oldH, SlArr(base))
		var nc *Term
		if src == nil {
			nc = content
			for i, it := range items {
				nc = Store(nc, Idx(SlOff(base), Add(ln, Int(int64(i)))), it)
			}
		} else {
			nc = Fresh("cnt", arrSort(elsrt))
			p := FreshBV("p", "Int")
			lo := Add(SlOff(base), ln)
			sel := Select(nc, p)
			st.assume(Quant("forall", []*Term{p}, Implies(Or(Lt(p, lo), Le(Add(lo, n), p)), Eq(sel, Select(content, p))), [][]*Term{{sel}}))
			q := FreshBV("q", "Int")
			d := Select(nc, Idx(SlOff(base), Add(ln, q)))
			s := Select(Select(oldH, SlArr(src)), Idx(SlOff(src), q))
			st.assume(Quant("forall", []*Term{q}, Implies(And(Le(Int(0), q), Lt(q, n)), Eq(d, s)), [][]*Term{{s}}))
			// destination-indexed form
			pi := FreshBV("j", "Int")
			dj := Select(nc, Idx(SlOff(base), pi))
			sj := Select(Select(oldH, SlArr(src)), Idx(SlOff(src), Sub(pi, ln)))
			st.assume(Quant("forall", []*Term{pi}, Implies(And(Le(ln, pi), Lt(pi, newLen)), Eq(dj, sj)), [][]*Term{{dj}}))
		}
		st.setH(key, Store(oldH, SlArr(base), nc))
		return MkSlice(SlArr(base), SlOff(base), newLen, SlCap(base))
	}
	realloc := func(st *State) Val {
		arr := x.newRef(st)
		nc := Fresh("cnt", arrSort(elsrt))
		p := FreshBV("p", "Int")
		d := Select(nc, Idx(Int(0), p))
		s := Select(Select(oldH, SlArr(base)), Idx(SlOff(base), p))
		if ln != Int(0) {
			st.assume(Quant("forall", []*Term{p}, Implies(And(Le(Int(0), p), Lt(p, ln)), Eq(d, s)), [][]*Term{{d}, {s}}))
		}
		if src == nil {
			for i, it := range items {
				st.assume(Eq(Select(nc, Idx(Int(0), Add(ln, Int(int64(i))))), it))
			}
		} else {
			q := FreshBV("q", "Int")
			dq := Select(nc, Idx(Int(0), Add(ln, q)))
			sq := Select(Select(oldH, SlArr(src)), Idx(SlOff(src), q))
			st.assume(Quant("forall", []*Term{q}, Implies(And(Le(Int(0), q), Lt(q, n)), Eq(dq, sq)), [][]*Term{{sq}}))
			pi := FreshBV("j", "Int")
			dj := Select(nc, Idx(Int(0), pi))
			sj := Select(Select(oldH, SlArr(src)), Idx(SlOff(src), Sub(pi, ln)))
			st.assume(Quant("forall", []*Term{pi}, Implies(And(Le(ln, pi), Lt(pi, newLen)), Eq(dj, sj)), [][]*Term{{dj}}))
		}
		st.setH(key, Store(oldH, arr, nc))
		cp := Fresh("cap", "Int")
		st.assume(And(Le(newLen, cp), Le(cp, Int(maxLen))))
		return MkSlice(arr, Int(0), newLen, cp)
	}
	st.assume(Le(newLen, Int(maxLen)))
	fits := Le(newLen, SlCap(base))
	if base == NilSlice || SlCap(base) == Int(0) || st.holds(Eq(SlCap(base), Int(0))) {
		if src == nil {
			x.set(st, fr, v, realloc(st))
			return false
		}
		// append(nil, src...): empty source leaves nil
		if n != Int(0) {
			st2 := st.clone()
			st2.assume(Eq(n, Int(0)))
			st.assume(Lt(Int(0), n))
			r := realloc(st)
			k(st, r)
			k(st2, base)
			return true
		}
	}
	if fits == True || st.holds(fits) {
		x.set(st, fr, v, inPlace(st))
		return false
	}
	if fits == False || st.holds(Not(fits)) {
		x.set(st, fr, v, realloc(st))
		return false
	}
	st2 := st.clone()
	st.assume(fits)
	st2.assume(Not(fits))
	x.paths++
	r1 := inPlace(st)
	k(st, r1)
	r2 := realloc(st2)
	k(st2, r2)
	return true
}

func (x *Exec) copyCall(st *State, fr *Frame, v *ssa.Call) {
	args := v.Call.Args
	d := x.tv(st, fr, args[0])
	s := x.tv(st, fr, args[1])
	el := args[0].Type().Underlying().(*types.Slice).Elem()
	key := elemKey(el)
	h := st.H(key)
	var n *Term
	nc := Fresh("cpy", arrSort(sortOf(el)))
	content := Select(h, SlArr(d))
	if s.Sort == "Str" {
		n = Ite(Le(SlLen(d), strLenT(s)), SlLen(d), strLenT(s))
	} else {
		if SlLen(d) == SlLen(s) || st.holds(Eq(SlLen(d), SlLen(s))) {
			n = SlLen(d)
		} else {
			n = Ite(Le(SlLen(d), SlLen(s)), SlLen(d), SlLen(s))
		}
		q := FreshBV("q", "Int")
		dq := Select(nc, Idx(SlOff(d), q))
		hs := h
		for hs.Op == "store" && hs.Args[1] != SlArr(s) && x.provable(st, Not(Eq(hs.Args[1], SlArr(s)))) {
			hs = hs.Args[0] // reads of the source through an earlier heap must match the trigger
		}
		src := Select(hs, SlArr(s))
		sq := Select(src, Idx(SlOff(s), q))
		st.assume(Quant("forall", []*Term{q}, Implies(And(Le(Int(0), q), Lt(q, n)), Eq(dq, sq)), [][]*Term{{dq}, {sq}}))
		// the same fact for positions not written as an offset from the start of the range
		pp := FreshBV("p", "Int")
		dp := Select(nc, pp)
		st.assume(Quant("forall", []*Term{pp}, Implies(And(Le(SlOff(d), pp), Lt(pp, Add(SlOff(d), n))), Eq(dp, Select(src, Add(SlOff(s), Sub(pp, SlOff(d)))))), [][]*Term{{dp}}))
	}
	p := FreshBV("p", "Int")
	sel := Select(nc, p)
	st.assume(Quant("forall", []*Term{p}, Implies(Or(Lt(p, SlOff(d)), Le(Add(SlOff(d), n), p)), Eq(sel, Select(content, p))), [][]*Term{{sel}}))
	st.setH(key, Store(h, SlArr(d), nc))
	x.set(st, fr, v, n)
}

// special handles library functions whose meaning the contract language cannot state.
func (x *Exec) special(st *State, fr *Frame, v *ssa.Call, key string, args []Val, k func(*State, Val)) *bool {
	no := false
	switch key {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
		x.sortCall(st, fr, v, key, args)
		return &no
	case "fmt.Sprintf":
		f, ok := args[0].(*Term)
		ls, ok2 := args[1].(*LocalSlice)
		if ok && ok2 && f.Op == "#s" && f.Name == "%T" && ls.N == 1 {
			content := st.locals[ls.Cell.id].(*Term)
			x.P.TrustedUsed["fmt.Sprintf(%T)"] = true
			x.set(st, fr, v, App("gotypename", "Str", Select(content, Idx(Int(0), Int(0)))))
			return &no
		}
		if ok && ok2 && f.Op == "#s" {
			content := st.locals[ls.Cell.id].(*Term)
			if r := formatText(f.Name, ls.N, func(i int) *Term { return Select(content, Idx(Int(0), Int(int64(i)))) }); r != nil {
				x.P.TrustedUsed["fmt.Sprintf of basic values"] = true
				x.set(st, fr, v, r)
				return &no
			}
		}
	case "fmt.Sprint":
		if ls, ok := args[0].(*LocalSlice); ok && ls.N == 1 {
			if r := formatText("%v", 1, func(int) *Term { return Select(st.locals[ls.Cell.id].(*Term), Idx(Int(0), Int(0))) }); r != nil {
				x.P.TrustedUsed["fmt.Sprintf of basic values"] = true
				x.set(st, fr, v, r)
				return &no
			}
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if len(args) == 1 || args[1] == Val(Int(10)) {
			x.P.TrustedUsed["fmt.Sprintf of basic values"] = true
			x.set(st, fr, v, decText(args[0].(*Term)))
			return &no
		}
	case "strconv.FormatBool":
		x.P.TrustedUsed["fmt.Sprintf of basic values"] = true
		x.set(st, fr, v, sprintf1("%t", Box(types.Typ[types.Bool], args[0].(*Term))))
		return &no
	}
	return nil
}

func sprintf1(f string, a *Term) *Term {
	declFun("uf_sprintf1", "Str", "Str", "Any")
	return App("uf_sprintf1", "Str", StrLit(f), a)
}

// decText is the decimal text of an integer.
func decText(t *Term) *Term {
	declFun("uf_dectext", "Str", "Int")
	return App("uf_dectext", "Str", t)
}

// formatText is the text fmt.Sprintf makes of basic values: the pieces of the
// format joined; nil where the format or an argument is not covered.
func formatText(format string, n int, arg func(int) *Term) *Term {
	r, next := StrLit(""), 0
	lit := ""
	flush := func() {
		if lit != "" {
			r = strCat(r, StrLit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if !strings.ContainsRune("sdtcvq", rune(format[i])) || next >= n {
			return nil
		}
		verb := "%" + string(format[i])
		a := arg(next)
		next++
		var b *boxInfo
		for _, k := range boxOrder {
			if bi := boxTab[k]; bi.ctor == a.Op {
				b = bi
			}
		}
		if b == nil {
			return nil
		}
		bt, basic := b.typ.(*types.Basic)
		if !basic {
			return nil
		}
		flush()
		switch {
		case bt.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
			r = strCat(r, a.Args[0])
		case bt.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
			r = strCat(r, decText(a.Args[0]))
		case bt.Info()&types.IsBoolean != 0 && (verb == "%t" || verb == "%v"):
			r = strCat(r, sprintf1("%t", a))
		default:
			r = strCat(r, sprintf1(verb, a))
		}
	}
	if next != n {
		return nil
	}
	flush()
	return r
}

// strCat joins two texts, to the left, with neighbouring literals joined.
func strCat(a, b *Term) *Term {
	switch {
	case a.Op == "#s" && a.Name == "":
		return b
	case b.Op == "#s" && b.Name == "":
		return a
	case a.Op == "#s" && b.Op == "#s":
		return StrLit(a.Name + b.Name)
	case b.Op == "strcat":
		return strCat(strCat(a, b.Args[0]), b.Args[1])
	case a.Op == "strcat" && a.Args[1].Op == "#s" && b.Op == "#s":
		return strCat(a.Args[0], StrLit(a.Args[1].Name+b.Name))
	}
	return mk("strcat", "", "Str", a, b)
}

// installTexts: the %d text of a boxed integer is its decimal text, whatever its type.
func installTexts() {
	declFun("uf_sprintf1", "Str", "Str", "Any")
	declFun("uf_dectext", "Str", "Int")
	a := BVar("a?", "Any")
	n := mk("uf_sprintf1", "", "Str", StrLit("%d"), a)
	var cs []*Term
	for _, k := range boxOrder {
		b := boxTab[k]
		if bt, ok := b.typ.(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			cs = append(cs, Implies(mk("is", b.ctor, "Bool", a), Eq(n, mk("uf_dectext", "", "Str", mk(b.acc, "", "Int", a)))))
		}
	}
	if len(cs) > 0 {
		funAxioms["uf_sprintf1"] = []*Term{Quant("forall", []*Term{a}, And(cs...), [][]*Term{{n}})}
	}
}

// installTypeNames: the %T text of a value is the text of its dynamic type, and
// distinct dynamic types have distinct texts.
func installTypeNames() {
	declFun("gotypename", "Str", "Any")
	a := BVar("a?", "Any")
	n := mk("gotypename", "", "Str", a)
	var cs []*Term
	for _, k := range boxOrder {
		b := boxTab[k]
		txt := types.TypeString(b.typ, func(p *types.Package) string { return p.Name() })
		txt = byteWord.ReplaceAllString(runeWord.ReplaceAllString(txt, "int32"), "uint8")
		lit := StrLit(txt)
		cs = append(cs, Implies(IsBox(b.typ, a), Eq(n, lit)), Implies(Eq(n, lit), IsBox(b.typ, a)))
	}
	cs = append(cs, Implies(Eq(a, AnyNil), Eq(n, StrLit("<nil>"))))
	for _, never := range []string{"byte", "rune", "[]byte", "*Table", ""} {
		cs = append(cs, Ne(n, StrLit(never))) // %T never prints these
	}
	funAxioms["gotypename"] = []*Term{Quant("forall", []*Term{a}, And(cs...), [][]*Term{{n}})}
}

// mentions reports whether v occurs in t.
func mentions(t, v *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ours: the function is in the package under verification (or wraps a method of it).
func (x *Exec) ours(f *ssa.Function) bool {
	return f.Pkg == x.P.SPkg || f.Pkg == nil && len(f.Blocks) > 0 && f.Object() != nil && f.Object().Pkg() == x.P.SPkg.Pkg
}
