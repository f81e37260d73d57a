package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Fn         string
	Kind       string
	Name       string
	Pos        string
	Pc         []*Term
	Goal       *Term
	Parts      []*Oblig // individually named parts of a conjunction
	Values     []*Term  // terms whose model values are reported
	ValueNames []string
	Timeout    int
	Trace      []string
	// result
	Status    string // proved, failed, unknown
	Solver    string
	Ms        int64
	ModelVals map[string]string
	Query     string
}

func (o *Oblig) ID() string { return o.Fn + "#" + o.Kind + ":" + o.Name }

type Frame struct {
	id      int
	fn      *ssa.Function
	li      *loopInfo
	depth   int
	free    []Val
	parent  *Frame
	callBlk *ssa.BasicBlock
}

type Cont func(st *State, rets []Val)

type loopCtx struct {
	fr    int
	l     *loop
	check bool
	back  func(st *State, pred *ssa.BasicBlock)
}

type Exec struct {
	identSet    map[string]bool
	dropped     map[string]bool // loop candidates already refuted on a path
	P           *Program
	S           *Solver
	fn          *ssa.Function
	key         string
	con         *Contract
	obls        []*Oblig
	frames      int
	cells       int
	suppress    int
	ctx         []*loopCtx
	entry       *HeapView
	params      map[string]SVal
	paths       int
	steps       int
	stack       []string
	retPaths    int
	notes       map[string]bool
	inl         int
	modKeysMemo map[*ssa.Function]map[string]bool
	values      []*Term
	valueNames  []string
	loopInfoOut []string
	termOut     []string
	covers      []*Oblig
	maxPaths    int
	closures    map[int]*Closure // function literals by identity
	noGinv      bool
}

func (x *Exec) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if st.holds(goal) {
		return
	}
	if x.suppress == 0 {
		o := &Oblig{Fn: x.key, Kind: kind, Name: name, Pos: posStr(x.P, pos), Pc: st.pcList(), Goal: goal, Trace: append([]string{}, st.trace...)}
		o.Values, o.ValueNames = x.values, x.valueNames
		if x.con != nil {
			o.Timeout = x.con.Timeout
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// ---- registers ----

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Function:
		return &Closure{Fn: c, ID: x.P.funcID(funcKey(c))}
	case *ssa.Global:
		return &Addr{Kind: "global", Key: globalKey(c), Typ: c.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return c
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				if i < len(fr.free) {
					return fr.free[i]
				}
			}
		}
		fail("free variable %s without binding", c.Name())
	}
	r, ok := st.regs[regKey{fr.id, v}]
	if !ok {
		fail("register %s (%s) undefined in %s", v.Name(), v, fr.fn)
	}
	return r
}

// term coerces a Val to an SMT term.
func (x *Exec) term(st *State, v Val) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *Closure:
		if t.ID == nil {
			t.ID = Fresh("fn", "Int")
			st.assume(Lt(Int(1000000), t.ID))
			if x.closures == nil {
				x.closures = map[int]*Closure{}
			}
			x.closures[t.ID.ID] = t
		}
		return t.ID
	case *LocalSlice:
		return x.materialize(st, t)
	case *Addr:
		if t.Kind == "cell" && len(t.Path) == 0 {
			return t.Obj
		}
		fail("interior pointer used as a value (%s)", t.Kind)
	case Tuple:
		fail("tuple used as term")
	}
	fail("value %T used as term", v)
	return nil
}
func (x *Exec) tv(st *State, fr *Frame, v ssa.Value) *Term { return x.term(st, x.val(st, fr, v)) }

func (x *Exec) set(st *State, fr *Frame, v ssa.Value, r Val) { st.regs[regKey{fr.id, v}] = r }

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

func (x *Exec) materialize(st *State, ls *LocalSlice) *Term {
	arr := x.newRef(st)
	key := elemKey(ls.Elem)
	content := st.locals[ls.Cell.id].(*Term)
	st.setH(key, Store(st.H(key), arr, content))
	return MkSlice(arr, Int(0), Int(int64(ls.N)), Int(int64(ls.N)))
}

// ---- memory ----

func (x *Exec) stepGet(v *Term, s step) *Term {
	if s.idx != nil {
		return Select(v, s.idx)
	}
	si := structSort(s.typ)
	return App(si.fields[s.field], si.sorts[s.field], v)
}
func (x *Exec) stepSet(v *Term, path []step, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	in := x.stepSet(x.stepGet(v, s), path[1:], nv)
	if s.idx != nil {
		return Store(v, s.idx, in)
	}
	si := structSort(s.typ)
	args := make([]*Term, len(si.fields))
	for i := range si.fields {
		if i == s.field {
			args[i] = in
		} else {
			args[i] = App(si.fields[i], si.sorts[i], v)
		}
	}
	return mk(si.ctor, "", si.name, args...)
}

func (x *Exec) rootGet(st *State, a *Addr) Val {
	switch a.Kind {
	case "field", "cell":
		return Select(st.H(a.Key), a.Obj)
	case "elem":
		return Select(Select(st.H(a.Key), a.Obj), a.Idx)
	case "global":
		return st.H(a.Key)
	case "local":
		return st.locals[a.Cell.id]
	}
	fail("load from %s", a.Kind)
	return nil
}
func (x *Exec) rootSet(st *State, a *Addr, v Val) {
	switch a.Kind {
	case "field", "cell":
		st.setH(a.Key, Store(st.H(a.Key), a.Obj, x.term(st, v)))
	case "elem":
		h := st.H(a.Key)
		st.setH(a.Key, Store(h, a.Obj, Store(Select(h, a.Obj), a.Idx, x.term(st, v))))
	case "global":
		st.setH(a.Key, x.term(st, v))
	case "local":
		switch v.(type) {
		case *Addr, *Closure, Tuple, *LocalSlice:
			st.locals[a.Cell.id] = v
		default:
			st.locals[a.Cell.id] = x.term(st, v)
		}
	default:
		fail("store to %s", a.Kind)
	}
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	switch a := p.(type) {
	case *Addr:
		v := x.rootGet(st, a)
		if a.Kind == "global" && !x.noGinv {
			for _, g := range x.P.ginvLoad[a.Key] {
				usedAxioms[axOwner[g.ID]] = true
				st.assume(g)
			}
		}
		if len(a.Path) == 0 {
			if tm, ok := v.(*Term); ok {
				x.loadFacts(st, t, tm)
			}
			return v
		}
		tm := x.term(st, v)
		for _, s := range a.Path {
			tm = x.stepGet(tm, s)
		}
		x.loadFacts(st, t, tm)
		return tm
	case *Term:
		if _, ok := structOf(t); ok {
			si := structSort(t)
			args := make([]*Term, len(si.fields))
			for i := range si.fields {
				args[i] = Select(st.H(fieldKey(t, i)), a)
			}
			v := mk(si.ctor, "", si.name, args...)
			x.loadFacts(st, t, v)
			return v
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return Select(st.H(elemKey(at.Elem())), a)
		}
		v := Select(st.H(cellKey(t)), a)
		x.loadFacts(st, t, v)
		return v
	}
	fail("load through %T", p)
	return nil
}

func (x *Exec) loadFacts(st *State, t types.Type, v *Term) {
	if _, isIf := t.Underlying().(*types.Interface); isIf {
		return
	}
	st.assume(typeFacts(t, v, st.alloc))
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch a := p.(type) {
	case *Addr:
		if len(a.Path) == 0 {
			x.rootSet(st, a, v)
			return
		}
		root := x.term(st, x.rootGet(st, a))
		x.rootSet(st, a, x.stepSet(root, a.Path, x.term(st, v)))
	case *Term:
		if _, ok := structOf(t); ok {
			si := structSort(t)
			tv := x.term(st, v)
			for i := range si.fields {
				k := fieldKey(t, i)
				st.setH(k, Store(st.H(k), a, App(si.fields[i], si.sorts[i], tv)))
			}
			return
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			k := elemKey(at.Elem())
			st.setH(k, Store(st.H(k), a, x.term(st, v)))
			return
		}
		k := cellKey(t)
		st.setH(k, Store(st.H(k), a, x.term(st, v)))
	default:
		fail("store through %T", p)
	}
}

// localAlloc reports whether an allocation never escapes the executor's view.
func localAlloc(a *ssa.Alloc) bool {
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil {
			return true
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Val == v {
					return false
				}
			case *ssa.UnOp:
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !ok(u, d+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !ok(u, d+1) {
					return false
				}
			case *ssa.Slice:
				if d > 0 || (a.Comment != "varargs" && a.Comment != "slicelit") {
					return false
				}
			case *ssa.MakeClosure:
				if d > 0 {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a, 0)
}

// ---- blocks ----

func (x *Exec) leave(fr int, b *ssa.BasicBlock, isRet bool) bool {
	// in check mode, control leaving the innermost check loop is cut
	for i := len(x.ctx) - 1; i >= 0; i-- {
		c := x.ctx[i]
		if c.fr == fr && c.check {
			if isRet || !c.l.blocks[b] {
				return true
			}
		}
	}
	return false
}

func (x *Exec) block(st *State, fr *Frame, b, pred *ssa.BasicBlock, k Cont) {
	if st.dead() {
		return
	}
	if x.leave(fr.id, b, false) {
		return
	}
	x.steps++
	if x.steps > 60000 {
		fail("execution budget exceeded")
	}
	if l := fr.li.loops[b]; l != nil {
		for i := len(x.ctx) - 1; i >= 0; i-- {
			c := x.ctx[i]
			if c.fr == fr.id && c.l == l {
				c.back(st, pred)
				return
			}
		}
		x.loop(st, fr, l, pred, k)
		return
	}
	x.phis(st, fr, b, pred)
	x.instrs(st, fr, b, 0, k)
}

func (x *Exec) phis(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == pred {
				phis = append(phis, p)
				vals = append(vals, x.val(st, fr, p.Edges[i]))
				break
			}
		}
	}
	for i, p := range phis {
		x.set(st, fr, p, vals[i])
		if p.Comment != "" {
			st.names[nameKey{fr.id, p.Comment}] = nameVal{v: vals[i], typ: p.Type()}
		}
	}
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead() {
			return
		}
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.Phi:
		case *ssa.DebugRef:
			x.debugRef(st, fr, v)
		case *ssa.If:
			c := x.tv(st, fr, v.Cond)
			if c == True || st.holds(c) {
				x.block(st, fr, b.Succs[0], b, k)
				return
			}
			if c == False || st.holds(Not(c)) {
				x.block(st, fr, b.Succs[1], b, k)
				return
			}
			st2 := st.clone()
			st.assume(c)
			st2.assume(Not(c))
			at := fmt.Sprintf("%s@%s", fr.fn.Name(), posStr(x.P, v.Cond.Pos()))
			st.trace = append(st.trace, at+":true")
			st2.trace = append(st2.trace, at+":false")
			x.paths++
			if x.paths > 40 {
				inf := x.S.Batch([]query{{BuildQuery(st.pcList(), False, nil), 150}, {BuildQuery(st2.pcList(), False, nil), 150}})
				if inf[0] {
					x.block(st2, fr, b.Succs[1], b, k)
					return
				}
				if inf[1] {
					x.block(st, fr, b.Succs[0], b, k)
					return
				}
			}
			if x.paths > x.maxPaths {
				fail("too many paths")
			}
			x.block(st, fr, b.Succs[0], b, k)
			x.block(st2, fr, b.Succs[1], b, k)
			return
		case *ssa.Jump:
			x.block(st, fr, b.Succs[0], b, k)
			return
		case *ssa.Return:
			if x.leave(fr.id, nil, true) {
				return
			}
			var rets []Val
			for _, r := range v.Results {
				rets = append(rets, x.val(st, fr, r))
			}
			k(st, rets)
			return
		case *ssa.Panic:
			x.panics(st, fr, v.Pos(), "panic")
			return
		case *ssa.RunDefers:
		case *ssa.Defer:
			if c, ok := v.Call.Value.(*ssa.Function); ok && c.Pkg != nil && c.Pkg.Pkg.Name() != "gotables" {
				x.note("deferred external call %s ignored", c)
				continue
			}
			fail("defer")
		case *ssa.Go, *ssa.Send, *ssa.Select:
			fail("concurrency instruction %T", in)
		case *ssa.Call:
			done := x.call(st, fr, v, func(st2 *State, r Val) {
				x.set(st2, fr, v, r)
				x.instrs(st2, fr, b, i+1, k)
			})
			if !done {
				continue
			}
			return
		case *ssa.Store:
			x.checkAddr(st, x.val(st, fr, v.Addr), v.Pos())
			x.store(st, x.val(st, fr, v.Addr), deref(v.Addr.Type()), x.val(st, fr, v.Val))
		case *ssa.MapUpdate:
			x.mapUpdate(st, fr, v)
		default:
			if val, ok := in.(ssa.Value); ok {
				r := x.simple(st, fr, val)
				if st.dead() {
					return
				}
				x.set(st, fr, val, r)
			} else {
				fail("instruction %T", in)
			}
		}
	}
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (x *Exec) panics(st *State, fr *Frame, pos token.Pos, what string) {
	if x.con != nil && len(x.con.Panics()) > 0 {
		env := x.env(st)
		env.cur = x.entry
		for i, c := range x.con.Panics() {
			x.oblige(st, "panic-only-if", clauseName(c, i), pos, env.Bool(c.E))
		}
		return
	}
	if x.con != nil && x.con.MayPanic {
		return
	}
	x.oblige(st, "no-panic", what, pos, False)
}

func clauseName(c *Clause, i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("%d", i+1)
}

func (x *Exec) debugRef(st *State, fr *Frame, d *ssa.DebugRef) {
	o := d.Object()
	if o == nil {
		return
	}
	if _, ok := o.(*types.Var); !ok {
		return
	}
	if _, isG := d.X.(*ssa.Global); isG {
		return
	}
	var v Val
	func() {
		defer func() {
			if r := recover(); r != nil {
				v = nil
			}
		}()
		v = x.val(st, fr, d.X)
	}()
	if v == nil {
		return
	}
	st.names[nameKey{fr.id, o.Name()}] = nameVal{v: v, addr: d.IsAddr, typ: o.Type()}
}

func (x *Exec) checkAddr(st *State, a Val, pos token.Pos) {
	if t, ok := a.(*Term); ok {
		x.oblige(st, "nil-deref", "pointer", pos, Ne(t, Int(0)))
	}
}

func (x *Exec) simple(st *State, fr *Frame, in ssa.Value) Val {
	switch v := in.(type) {
	case *ssa.Alloc:
		t := deref(v.Type())
		if localAlloc(v) {
			x.cells++
			c := &LocalCell{id: x.cells, typ: t, blk: v, fr: fr.id}
			st.locals[c.id] = zeroOf(t)
			return &Addr{Kind: "local", Cell: c, Typ: t}
		}
		a := x.allocHeap(st, t)
		x.ghostInit(st, t, a)
		return a
	case *ssa.BinOp:
		return x.binop(st, fr, v)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if g, ok := v.X.(*ssa.Global); ok && !x.P.stored[g] {
				if _, isMap := v.Type().Underlying().(*types.Map); !isMap {
					// never reassigned: an uninterpreted constant
					c := st.H(globalKey(g))
					st.assume(typeFacts(v.Type(), c, st.alloc))
					if c.Sort == "Int" && refLike(v.Type()) {
						x.note("package variable %s assumed initialised (non-nil)", g.Name())
						st.assume(Lt(Int(0), c))
					}
					return c
				}
			}
			a := x.val(st, fr, v.X)
			x.checkAddr(st, a, v.Pos())
			return x.load(st, a, v.Type())
		case token.NOT:
			return Not(x.tv(st, fr, v.X))
		case token.SUB:
			t := x.tv(st, fr, v.X)
			if t.Sort == "F64" || t.Sort == "F32" {
				return App2("neg_"+t.Sort, t.Sort, t)
			}
			return wrapTo(v.Type(), Neg(t))
		case token.XOR:
			return App2("bitnot", "Int", x.tv(st, fr, v.X))
		}
		fail("unop %s", v.Op)
	case *ssa.ChangeType:
		return x.val(st, fr, v.X)
	case *ssa.ChangeInterface:
		return x.val(st, fr, v.X)
	case *ssa.MakeInterface:
		r := x.val(st, fr, v.X)
		return Box(v.X.Type(), x.term(st, r))
	case *ssa.Convert:
		return x.convert(st, fr, v)
	case *ssa.Extract:
		t, ok := x.val(st, fr, v.Tuple).(Tuple)
		if !ok {
			fail("extract from %T", x.val(st, fr, v.Tuple))
		}
		return t[v.Index]
	case *ssa.Field:
		si := structSort(v.X.Type())
		return App(si.fields[v.Field], si.sorts[v.Field], x.tv(st, fr, v.X))
	case *ssa.FieldAddr:
		base := x.val(st, fr, v.X)
		stT := deref(v.X.Type())
		switch a := base.(type) {
		case *Term:
			x.oblige(st, "nil-deref", fieldName(stT, v.Field), v.Pos(), Ne(a, Int(0)))
			if _, ok := structOf(stT); !ok {
				fail("field of opaque struct %s", stT)
			}
			return &Addr{Kind: "field", Key: fieldKey(stT, v.Field), Obj: a, Typ: structSort(stT).types[v.Field]}
		case *Addr:
			n := *a
			if _, ok := structOf(stT); !ok {
				fail("field of opaque struct %s", stT)
			}
			n.Path = append(append([]step{}, a.Path...), step{field: v.Field, typ: stT})
			return &n
		}
		fail("fieldaddr of %T", base)
	case *ssa.IndexAddr:
		i := x.tv(st, fr, v.Index)
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.tv(st, fr, v.X)
			x.oblige(st, "index", "in-bounds", v.Pos(), And(Le(Int(0), i), Lt(i, SlLen(s))))
			return &Addr{Kind: "elem", Key: elemKey(u.Elem()), Obj: SlArr(s), Idx: Idx(SlOff(s), i), Typ: u.Elem()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.oblige(st, "index", "in-bounds", v.Pos(), And(Le(Int(0), i), Lt(i, Int(at.Len()))))
			base := x.val(st, fr, v.X)
			switch a := base.(type) {
			case *Addr:
				n := *a
				n.Path = append(append([]step{}, a.Path...), step{idx: Idx(Int(0), i), typ: u.Elem()})
				return &n
			case *Term:
				return &Addr{Kind: "elem", Key: elemKey(at.Elem()), Obj: a, Idx: Idx(Int(0), i), Typ: at.Elem()}
			}
		}
		fail("indexaddr")
	case *ssa.Index:
		i := x.tv(st, fr, v.Index)
		s := x.tv(st, fr, v.X)
		if s.Sort == "Str" {
			x.oblige(st, "index", "string", v.Pos(), And(Le(Int(0), i), Lt(i, strLenT(s))))
			r := App("strat", "Int", s, i)
			st.assume(inRange(types.Typ[types.Uint8], r))
			return r
		}
		return Select(s, Idx(Int(0), i))
	case *ssa.Lookup:
		return x.lookup(st, fr, v)
	case *ssa.MakeSlice:
		n, c := x.tv(st, fr, v.Len), x.tv(st, fr, v.Cap)
		x.oblige(st, "makeslice", "len", v.Pos(), And(Le(Int(0), n), Le(n, c)))
		el := v.Type().Underlying().(*types.Slice).Elem()
		st.assume(Le(c, Int(maxLen))) // larger requests cannot succeed (assumption: memory bound)
		arr := x.newRef(st)
		k := elemKey(el)
		st.setH(k, Store(st.H(k), arr, ConstArr(arrSort(sortOf(el)), zeroOf(el))))
		return MkSlice(arr, Int(0), n, c)
	case *ssa.MakeMap:
		mt := v.Type().Underlying().(*types.Map)
		md, mv, ml := mapKeys(mt)
		r := x.newRef(st)
		st.setH(md, Store(st.H(md), r, ConstArr(arrElemSort(heapTab[md].srt), False)))
		_ = mv
		st.setH(ml, Store(st.H(ml), r, Int(0)))
		return r
	case *ssa.MakeClosure:
		c := &Closure{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			c.Bind = append(c.Bind, x.val(st, fr, b))
		}
		return c
	case *ssa.Slice:
		return x.slice(st, fr, v)
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, v)
	case *ssa.Range:
		iv := &IterVal{X: x.val(st, fr, v.X), Typ: v.X.Type()}
		x.cells++
		iv.Pos = &LocalCell{id: x.cells, typ: tInt, fr: fr.id}
		st.locals[iv.Pos.id] = Int(0)
		if mt, ok := iv.Typ.Underlying().(*types.Map); ok {
			// the keys produced so far, and the keys there were at the start
			md, _, _ := mapKeys(mt)
			st.locals[iv.Pos.id] = ConstArr(arrElemSort(heapTab[md].srt), False)
			iv.Dom0 = Select(st.H(md), x.term(st, iv.X))
		}
		return iv
	case *ssa.Next:
		return x.nextIter(st, fr, v)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.MakeChan:
		fail("instruction %T", in)
	}
	fail("instruction %T", in)
	return nil
}

func fieldName(t types.Type, i int) string {
	if s, ok := structOf(t); ok {
		return s.Field(i).Name()
	}
	return "?"
}

func App2(fn, srt string, args ...*Term) *Term {
	if _, ok := funSigs[fn]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.Sort)
		}
		declFun(fn, srt, as...)
	}
	return mk(fn, "", srt, args...)
}

func (x *Exec) allocHeap(st *State, t types.Type) Val {
	r := x.newRef(st)
	if _, ok := structOf(t); ok {
		si := structSort(t)
		for i := range si.fields {
			k := fieldKey(t, i)
			st.setH(k, Store(st.H(k), r, zeroOf(si.types[i])))
		}
		return r
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		k := elemKey(at.Elem())
		st.setH(k, Store(st.H(k), r, ConstArr(arrSort(sortOf(at.Elem())), zeroOf(at.Elem()))))
		return r
	}
	k := cellKey(t)
	st.setH(k, Store(st.H(k), r, zeroOf(t)))
	return r
}

func (x *Exec) binop(st *State, fr *Frame, v *ssa.BinOp) Val {
	xv, yv := x.val(st, fr, v.X), x.val(st, fr, v.Y)
	// comparisons of function values with nil
	if c, ok := xv.(*Closure); ok && (v.Op == token.EQL || v.Op == token.NEQ) {
		if y, ok := yv.(*Term); ok && y == Int(0) {
			_ = c
			return BoolT(v.Op == token.NEQ)
		}
	}
	if a, ok := xv.(*Addr); ok && a.Kind != "cell" && (v.Op == token.EQL || v.Op == token.NEQ) {
		if y, ok := yv.(*Term); ok && y == Int(0) {
			return BoolT(v.Op == token.NEQ)
		}
	}
	if ls, ok := xv.(*LocalSlice); ok {
		if y, ok := yv.(*Term); ok && y == NilSlice {
			_ = ls
			return BoolT(v.Op == token.NEQ)
		}
	}
	a, b := x.term(st, xv), x.term(st, yv)
	t := v.X.Type()
	switch v.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if a.Sort != b.Sort {
			// mixed interface/concrete comparison
			if a.Sort == "Any" {
				b = Box(v.Y.Type(), b)
			} else if b.Sort == "Any" {
				a = Box(v.X.Type(), a)
			} else {
				fail("comparison of %s and %s", a.Sort, b.Sort)
			}
		}
		if a.Sort == "Slice" {
			// only comparison with nil is legal
			if a == NilSlice {
				a, b = b, a
			}
			r = Eq(SlArr(a), Int(0))
		} else if a.Sort == "Any" && a != AnyNil && b != AnyNil {
			// panics when both hold the same uncomparable dynamic type
			for _, k := range boxOrder {
				bi := boxTab[k]
				if !types.Comparable(bi.typ) {
					x.oblige(st, "no-panic", "comparing-uncomparable-"+k, v.Pos(), Not(And(IsC(bi.ctor, a), IsC(bi.ctor, b))))
				}
			}
			r = goEq(a, b)
		} else {
			r = goEq(a, b)
		}
		if v.Op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := v.Op
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		switch a.Sort {
		case "Int":
			if op == token.LSS {
				return Lt(a, b)
			}
			return Le(a, b)
		case "F64", "F32":
			if op == token.LSS {
				return fpRel("lt", a, b)
			}
			return fpRel("leq", a, b)
		case "Str":
			if op == token.LSS {
				return strLt(a, b)
			}
			return Not(strLt(b, a))
		}
	case token.ADD:
		switch a.Sort {
		case "Int":
			return x.arith(st, v.Type(), Add(a, b))
		case "Str":
			return strCat(a, b)
		case "F64", "F32":
			return App2("add_"+a.Sort, a.Sort, a, b)
		}
	case token.SUB:
		if a.Sort == "Int" {
			return x.arith(st, v.Type(), Sub(a, b))
		}
		return App2("sub_"+a.Sort, a.Sort, a, b)
	case token.MUL:
		if a.Sort == "Int" {
			return x.arith(st, v.Type(), Mul(a, b))
		}
		return App2("mul_"+a.Sort, a.Sort, a, b)
	case token.QUO:
		if a.Sort == "Int" {
			x.oblige(st, "no-panic", "division-by-zero", v.Pos(), Ne(b, Int(0)))
			// Go truncates toward zero
			n, ok := isInt(b)
			if ok && n.Sign() > 0 {
				q := mk("div", "", "Int", a, b)
				qn := Neg(mk("div", "", "Int", Neg(a), b))
				if st.holds(Le(Int(0), a)) {
					return q
				}
				return Ite(Le(Int(0), a), q, qn)
			}
			return App2("godiv", "Int", a, b)
		}
		return App2("div_"+a.Sort, a.Sort, a, b)
	case token.REM:
		x.oblige(st, "no-panic", "division-by-zero", v.Pos(), Ne(b, Int(0)))
		n, ok := isInt(b)
		if ok && n.Sign() > 0 {
			return Ite(Le(Int(0), a), mk("mod", "", "Int", a, b), Neg(mk("mod", "", "Int", Neg(a), b)))
		}
		return App2("gorem", "Int", a, b)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if a.Sort == "Bool" {
			if v.Op == token.AND {
				return And(a, b)
			}
			return Or(a, b)
		}
		if v.Op == token.SHL {
			if n, ok := isInt(b); ok && n.IsInt64() && n.Int64() < 64 {
				c := constant.Shift(constant.MakeInt64(1), token.SHL, uint(n.Int64()))
				return wrapTo(v.Type(), Mul(a, IntBig(c.ExactString())))
			}
		}
		r := App2("bit_"+sanitize(strings.Map(func(r rune) rune {
			switch r {
			case '&':
				return 'a'
			case '|':
				return 'o'
			case '^':
				return 'x'
			case '<':
				return 'l'
			case '>':
				return 'r'
			}
			return r
		}, v.Op.String())), "Int", a, b)
		st.assume(inRange(v.Type(), r))
		return r
	}
	fail("binop %s on %s", v.Op, t)
	return nil
}

// arith keeps machine arithmetic exact: when the mathematical result provably
// fits it is used directly, otherwise it is wrapped.
func (x *Exec) arith(st *State, t types.Type, r *Term) *Term {
	rg := inRange(t, r)
	if rg == True || st.holds(rg) {
		return r
	}
	if rg != False && x.provable(st, rg) {
		st.assume(rg)
		return r
	}
	return wrapTo(t, r)
}

func (x *Exec) convert(st *State, fr *Frame, v *ssa.Convert) Val {
	from, to := v.X.Type().Underlying(), v.Type().Underlying()
	a := x.val(st, fr, v.X)
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		t := x.term(st, a)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			rg := inRange(v.Type(), t)
			if lo1, hi1, ok := intRange(v.X.Type()); ok {
				if lo2, hi2, ok := intRange(v.Type()); ok && lo2.Cmp(lo1) <= 0 && hi2.Cmp(hi1) >= 0 {
					return t
				}
			}
			if st.holds(rg) || rg == True {
				return t
			}
			if x.provable(st, rg) {
				return t
			}
			return wrapTo(v.Type(), t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App2("i2"+sortOf(v.Type()), sortOf(v.Type()), t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := App2(t.Sort+"2i_"+basicNames[tb.Kind()], "Int", t)
			st.assume(inRange(v.Type(), r))
			return r
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if t.Sort == sortOf(v.Type()) {
				return t
			}
			if t.Sort == "F32" {
				return fpWiden(t)
			}
			// abstract: only NaN-ness of the narrowing conversion is used
			return fpNarrow(t)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return sprintf1("%c", Box(types.Typ[types.Int32], t))
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok {
			s := x.term(st, a)
			arr := x.newRef(st)
			k := elemKey(sl.Elem())
			n := Fresh("n", "Int")
			if typeKey(sl.Elem()) == "uint8" {
				n = strLenT(s)
				st.assume(And(Le(Int(0), n), Le(n, Int(maxLen))))
				st.setH(k, Store(st.H(k), arr, App2("strbytes", "(Array Int Int)", s)))
			} else {
				st.assume(And(Le(Int(0), n), Le(n, strLenT(s))))
				st.setH(k, Store(st.H(k), arr, App2("strrunes", "(Array Int Int)", s)))
			}
			return MkSlice(arr, Int(0), n, n)
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if sl, ok := from.(*types.Slice); ok {
			s := x.term(st, a)
			k := elemKey(sl.Elem())
			return App2("bytesstr", "Str", Select(st.H(k), SlArr(s)), SlOff(s), SlLen(s))
		}
	}
	if sortOf(v.X.Type()) == sortOf(v.Type()) {
		return a
	}
	fail("conversion %s -> %s", v.X.Type(), v.Type())
	return nil
}

func (x *Exec) lookup(st *State, fr *Frame, v *ssa.Lookup) Val {
	mt, ok := v.X.Type().Underlying().(*types.Map)
	if !ok {
		s, i := x.tv(st, fr, v.X), x.tv(st, fr, v.Index)
		x.oblige(st, "index", "string", v.Pos(), And(Le(Int(0), i), Lt(i, strLenT(s))))
		return App("strat", "Int", s, i)
	}
	key := x.tv(st, fr, v.Index)
	var dom, val *Term
	if u, ok := v.X.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if ents, ok := x.P.constG[g]; ok {
				var ks []string
				for k := range ents {
					ks = append(ks, k)
				}
				sortStrings(ks)
				dom = False
				val = zeroOf(mt.Elem())
				for i := len(ks) - 1; i >= 0; i-- {
					e := Eq(key, StrLit(ks[i]))
					dom = Or(dom, e)
					val = Ite(e, ents[ks[i]].(*Term), val)
				}
			}
		}
	}
	if dom == nil {
		m := x.tv(st, fr, v.X)
		md, mv, _ := mapKeys(mt)
		d := Select(Select(st.H(md), m), key)
		dom = And(Ne(m, Int(0)), d)
		raw := Select(Select(st.H(mv), m), key)
		val = Ite(dom, raw, zeroOf(mt.Elem()))
		if _, isIf := mt.Elem().Underlying().(*types.Interface); !isIf {
			st.assume(typeFacts(mt.Elem(), raw, st.alloc))
		}
	}
	if v.CommaOk {
		return Tuple{val, dom}
	}
	return val
}

func (x *Exec) mapUpdate(st *State, fr *Frame, v *ssa.MapUpdate) {
	mt := v.Map.Type().Underlying().(*types.Map)
	m, key, val := x.tv(st, fr, v.Map), x.tv(st, fr, v.Key), x.tv(st, fr, v.Value)
	x.oblige(st, "nil-map-write", "map", v.Pos(), Ne(m, Int(0)))
	md, mv, ml := mapKeys(mt)
	dom := Select(st.H(md), m)
	st.setH(ml, Store(st.H(ml), m, Ite(Select(dom, key), Select(st.H(ml), m), Add(Select(st.H(ml), m), Int(1)))))
	st.setH(md, Store(st.H(md), m, Store(dom, key, True)))
	st.setH(mv, Store(st.H(mv), m, Store(Select(st.H(mv), m), key, val)))
}

func (x *Exec) slice(st *State, fr *Frame, v *ssa.Slice) Val {
	base := x.val(st, fr, v.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.tv(st, fr, o)
	}
	lo, hi, mx := opt(v.Low), opt(v.High), opt(v.Max)
	switch u := v.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		n := int(at.Len())
		if a, ok := base.(*Addr); ok {
			if lo != nil || mx != nil {
				fail("slice of local array with bounds")
			}
			if hi != nil {
				if h, ok := isInt(hi); !ok || h.Int64() != at.Len() {
					// make([]T, n, const) lowered to new [c]T then slice to len
					fail("slice of local array with bounds")
				}
			}
			if a.Kind != "local" || len(a.Path) > 0 {
				fail("slice of array field")
			}
			return x.localSliceOrHeap(st, v, &LocalSlice{Cell: a.Cell, N: n, Elem: at.Elem()})
		}
		arr := base.(*Term)
		l, h := Int(0), Int(int64(n))
		if lo != nil {
			l = lo
		}
		if hi != nil {
			h = hi
		}
		x.oblige(st, "slice-bounds", "array", v.Pos(), And(Le(Int(0), l), Le(l, h), Le(h, Int(int64(n)))))
		return MkSlice(arr, l, Sub(h, l), Sub(Int(int64(n)), l))
	case *types.Basic: // string
		s := x.term(st, base)
		l := Int(0)
		if lo != nil {
			l = lo
		}
		h := strLenT(s)
		if hi != nil {
			h = hi
		}
		x.oblige(st, "slice-bounds", "string", v.Pos(), And(Le(Int(0), l), Le(l, h), Le(h, strLenT(s))))
		if lo == nil && hi == nil {
			return s
		}
		r := App("substr", "Str", s, l, h)
		return r
	case *types.Slice:
		s := x.term(st, base)
		l := Int(0)
		if lo != nil {
			l = lo
		}
		h := SlLen(s)
		if hi != nil {
			h = hi
		}
		c := SlCap(s)
		if mx != nil {
			x.oblige(st, "slice-bounds", "max", v.Pos(), And(Le(h, mx), Le(mx, SlCap(s))))
			c = mx
		}
		x.oblige(st, "slice-bounds", "slice", v.Pos(), And(Le(Int(0), l), Le(l, h), Le(h, SlCap(s))))
		o := SlOff(s)
		if l != Int(0) {
			o = Idx(o, l)
		}
		return MkSlice(SlArr(s), o, Sub(h, l), Sub(c, l))
	}
	fail("slice of %s", v.X.Type())
	return nil
}

func init() {
	declFun("substr", "Str", "Str", "Int", "Int")
	s, l, h, i := BVar("s?", "Str"), BVar("l?", "Int"), BVar("h?", "Int"), BVar("i?", "Int")
	ss := mk("substr", "", "Str", s, l, h)
	ln := mk("strlen", "", "Int", s)
	guard := And(Le(Int(0), l), Le(l, h), Le(h, ln))
	funAxioms["substr"] = []*Term{
		Quant("forall", []*Term{s, l, h}, Implies(guard, Eq(mk("strlen", "", "Int", ss), Sub(h, l))), [][]*Term{{ss}}),
		Quant("forall", []*Term{s, l, h, i}, Implies(And(guard, Le(Int(0), i), Lt(i, Sub(h, l))), Eq(mk("strat", "", "Int", ss, i), mk("strat", "", "Int", s, Add(l, i)))), [][]*Term{{mk("strat", "", "Int", ss, i)}}),
	}
}

// localSliceOrHeap keeps a varargs slice symbolic when it only flows to
// external calls or append; otherwise it becomes a heap array.
func (x *Exec) localSliceOrHeap(st *State, v *ssa.Slice, ls *LocalSlice) Val {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && len(u.Call.Args) == 2 && u.Call.Args[1] == v && u.Call.Args[0] != v {
					continue
				}
				return x.materialize(st, ls)
			}
			f := u.Call.StaticCallee()
			if f == nil || (f.Pkg != nil && f.Pkg == x.P.SPkg) {
				return x.materialize(st, ls)
			}
		default:
			return x.materialize(st, ls)
		}
	}
	return ls
}

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert) Val {
	a := x.tv(st, fr, v.X)
	t := v.AssertedType
	if types.IsInterface(t) {
		var ok *Term
		if types.AssignableTo(v.X.Type(), t) {
			ok = Ne(a, AnyNil)
		} else {
			ok = And(Ne(a, AnyNil), App2("implements_"+sanitize(typeKey(t)), "Bool", a))
		}
		if v.CommaOk {
			return Tuple{Ite(ok, a, AnyNil), ok}
		}
		x.oblige(st, "type-assert", typeKey(t), v.Pos(), ok)
		return a
	}
	ok := IsBox(t, a)
	if v.CommaOk {
		r := Unbox(t, a)
		st.assume(Implies(ok, typeFacts(t, r, st.alloc)))
		return Tuple{Ite(ok, r, zeroOf(t)), ok}
	}
	x.oblige(st, "type-assert", typeKey(t), v.Pos(), ok)
	r := Unbox(t, a)
	st.assume(typeFacts(t, r, st.alloc))
	return r
}

func (x *Exec) nextIter(st *State, fr *Frame, v *ssa.Next) Val {
	it := x.val(st, fr, v.Iter).(*IterVal)
	if v.IsString {
		s := x.term(st, it.X)
		pos := st.locals[it.Pos.id].(*Term)
		ok := And(Le(Int(0), pos), Lt(pos, strLenT(s)))
		r := App("runeat", "Int", s, pos)
		w := App("runewidth", "Int", s, pos)
		st.assume(Implies(ok, And(Le(Int(0), r), Le(r, Int(0x10ffff)), Le(Int(1), w), Le(w, Int(4)), Le(Add(pos, w), strLenT(s)))))
		st.locals[it.Pos.id] = Ite(ok, Add(pos, w), pos)
		return Tuple{ok, pos, r}
	}
	mt := it.Typ.Underlying().(*types.Map)
	m := x.term(st, it.X)
	md, mv, _ := mapKeys(mt)
	ok := Fresh("more", "Bool")
	k := Fresh("key", sortOf(mt.Key()))
	val := Select(Select(st.H(mv), m), k)
	dom := Select(st.H(md), m)
	seen := st.locals[it.Pos.id].(*Term)
	st.assume(Implies(ok, And(Ne(m, Int(0)), Select(dom, k), Not(Select(seen, k)))))
	q := FreshBV("mk", sortOf(mt.Key()))
	st.assume(Implies(And(Not(ok), Ne(m, Int(0))), Quant("forall", []*Term{q}, Implies(And(Select(dom, q), Select(it.Dom0, q)), Select(seen, q)), [][]*Term{{Select(dom, q)}, {Select(seen, q)}})))
	st.locals[it.Pos.id] = Ite(ok, Store(seen, k, True), seen)
	st.assume(typeFacts(mt.Key(), k, st.alloc))
	return Tuple{ok, k, val}
}

func init() {
	declFun("runeat", "Int", "Str", "Int")
	declFun("runewidth", "Int", "Str", "Int")
	s, i := BVar("s?", "Str"), BVar("i?", "Int")
	r := mk("runeat", "", "Int", s, i)
	w := mk("runewidth", "", "Int", s, i)
	c := mk("strat", "", "Int", s, i)
	funAxioms["runeat"] = []*Term{Quant("forall", []*Term{s, i}, Implies(And(Le(Int(0), i), Lt(i, mk("strlen", "", "Int", s))),
		Ite(Lt(c, Int(128)), And(Eq(r, c), Eq(w, Int(1))), Le(Int(128), r))), [][]*Term{{r}})}
}

// ghostInit: ghosts of a new object have their initial value.
func (x *Exec) ghostInit(st *State, t types.Type, a Val) {
	at, ok := a.(*Term)
	if !ok {
		return
	}
	for _, n := range sortedKeys(x.P.DB.Ghosts) {
		g := x.P.DB.Ghosts[n]
		if g.Init == nil || len(g.Params) != 1 {
			continue
		}
		if _, ty := x.P.specSort(g.Params[0].Type); ty == nil || !types.Identical(ty, types.NewPointer(t)) {
			continue
		}
		env := &Env{x: x, vars: map[string]SVal{}, cur: snapshot(st), old: snapshot(st), fresh0: st.alloc}
		k := x.P.ghostKey(g)
		st.setH(k, Store(st.H(k), at, env.eval(g.Init).T))
	}
}
