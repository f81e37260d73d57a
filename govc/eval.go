package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SVal struct {
	T  *Term
	Ty types.Type // nil for spec-only values
	Nl bool       // literal nil
}

type Env struct {
	x        *Exec
	vars     map[string]SVal
	cur      *HeapView
	old      *HeapView
	pre      *HeapView
	look     func(string) (SVal, bool) // fallback lookup (loop invariants)
	ovars    map[string]SVal
	depth    int
	fresh0   *Term // allocation counter that "fresh" compares against
	inTrig   bool
	rlo, rhi *Term // bounds of the enclosing each(...)
}

func (e *Env) with(vars map[string]SVal) *Env {
	n := *e
	n.vars = vars
	return &n
}
func (e *Env) bind(name string, v SVal) *Env {
	m := make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[name] = v
	return e.with(m)
}

type specErr struct{ msg string }

func sfail(format string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(format, a...)})
}

func (e *Env) Bool(s *SExpr) *Term {
	v := e.eval(s)
	if v.T == nil || v.T.Sort != "Bool" {
		sfail("not a boolean: %s", s.Text)
	}
	return v.T
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (e *Env) typ(s string) types.Type { return e.x.P.parseType(s) }

func (e *Env) eval(s *SExpr) SVal {
	switch s.Op {
	case "int":
		return SVal{T: IntBig(s.Name), Ty: nil}
	case "str":
		return SVal{T: StrLit(s.Name), Ty: tString}
	case "id":
		switch s.Name {
		case "true":
			return SVal{T: True, Ty: tBool}
		case "false":
			return SVal{T: False, Ty: tBool}
		case "nil":
			return SVal{Nl: true}
		}
		if v, ok := e.vars[s.Name]; ok {
			return v
		}
		if e.look != nil {
			if v, ok := e.look(s.Name); ok {
				return v
			}
		}
		if g, ok := e.x.P.SPkg.Members[s.Name].(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			return SVal{T: e.cur.get(globalKey(g)), Ty: t}
		}
		if p, ok := e.x.P.DB.Preds[s.Name]; ok && len(p.Params) == 0 {
			return e.call(&SExpr{Op: "call", Name: s.Name})
		}
		sfail("unknown identifier %s", s.Name)
	case "field":
		return e.field(s)
	case "index":
		return e.index(s)
	case "assert":
		v := e.eval(s.Args[0])
		t := e.typ(s.Name)
		return SVal{T: Unbox(t, v.T), Ty: t}
	case "un":
		if s.Name == "!" {
			return SVal{T: Not(e.Bool(s.Args[0])), Ty: tBool}
		}
		v := e.eval(s.Args[0])
		return SVal{T: Neg(v.T), Ty: v.Ty}
	case "cond":
		c := e.Bool(s.Args[0])
		a, b := e.eval(s.Args[1]), e.eval(s.Args[2])
		a, b = unify(a, b)
		return SVal{T: Ite(c, a.T, b.T), Ty: orTy(a.Ty, b.Ty)}
	case "bin":
		return e.bin(s)
	case "forall", "exists":
		env := e
		var vs []*Term
		for _, v := range s.Vars {
			var ty types.Type
			srt := "Int"
			switch v.Type {
			case "", "int":
				ty = nil
			case "ref":
				ty = nil
			case "str":
				ty, srt = tString, "Str"
			default:
				srt, ty = e.x.P.specSort(v.Type)
			}
			b := FreshBV(v.Name, srt)
			vs = append(vs, b)
			env = env.bind(v.Name, SVal{T: b, Ty: ty})
		}
		body := env.Bool(s.Args[0])
		var pats [][]*Term
		for _, tr := range s.Trigs {
			var ps []*Term
			te := *env
			te.inTrig = true
			for _, t := range tr {
				ps = append(ps, te.eval(t).T)
			}
			okp := true
			for _, p := range ps {
				if !goodPattern(p) {
					okp = false
				}
			}
			if okp {
				pats = append(pats, ps)
			}
		}
		return SVal{T: Quant(s.Op, vs, body, pats), Ty: tBool}
	case "call":
		return e.call(s)
	}
	sfail("cannot evaluate %s", s.Op)
	return SVal{}
}

// goodPattern: must contain no interpreted boolean structure or ite.
func goodPattern(t *Term) bool {
	switch t.Op {
	case "ite", "and", "or", "not", "=>", "=", "forall", "exists", "<", "<=", "true", "false", "is":
		return false
	case "#v", "#i", "#c", "#s":
		return true
	}
	for _, a := range t.Args {
		if a.bnd && !goodPattern(a) {
			return false
		}
	}
	return true
}

func orTy(a, b types.Type) types.Type {
	if a != nil {
		return a
	}
	return b
}

func nilOf(srt string) *Term {
	switch srt {
	case "Int":
		return Int(0)
	case "Any":
		return AnyNil
	case "Slice":
		return NilSlice
	}
	sfail("nil of sort %s", srt)
	return nil
}

func unify(a, b SVal) (SVal, SVal) {
	if a.Nl && b.Nl {
		sfail("nil == nil")
	}
	if a.Nl {
		a = SVal{T: nilOf(b.T.Sort), Ty: b.Ty}
	}
	if b.Nl {
		b = SVal{T: nilOf(a.T.Sort), Ty: a.Ty}
	}
	// implicit boxing: comparing an interface with a concrete value
	if a.T.Sort == "Any" && b.T.Sort != "Any" && b.Ty != nil {
		b = SVal{T: Box(b.Ty, b.T), Ty: a.Ty}
	} else if b.T.Sort == "Any" && a.T.Sort != "Any" && a.Ty != nil {
		a = SVal{T: Box(a.Ty, a.T), Ty: b.Ty}
	}
	return a, b
}

func (e *Env) bin(s *SExpr) SVal {
	B := func(t *Term) SVal { return SVal{T: t, Ty: tBool} }
	switch s.Name {
	case "==>":
		return B(Implies(e.Bool(s.Args[0]), e.Bool(s.Args[1])))
	case "<==>":
		return B(Eq(e.Bool(s.Args[0]), e.Bool(s.Args[1])))
	case "&&":
		a := e.Bool(s.Args[0])
		return B(And(a, e.Bool(s.Args[1])))
	case "||":
		return B(Or(e.Bool(s.Args[0]), e.Bool(s.Args[1])))
	}
	a, b := e.eval(s.Args[0]), e.eval(s.Args[1])
	switch s.Name {
	case "==", "!=":
		var t *Term
		if b.Nl && !a.Nl && a.T.Sort == "Slice" {
			t = Eq(SlArr(a.T), Int(0))
		} else if a.Nl && !b.Nl && b.T.Sort == "Slice" {
			t = Eq(SlArr(b.T), Int(0))
		} else {
			a, b = unify(a, b)
			if a.T.Sort != b.T.Sort {
				sfail("sort mismatch in %s: %s vs %s", s.Name, a.T, b.T)
			}
			t = Eq(a.T, b.T)
		}
		if s.Name == "!=" {
			t = Not(t)
		}
		return B(t)
	case "<", "<=", ">", ">=":
		x, y := a.T, b.T
		if s.Name == ">" || s.Name == ">=" {
			x, y = y, x
		}
		strict := s.Name == "<" || s.Name == ">"
		switch x.Sort {
		case "Int":
			if strict {
				return B(Lt(x, y))
			}
			return B(Le(x, y))
		case "F32", "F64":
			op := "leq"
			if strict {
				op = "lt"
			}
			return B(fpRel(op, x, y))
		case "Str":
			if strict {
				return B(strLt(x, y))
			}
			return B(Not(strLt(y, x)))
		}
		sfail("cannot order sort %s", x.Sort)
	case "+":
		if a.T.Sort == "Str" {
			return SVal{T: strCat(a.T, b.T), Ty: tString}
		}
		return SVal{T: Add(a.T, b.T), Ty: orTy(a.Ty, b.Ty)}
	case "-":
		return SVal{T: Sub(a.T, b.T), Ty: orTy(a.Ty, b.Ty)}
	case "*":
		return SVal{T: Mul(a.T, b.T), Ty: orTy(a.Ty, b.Ty)}
	case "/":
		return SVal{T: mk("div", "", "Int", a.T, b.T)}
	case "%":
		return SVal{T: mk("mod", "", "Int", a.T, b.T)}
	}
	sfail("operator %s", s.Name)
	return SVal{}
}

func strLt(a, b *Term) *Term {
	if a.Op == "#s" && b.Op == "#s" {
		return BoolT(a.Name < b.Name)
	}
	if a == b {
		return False
	}
	return App("strlt", "Bool", a, b)
}

func init() {
	declFun("strlt", "Bool", "Str", "Str")
	declFun("strlen", "Int", "Str")
	declFun("strat", "Int", "Str", "Int")
	declFun("strcat", "Str", "Str", "Str")
	a, b, c, i := BVar("a?", "Str"), BVar("b?", "Str"), BVar("c?", "Str"), BVar("i?", "Int")
	lt := func(x, y *Term) *Term { return mk("strlt", "", "Bool", x, y) }
	funAxioms["strlt"] = []*Term{
		Quant("forall", []*Term{a, b}, Or(lt(a, b), lt(b, a), Eq(a, b)), [][]*Term{{lt(a, b)}}),
		Quant("forall", []*Term{a, b}, Not(And(lt(a, b), lt(b, a))), [][]*Term{{lt(a, b)}}),
		Quant("forall", []*Term{a, b, c}, Implies(And(lt(a, b), lt(b, c)), lt(a, c)), [][]*Term{{lt(a, b), lt(b, c)}}),
		Quant("forall", []*Term{a}, Not(lt(a, a)), [][]*Term{{lt(a, a)}}),
	}
	sl := mk("strlen", "", "Int", a)
	funAxioms["strlen"] = []*Term{
		Quant("forall", []*Term{a}, And(Le(Int(0), sl), Le(sl, Int(maxLen)), Eq(Eq(sl, Int(0)), Eq(a, StrLit("")))), [][]*Term{{sl}}),
	}
	sa := mk("strat", "", "Int", a, i)
	funAxioms["strat"] = []*Term{Quant("forall", []*Term{a, i}, And(Le(Int(0), sa), Le(sa, Int(255))), [][]*Term{{sa}})}
	sc := mk("strcat", "", "Str", a, b)
	funAxioms["strcat"] = []*Term{
		Quant("forall", []*Term{a, b}, And(Implies(Eq(a, StrLit("")), Eq(sc, b)), Implies(Eq(b, StrLit("")), Eq(sc, a))), [][]*Term{{sc}}),
		Quant("forall", []*Term{a, b}, Eq(mk("strlen", "", "Int", sc), Add(mk("strlen", "", "Int", a), mk("strlen", "", "Int", b))), [][]*Term{{sc}}),
	}
}

// structFieldIndex resolves a field by name (falling back on the position and
// type recorded in the specification's field table after a rename).
func (e *Env) structFieldIndex(t types.Type, name string) int {
	si := structSort(t)
	for i, f := range si.fnames {
		if f == name {
			return i
		}
	}
	if i, ok := e.x.P.fieldFallback(typeKey(t), name, si); ok {
		return i
	}
	sfail("no field %s in %s", name, typeKey(t))
	return -1
}

func (e *Env) field(s *SExpr) SVal {
	v := e.eval(s.Args[0])
	if v.Ty == nil {
		sfail("field %s of untyped spec value", s.Name)
	}
	t := types.Unalias(v.Ty)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st := p.Elem()
		if _, ok := structOf(st); !ok {
			sfail("field %s of %s", s.Name, typeKey(t))
		}
		f := e.structFieldIndex(st, s.Name)
		key := fieldKey(st, f)
		return SVal{T: Select(e.cur.get(key), v.T), Ty: structSort(st).types[f]}
	}
	if _, ok := structOf(t); ok {
		f := e.structFieldIndex(t, s.Name)
		si := structSort(t)
		return SVal{T: App(si.fields[f], si.sorts[f], v.T), Ty: si.types[f]}
	}
	sfail("field %s of %s", s.Name, typeKey(t))
	return SVal{}
}

func (e *Env) index(s *SExpr) SVal {
	v := e.eval(s.Args[0])
	i := e.eval(s.Args[1])
	if v.Ty == nil {
		if strings.HasPrefix(v.T.Sort, "(Array") {
			return SVal{T: Select(v.T, i.T)}
		}
		sfail("index of untyped value")
	}
	switch u := types.Unalias(v.Ty).Underlying().(type) {
	case *types.Slice:
		key := elemKey(u.Elem())
		return SVal{T: Select(Select(e.cur.get(key), SlArr(v.T)), Idx(SlOff(v.T), i.T)), Ty: u.Elem()}
	case *types.Map:
		_, mv, _ := mapKeys(u)
		return SVal{T: Select(Select(e.cur.get(mv), v.T), i.T), Ty: u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SVal{T: App("strat", "Int", v.T, i.T), Ty: types.Typ[types.Uint8]}
		}
	case *types.Array:
		return SVal{T: Select(v.T, i.T), Ty: u.Elem()}
	}
	sfail("cannot index %s", typeKey(v.Ty))
	return SVal{}
}

func (e *Env) call(s *SExpr) SVal {
	B := func(t *Term) SVal { return SVal{T: t, Ty: tBool} }
	arg := func(i int) SVal { return e.eval(s.Args[i]) }
	switch s.Name {
	case "old":
		n := *e
		n.cur = e.old
		if e.ovars != nil {
			n.vars = e.ovars
			// keep bound variables
			m := map[string]SVal{}
			for k, v := range e.vars {
				m[k] = v
			}
			for k, v := range e.ovars {
				m[k] = v
			}
			n.vars = m
		}
		return n.eval(s.Args[0])
	case "pre":
		if e.pre == nil {
			sfail("pre() outside a loop invariant")
		}
		n := *e
		n.cur = e.pre
		return n.eval(s.Args[0])
	case "len":
		v := arg(0)
		switch v.T.Sort {
		case "Slice":
			return SVal{T: SlLen(v.T), Ty: tInt}
		case "Str":
			return SVal{T: strLenT(v.T), Ty: tInt}
		}
		if m, ok := types.Unalias(v.Ty).Underlying().(*types.Map); ok {
			_, _, ml := mapKeys(m)
			return SVal{T: Select(e.cur.get(ml), v.T), Ty: tInt}
		}
		sfail("len of %s", v.T.Sort)
	case "cap":
		return SVal{T: SlCap(arg(0).T), Ty: tInt}
	case "arr":
		v := arg(0)
		return SVal{T: SlArr(v.T)}
	case "off":
		return SVal{T: SlOff(arg(0).T)}
	case "samebase": // same backing array, offset and capacity
		a, b := arg(0).T, arg(1).T
		return B(And(Eq(SlArr(a), SlArr(b)), Eq(SlOff(a), SlOff(b)), Eq(SlCap(a), SlCap(b))))
	case "seen": // seen(k): the enclosing range over a map has produced key k
		v, ok := SVal{}, false
		if e.look != nil {
			v, ok = e.look("$seen")
		}
		if !ok {
			sfail("seen() outside a range over a map")
		}
		return B(Select(v.T, arg(0).T))
	case "has":
		m := arg(0)
		k := arg(1)
		mt, ok := types.Unalias(m.Ty).Underlying().(*types.Map)
		if !ok {
			sfail("has: not a map")
		}
		md, _, _ := mapKeys(mt)
		if sortOf(mt.Key()) == "Any" && k.T.Sort != "Any" {
			k.T = Box(k.Ty, k.T)
		}
		return B(Select(Select(e.cur.get(md), m.T), k.T))
	case "is":
		return B(IsBox(e.typ(s.Text), arg(0).T))
	case "as":
		t := e.typ(s.Text)
		return SVal{T: Unbox(t, arg(0).T), Ty: t}
	case "box":
		t := e.typ(s.Text)
		return SVal{T: Box(t, arg(0).T), Ty: anyType}
	case "zero":
		t := e.typ(s.Text)
		return SVal{T: zeroOf(t), Ty: t}
	case "fresh": // allocated during the call / loop
		v := arg(0)
		id := v.T
		if id.Sort == "Slice" {
			id = SlArr(id)
		}
		return B(And(Le(e.fresh0, id), Lt(id, e.cur.alloc)))
	case "alloced":
		v := arg(0)
		id := v.T
		if id.Sort == "Slice" {
			id = SlArr(id)
		}
		return B(And(Le(Int(0), id), Lt(id, e.cur.alloc)))
	case "fapp", "fpre": // application of a function value
		f := arg(0)
		sig := sigOf(f.Ty)
		if sig == nil {
			sfail("%s of something that is not a function", s.Name)
		}
		app, pre, ok := fappName(sig)
		if !ok {
			sfail("%s: unsupported signature", s.Name)
		}
		as := []*Term{f.T}
		for i := 1; i < len(s.Args); i++ {
			as = append(as, arg(i).T)
		}
		if s.Name == "fpre" {
			return B(App(pre, "Bool", as...))
		}
		rt := sig.Results().At(0).Type()
		return SVal{T: App(app, sortOf(rt), as...), Ty: rt}
	case "feq":
		a, b := arg(0), arg(1)
		return B(fpRel("eq", a.T, b.T))
	case "isNaN":
		return B(fpNaN(arg(0).T))
	case "goeq":
		a, b := unify(arg(0), arg(1))
		return B(goEq(a.T, b.T))
	case "unchanged": // unchanged(region...): heap component equal to old
		var cs []*Term
		for i := range s.Args {
			a := e.eval(s.Args[i])
			n := *e
			n.cur = e.old
			b := n.eval(s.Args[i])
			cs = append(cs, Eq(a.T, b.T))
		}
		return B(And(cs...))
	case "elemsOf": // the backing array contents of a slice (position-indexed)
		v := arg(0)
		u := types.Unalias(v.Ty).Underlying().(*types.Slice)
		return SVal{T: Select(e.cur.get(elemKey(u.Elem())), SlArr(v.T))}
	case "mapdom":
		v := arg(0)
		md, _, _ := mapKeys(types.Unalias(v.Ty).Underlying().(*types.Map))
		return SVal{T: Select(e.cur.get(md), v.T)}
	case "mapval":
		v := arg(0)
		_, mv, _ := mapKeys(types.Unalias(v.Ty).Underlying().(*types.Map))
		return SVal{T: Select(e.cur.get(mv), v.T)}
	case "wrap64":
		return SVal{T: wrapTo(tInt, arg(0).T), Ty: tInt}
	case "inrange": // inrange(x, "int32")
		t := e.typ(s.Args[1].Name)
		return B(inRange(t, arg(0).T))
	case "f64of":
		return SVal{T: fpWiden(arg(0).T), Ty: types.Typ[types.Float64]}
	case "fn": // function id
		return SVal{T: e.x.P.funcID(s.Args[0].Name)}
	case "idx":
		return SVal{T: Idx(arg(0).T, arg(1).T), Ty: tInt}
	case "store":
		return SVal{T: Store(arg(0).T, arg(1).T, arg(2).T)}
	case "substr":
		return SVal{T: App("substr", "Str", arg(0).T, arg(1).T, arg(2).T), Ty: tString}
	}
	if g := e.x.P.DB.Ghosts[s.Name]; g != nil {
		if len(g.Params) != len(s.Args) {
			sfail("%s expects %d arguments", s.Name, len(g.Params))
		}
		t := e.cur.get(e.x.P.ghostKey(g))
		for i, pr := range g.Params {
			v := arg(i)
			srt, ty := e.x.P.specSort(pr.Type)
			if v.Nl {
				v = SVal{T: nilOf(srt), Ty: ty}
			}
			if v.T.Sort != srt {
				sfail("%s: argument %d has sort %s, want %s", s.Name, i, v.T.Sort, srt)
			}
			t = Select(t, v.T)
		}
		_, rt := e.x.P.specSort(g.Res)
		return SVal{T: t, Ty: rt}
	}
	p, ok := e.x.P.DB.Preds[s.Name]
	if !ok {
		sfail("unknown spec function %s", s.Name)
	}
	if len(p.Params) != len(s.Args) {
		sfail("%s expects %d arguments", s.Name, len(p.Params))
	}
	if e.depth > 40 {
		sfail("recursive predicate %s", s.Name)
	}
	vars := map[string]SVal{}
	var args []*Term
	for i, pr := range p.Params {
		v := arg(i)
		srt, ty := e.x.P.specSort(pr.Type)
		if v.Nl {
			v = SVal{T: nilOf(srt), Ty: ty}
		}
		if srt == "Any" && v.T.Sort != "Any" && v.Ty != nil {
			v = SVal{T: Box(v.Ty, v.T), Ty: ty}
		}
		if v.T.Sort != srt {
			sfail("%s: argument %d has sort %s, want %s", s.Name, i, v.T.Sort, srt)
		}
		if ty != nil {
			v.Ty = ty
		}
		vars[pr.Name] = v
		args = append(args, v.T)
	}
	if p.Opaque {
		rs, rt := e.x.P.specSort(p.Res)
		if _, ok := funSigs["uf_"+p.Name]; !ok {
			var as []string
			for _, a := range args {
				as = append(as, a.Sort)
			}
			declFun("uf_"+p.Name, rs, as...)
		}
		return SVal{T: App("uf_"+p.Name, rs, args...), Ty: rt}
	}
	n := e.with(vars)
	n.depth++
	n.look = nil
	n.ovars = vars
	return n.eval(p.Body)
}

var anyType = types.NewInterfaceType(nil, nil).Complete()

func strLenT(t *Term) *Term {
	if t.Op == "#s" {
		return Int(int64(len(t.Name)))
	}
	return App("strlen", "Int", t)
}

// goEq is Go's == on interface values (floats compare as floats).
func goEq(a, b *Term) *Term {
	if a == AnyNil || b == AnyNil {
		return Eq(a, b)
	}
	if a.Sort == "F64" || a.Sort == "F32" {
		return fpRel("eq", a, b)
	}
	if a.Sort != "Any" {
		return Eq(a, b)
	}
	f64, f32 := types.Typ[types.Float64], types.Typ[types.Float32]
	return Ite(And(IsBox(f64, a), IsBox(f64, b)), fpRel("eq", Unbox(f64, a), Unbox(f64, b)),
		Ite(And(IsBox(f32, a), IsBox(f32, b)), fpRel("eq", Unbox(f32, a), Unbox(f32, b)), Eq(a, b)))
}
