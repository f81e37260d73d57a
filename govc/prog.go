package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Pkg         *packages.Package
	SSA         *ssa.Program
	SPkg        *ssa.Package
	DB          *SpecDB
	Funcs       map[string]*ssa.Function
	fids        map[string]int64
	fidFn       map[int64]*ssa.Function
	constG      map[*ssa.Global]map[string]Val // immutable map globals: key -> element
	constGOK    map[*ssa.Global]bool
	stored      map[*ssa.Global]bool // globals written outside init
	fields      map[string][][2]string
	typeMemo    map[string]types.Type
	LoopCache   map[*ssa.Function]*loopInfo
	Externs     map[string]int // un-contracted external callees seen (assumed pure)
	TrustedUsed map[string]bool
	Inlined     map[string]bool
	Used        map[string]bool
	ginvAx      map[string][]*Term
	ginvLoad    map[string][]*Term
	badG        map[*ssa.Global]bool
	initStores  map[*ssa.Global][]*ssa.Function
	constStore  map[*ssa.Global]*ssa.Const
}

func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return f.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + typeKey(r.Type()) + ")." + f.Name()
	}
	if f.Pkg != nil && f.Pkg.Pkg.Name() != "gotables" {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.Name()
}

func LoadProgram(dir string, db *SpecDB) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("%v", pkgs[0].Errors[0])
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Program{Pkg: pkgs[0], SSA: prog, SPkg: sp[0], DB: db, Funcs: map[string]*ssa.Function{}, fids: map[string]int64{}, fidFn: map[int64]*ssa.Function{},
		ginvAx: map[string][]*Term{}, ginvLoad: map[string][]*Term{}, initStores: map[*ssa.Global][]*ssa.Function{}, constStore: map[*ssa.Global]*ssa.Const{}, constG: map[*ssa.Global]map[string]Val{}, constGOK: map[*ssa.Global]bool{}, stored: map[*ssa.Global]bool{}, typeMemo: map[string]types.Type{},
		LoopCache: map[*ssa.Function]*loopInfo{}, Externs: map[string]int{}, TrustedUsed: map[string]bool{}, Inlined: map[string]bool{}}
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == p.SPkg {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		a, b := funcKey(fns[i]), funcKey(fns[j])
		if a != b {
			return a < b
		}
		return fns[i].Pos() < fns[j].Pos()
	})
	for _, f := range fns {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		p.Funcs[funcKey(f)] = f
		if len(f.Blocks) > 0 {
			p.funcID(funcKey(f))
		}
	}
	for _, f := range fns {
		if f.Parent() == nil {
			continue
		}
		p.funcID(funcKey(f))
	}
	p.scanGlobals(fns)
	p.bindFuncVars()
	// Register every type the program boxes so that the prelude is stable.
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeInterface:
					boxOf(v.X.Type())
				case *ssa.TypeAssert:
					if !types.IsInterface(v.AssertedType) {
						boxOf(v.AssertedType)
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) funcID(key string) *Term {
	id, ok := p.fids[key]
	if !ok {
		id = int64(len(p.fids) + 1)
		p.fids[key] = id
		if f := p.Funcs[key]; f != nil {
			p.fidFn[id] = f
		}
	} else if p.fidFn[id] == nil && p.Funcs[key] != nil {
		p.fidFn[id] = p.Funcs[key]
	}
	return Int(id)
}

// scanGlobals finds package-level maps that are initialised once with constant
// keys and never written again, and globals never stored outside init.
func (p *Program) scanGlobals(fns []*ssa.Function) {
	bad := map[*ssa.Global]bool{}
	var inits []*ssa.Function
	isInit := map[*ssa.Function]bool{}
	for _, f := range fns {
		if f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			inits = append(inits, f)
			isInit[f] = true
		}
	}
	nstores := map[*ssa.Global]int{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && isInit[f] {
						nstores[g]++
						p.initStores[g] = append(p.initStores[g], f)
						if c, ok := st.Val.(*ssa.Const); ok {
							p.constStore[g] = c
						}
						if nstores[g] > 1 || f.Name() != "init" && b.Index != 0 {
							bad[g] = true
						}
					}
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit[f] {
						p.stored[g] = true
						bad[g] = true
					}
				}
				// address of a global escaping other than load/store
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch v := in.(type) {
					case *ssa.FieldAddr:
						for _, r := range *v.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if r.Addr != v || !isInit[f] {
									p.stored[g] = true
								} else {
									p.initStores[g] = append(p.initStores[g], f)
								}
							default:
								p.stored[g] = true
							}
						}
						bad[g] = true
					case *ssa.UnOp:
						if v.Op == token.MUL {
							// uses of the loaded map must be lookups / len / range
							if _, isMap := v.Type().Underlying().(*types.Map); isMap {
								for _, r := range *v.Referrers() {
									switch r.(type) {
									case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
									default:
										if c, ok := r.(*ssa.Call); ok {
											if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
												continue
											}
										}
										bad[g] = true
									}
								}
							}
						}
					case *ssa.Store, *ssa.DebugRef:
					default:
						bad[g] = true
						p.stored[g] = true
					}
				}
			}
		}
	}
	type ent struct {
		m  map[string]Val
		ok bool
	}
	p.badG = bad
	maps := map[ssa.Value]*ent{}
	var initBlocks []*ssa.BasicBlock
	for _, f := range inits {
		initBlocks = append(initBlocks, f.Blocks...)
	}
	for _, b := range initBlocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.MakeMap:
				maps[v] = &ent{map[string]Val{}, true}
			case *ssa.MapUpdate:
				e := maps[v.Map]
				if e == nil {
					continue
				}
				k, ok := v.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					e.ok = false
					continue
				}
				var val Val
				x := v.Value
				for {
					if c, ok := x.(*ssa.ChangeType); ok {
						x = c.X
						continue
					}
					break
				}
				switch y := x.(type) {
				case *ssa.Const:
					val = constTerm(y)
				case *ssa.Function:
					val = p.funcID(funcKey(y))
				default:
					e.ok = false
				}
				e.m[constant.StringVal(k.Value)] = val
			case *ssa.Store:
				if g, ok := v.Addr.(*ssa.Global); ok {
					if e := maps[v.Val]; e != nil && e.ok && !bad[g] {
						p.constG[g] = e.m
					}
				}
			}
		}
	}
}

func (p *Program) parseType(s string) types.Type {
	if t, ok := p.typeMemo[s]; ok {
		return t
	}
	if s == "any" {
		return anyType
	}
	// position inside the last file so that imports (time) resolve
	for i := range p.Pkg.Syntax {
		tv, err := types.Eval(p.Pkg.Fset, p.Pkg.Types, p.Pkg.Syntax[i].End()-1, "(*("+s+"))(nil)")
		if err == nil {
			t := tv.Type.(*types.Pointer).Elem()
			p.typeMemo[s] = t
			return t
		}
	}
	sfail("unknown type %s", s)
	return nil
}

func (p *Program) specSort(s string) (string, types.Type) {
	switch s {
	case "", "int":
		return "Int", tInt
	case "ref":
		return "Int", nil
	case "bool":
		return "Bool", tBool
	case "str", "string":
		return "Str", tString
	case "anyarr": // contents of a backing array of interface values
		return "(Array Int Any)", nil
	case "intarr":
		return "(Array Int Int)", nil
	case "strarr":
		return "(Array Int Str)", nil
	case "slarr":
		return "(Array Int Slice)", nil
	case "strmap":
		return "(Array Str Int)", nil
	case "strset":
		return "(Array Str Bool)", nil
	}
	if strings.HasPrefix(s, "[0]") { // contents of a backing array
		t := p.parseType(s[3:])
		return "(Array Int " + sortOf(t) + ")", types.NewArray(t, 0)
	}
	t := p.parseType(s)
	return sortOf(t), t
}

// fieldFallback maps a field name that no longer exists to the field that took its place.
func (p *Program) fieldFallback(structKey, name string, si *structInfo) (int, bool) {
	rec := p.fields[structKey]
	for i, f := range rec {
		if f[0] == name && i < len(si.fnames) && typeKey(si.types[i]) == f[1] {
			known := false
			for _, g := range rec {
				if g[0] == si.fnames[i] {
					known = true
				}
			}
			if !known {
				return i, true
			}
		}
	}
	return 0, false
}

func (p *Program) LoadFields(path string) {
	p.fields = map[string][][2]string{}
	if data, err := os.ReadFile(path); err == nil {
		_ = json.Unmarshal(data, &p.fields)
	}
}
func (p *Program) DumpFields(path string) error {
	out := map[string][][2]string{}
	sc := p.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if st, ok := structOf(tn.Type()); ok {
			for i := 0; i < st.NumFields(); i++ {
				out[typeKey(tn.Type())] = append(out[typeKey(tn.Type())], [2]string{st.Field(i).Name(), typeKey(st.Field(i).Type())})
			}
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	return os.WriteFile(path, append(b, '\n'), 0644)
}

func constTerm(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case "Int":
		v := constant.ToInt(c.Value)
		return IntBig(v.ExactString())
	case "Bool":
		return BoolT(constant.BoolVal(c.Value))
	case "Str":
		return StrLit(constant.StringVal(c.Value))
	case "F64":
		f, _ := constant.Float64Val(c.Value)
		return fpLit(f, 64)
	case "F32":
		f, _ := constant.Float32Val(c.Value)
		return fpLit(float64(f), 32)
	case "Any":
		return AnyNil
	}
	fail("constant of type %s", t)
	return nil
}

// ---------- loops ----------

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	backs  []*ssa.BasicBlock
	ord    int
}
type loopInfo struct {
	loops map[*ssa.BasicBlock]*loop
	irred bool
}

func (p *Program) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := p.LoopCache[f]; ok {
		return li
	}
	li := &loopInfo{loops: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				l.backs = append(l.backs, b)
				// collect natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// irreducible check: any retreating edge that is not a back edge
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				li.irred = true
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	var heads []*ssa.BasicBlock
	for h := range li.loops {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
	for i, h := range heads {
		li.loops[h].ord = i
	}
	p.LoopCache[f] = li
	return li
}

func posStr(p *Program, pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Pkg.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", ps.Filename[strings.LastIndex(ps.Filename, "/")+1:], ps.Line)
}

// InstallAxioms evaluates the declared axioms of uninterpreted spec functions.
func (p *Program) InstallAxioms() {
	hv := &HeapView{map[string]*Term{}, Sym("alloc@0", "Int")}
	x := &Exec{P: p, notes: map[string]bool{}, dropped: map[string]bool{}}
	env := &Env{x: x, vars: map[string]SVal{}, cur: hv, old: hv, fresh0: hv.alloc}
	for g, c := range p.constStore {
		if len(p.initStores[g]) == 1 && !p.stored[g] {
			if t, ok := constTerm(c).(*Term); ok {
				symAxioms[globalKey(g)+"@0"] = append(symAxioms[globalKey(g)+"@0"], Eq(Sym(globalKey(g)+"@0", t.Sort), t))
			}
		}
	}
	for _, gi := range p.DB.Ginvs {
		g, ok := p.SPkg.Members[gi.Global].(*ssa.Global)
		if !ok {
			sfail("ginv: no package variable %s", gi.Global)
		}
		k := globalKey(g) + "@0"
		t := env.Bool(gi.E)
		axOwner[t.ID] = "ginv:" + gi.Global
		switch gi.On {
		case "":
			p.ginvAx[k] = append(p.ginvAx[k], t)
			symAxioms[k] = append(symAxioms[k], t)
		case "load":
			p.ginvLoad[globalKey(g)] = append(p.ginvLoad[globalKey(g)], t)
		default:
			for _, on := range strings.Fields(gi.On) {
				funAxioms[on] = append(funAxioms[on], t)
			}
		}
	}
	var ops []string
	for n, pr := range p.DB.Preds {
		if pr.Opaque && pr.Body != nil {
			ops = append(ops, n)
		}
	}
	sort.Strings(ops)
	for _, n := range ops {
		pr := p.DB.Preds[n]
		var bvs []*Term
		e2 := env
		var args []*SExpr
		for _, v := range pr.Params {
			ty := env.typ(v.Type)
			b := FreshBV(v.Name, sortOf(ty))
			bvs = append(bvs, b)
			e2 = e2.bind(v.Name, SVal{T: b, Ty: ty})
			args = append(args, &SExpr{Op: "id", Name: v.Name})
		}
		app := e2.eval(&SExpr{Op: "call", Name: n, Args: args}).T
		body := e2.Bool(pr.Body)
		if h := heapSymIn(body); h != "" {
			sfail("opaque predicate %s depends on the heap (%s)", n, h)
		}
		funAxioms["uf_"+n] = append(funAxioms["uf_"+n], Quant("forall", bvs, Eq(app, body), [][]*Term{{app}}))
	}
	for _, a := range p.DB.Axioms {
		t := env.Bool(a.E)
		name := a.On
		if pr, ok := p.DB.Preds[a.On]; ok && pr.Opaque {
			name = "uf_" + a.On
		}
		funAxioms[name] = append(funAxioms[name], t)
	}
	for _, l := range p.DB.Lemmas {
		t := env.Bool(guardInduct(l))
		axOwner[t.ID] = "lemma:" + l.Name
		funAxioms[p.symName(l.On)] = append(funAxioms[p.symName(l.On)], t)
	}
}

func (p *Program) symName(n string) string {
	if pr, ok := p.DB.Preds[n]; ok && pr.Opaque {
		return "uf_" + n
	}
	return n
}

// axOwner maps an axiom to the verification unit that establishes it; usedAxioms
// collects the units whose axioms entered a query.
var axOwner = map[int]string{}
var usedAxioms = map[string]bool{}

// heapSymIn finds a heap symbol in a term.
func heapSymIn(t *Term) string {
	if t.Op == "#c" && strings.HasSuffix(t.Name, "@0") {
		return t.Name
	}
	for _, a := range t.Args {
		if h := heapSymIn(a); h != "" {
			return h
		}
	}
	return ""
}

// listFuncs prints every package function with its size, marking those under contract.
func (p *Program) listFuncs(db *SpecDB) {
	var ks []string
	for k := range p.Funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := p.Funcs[k]
		if f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		mark := "-"
		if c := db.Contracts[k]; c != nil {
			mark = "contract"
			if c.Trusted {
				mark = "trusted"
			}
		}
		fmt.Printf("%-9s %5d %s %s\n", mark, n, p.Pkg.Fset.Position(f.Pos()).Filename[strings.LastIndex(p.Pkg.Fset.Position(f.Pos()).Filename, "/")+1:], k)
	}
}
