package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Key          string
	Obls         []*Oblig
	Unsupported  string
	Loops        []string
	Notes        []string
	Returns      int
	Vacuous      string
	Paths        int
	entryText    string
	retTexts     []string
	mayNotReturn bool
}

func (r *FnResult) failed() []*Oblig {
	var out []*Oblig
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

// VerifyFn generates and discharges every obligation of one function.
func VerifyFn(p *Program, s *Solver, key string) (res *FnResult) {
	res = &FnResult{Key: key}
	key, mask, part := splitKey(key)
	res.Key = key
	f := p.Funcs[key]
	con := p.DB.Contracts[key]
	if f == nil {
		res.Unsupported = "function not found"
		return
	}
	if len(con.Splits)+len(con.Parts) > 0 {
		con = con.section(mask, part)
	}
	x := &Exec{P: p, S: s, fn: f, key: key, con: con, notes: map[string]bool{}, dropped: map[string]bool{}, maxPaths: 3000}
	defer func() {
		res.Loops = x.loopInfoOut
		for n := range x.notes {
			res.Notes = append(res.Notes, n)
		}
		sort.Strings(res.Notes)
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				res.Unsupported = u.msg
			case specErr:
				res.Unsupported = "contract: " + u.msg
			default:
				panic(r)
			}
		}
	}()
	x.run(res)
	discharge(p, s, res)
	return
}

func (x *Exec) run(res *FnResult) {
	f, con, p := x.fn, x.con, x.P
	st := newState()
	st.assume(Lt(Int(0), st.alloc))
	li := p.loopsOf(f)
	if li.irred {
		fail("irreducible control flow")
	}
	fr := &Frame{id: 0, fn: f, li: li}
	x.params = map[string]SVal{}
	names := append([]string{}, con.Params...)
	if con.Recv != "" {
		names = append([]string{con.Recv}, names...)
	}
	if len(names) != len(f.Params) {
		fail("contract names %d parameters, function has %d", len(names), len(f.Params))
	}
	for i, pr := range f.Params {
		c := Sym("p_"+names[i], sortOf(pr.Type()))
		st.regs[regKey{0, pr}] = c
		st.names[nameKey{0, pr.Name()}] = nameVal{v: c, typ: pr.Type()}
		st.assume(typeFacts(pr.Type(), c, st.alloc))
		x.params[names[i]] = SVal{T: c, Ty: pr.Type()}
		switch c.Sort {
		case "Int", "Bool", "Str", "Any", "F64", "F32":
			x.values = append(x.values, c)
			x.valueNames = append(x.valueNames, names[i])
		case "Slice":
			x.values = append(x.values, SlLen(c))
			x.valueNames = append(x.valueNames, "len("+names[i]+")")
		}
		// interesting lengths of table parameters
		if typeKey(pr.Type()) == "*Table" {
			func() {
				defer func() { recover() }()
				e := &Env{x: x, vars: x.params, cur: snapshot(st), old: snapshot(st), fresh0: st.alloc}
				for _, fn := range []string{"colNames", "colTypes", "rows", "sortKeys"} {
					x.values = append(x.values, e.eval(parseExpr("len("+names[i]+"."+fn+")")).T)
					x.valueNames = append(x.valueNames, "len("+names[i]+"."+fn+")")
				}
			}()
		}
	}
	for _, fv := range f.FreeVars {
		c := Sym("fv_"+fv.Name(), sortOf(fv.Type()))
		st.assume(typeFacts(fv.Type(), c, st.alloc))
		st.assume(Lt(Int(0), c))
		fr.free = append(fr.free, c)
	}
	x.entry = snapshot(st)
	env := x.env(st)
	for _, r := range con.Requires {
		st.assume(env.Bool(r.E))
	}
	for i, a := range con.Assumes {
		st.assume(env.Bool(a.E))
		p.TrustedUsed[x.key+" assumes "+clauseName(a, i)] = true
	}
	for i, sp := range con.Splits {
		b := env.Bool(sp.E)
		if con.mask>>i&1 == 0 {
			b = Not(b)
		}
		st.assume(b)
	}
	x.stack = []string{x.key}
	entryPc := st.pcList()
	rs := x.regions(con, env)
	type ret struct {
		pc []*Term
	}
	var rets []ret
	x.block(st, fr, f.Blocks[0], nil, func(st2 *State, vals []Val) {
		if st2.dead() {
			return
		}
		x.retPaths++
		sig := f.Signature
		vars := map[string]SVal{}
		for k, v := range x.params {
			vars[k] = v
		}
		var rt []*Term
		for _, v := range vals {
			rt = append(rt, x.term(st2, v))
		}
		bindResults(vars, con, sig, rt)
		rets = append(rets, ret{st2.pcList()})
		env := &Env{x: x, vars: vars, cur: snapshot(st2), old: x.entry, fresh0: x.entry.alloc}
		env.look = func(n string) (SVal, bool) {
			nv, ok := st2.names[nameKey{0, n}]
			if !ok {
				return SVal{}, false
			}
			if nv.addr {
				t, ok := x.load(st2, nv.v, nv.typ).(*Term)
				return SVal{T: t, Ty: nv.typ}, ok
			}
			t, ok := nv.v.(*Term)
			return SVal{T: t, Ty: nv.typ}, ok
		}
		pos := f.Pos()
		pc := st2.pcList()
		var parts []*Oblig
		var goals []*Term
		addPart := func(kind, name string, g *Term) {
			if g == True || st2.holds(g) {
				g = True
			}
			parts = append(parts, &Oblig{Fn: x.key, Kind: kind, Name: name, Pos: posStr(p, pos), Pc: pc, Goal: g, Timeout: con.Timeout})
			goals = append(goals, g)
		}
		for i, h := range con.Hints {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); !ok {
							panic(r)
						}
					}
				}()
				g := env.Bool(h.E)
				if x.S.Prove(st2.pcList(), g, 3000) {
					st2.assume(g)
				} else {
					x.note("hint %s not established on a path", clauseName(h, i))
				}
			}()
		}
		for _, g := range con.Given {
			st2.assume(env.Bool(g.E))
		}
		pc = st2.pcList()
		for i, e := range con.Ensures {
			addPart("post", clauseName(e, i), env.Bool(e.E))
		}
		// frame
		for _, k := range sortedKeys(st2.heap) {
			if con.only != "" {
				break
			}
			hi := heapTab[k]
			if st2.heap[k] == x.entry.get(k) || strings.HasPrefix(x.key, "ginv:") {
				continue
			}
			if hi.kind == "C" && opaqueSorts[sortOf(hi.typ)] {
				continue // private state of standard-library objects (bytes.Buffer, os.File, ...)
			}
			if hi.kind == "G" {
				if con.Restores[k] {
					continue
				}
				if !rs.whole[k] {
					addPart("frame", k, Eq(st2.heap[k], x.entry.get(k)))
				}
				continue
			}
			addPart("frame", k, frameGoal(rs, k, hi, st2.heap[k], x.entry.get(k), x.entry.alloc))
		}
		if con.Pure && con.only == "" && sigReturnsRef(sig) {
			addPart("frame", "alloc", Eq(st2.alloc, x.entry.alloc))
		}
		if x.suppress > 0 {
			return
		}
		o := &Oblig{Fn: x.key, Kind: "return", Name: fmt.Sprintf("path%d", x.retPaths), Pos: posStr(p, pos), Pc: pc, Goal: And(goals...), Parts: parts, Timeout: con.Timeout}
		o.Values, o.ValueNames = x.values, x.valueNames
		for i := range rt {
			switch rt[i].Sort {
			case "Int", "Bool", "Str", "Any":
				o.Values = append(append([]*Term{}, o.Values...), rt[i])
				o.ValueNames = append(append([]string{}, o.ValueNames...), fmt.Sprintf("result%d", i))
			}
		}
		o.Trace = append([]string{}, st2.trace...)
		x.obls = append(x.obls, o)
	})
	res.Obls = x.obls
	if con.only != "" { // what the body must observe is verified with the main part
		res.Obls = nil
		for _, o := range x.obls {
			if o.Kind == "return" {
				res.Obls = append(res.Obls, o)
			}
		}
	}
	res.Returns = x.retPaths
	res.Paths = x.paths
	res.entryText = BuildQuery(entryPc, False, nil)
	for i, r := range rets {
		if i < 40 {
			res.retTexts = append(res.retTexts, BuildQuery(r.pc, False, nil))
		}
	}
	res.mayNotReturn = con.MayPanic || len(con.PanicsIf) > 0
}

// checkVacuity: the precondition must not be refutable, and some return must be reachable.
func checkVacuity(s *Solver, res *FnResult) {
	if s.check(query{res.entryText, vacMs}) {
		res.Vacuous = "precondition is contradictory"
		return
	}
	if len(res.retTexts) == 0 {
		if !res.mayNotReturn {
			res.Vacuous = "no path returns"
		}
		return
	}
	// the last return is usually the successful one; a satisfiable entry condition makes one reachable return enough
	for i := len(res.retTexts) - 1; i >= 0; i-- {
		if !s.check(query{res.retTexts[i], vacMs}) {
			return
		}
	}
	res.Vacuous = "no return is reachable under the precondition"
}

func sigReturnsRef(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isErrorType(t) {
			continue
		}
		if refLike(t) || types.IsInterface(t) {
			return true
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// defaultMs is the time per solver attempt of an obligation, vacMs that of a vacuity query.
var defaultMs, vacMs = 6000, 400

func discharge(p *Program, s *Solver, res *FnResult) {
	type job struct {
		o     *Oblig
		text  string
		parts []string
	}
	var jobs []job
	for _, o := range res.Obls {
		jobs = append(jobs, job{o: o, text: BuildQuery(o.Pc, o.Goal, nil)})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var split []*Oblig
	// terms are built by one goroutine at a time
	several := map[*Oblig]bool{}
	for _, j := range jobs {
		several[j.o] = len(j.o.Parts) > 1 || len(j.o.Parts) == 1 && len(conjuncts(j.o.Goal)) > 1
	}
	wg.Add(1)
	go func() { defer wg.Done(); checkVacuity(s, res) }()
	for _, j := range jobs {
		if j.o.Goal == True {
			j.o.Status, j.o.Solver = "proved", "simplifier"
			continue
		}
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			ms := defaultMs
			if j.o.Timeout > 0 {
				ms = j.o.Timeout * 1000
			}
			if several[j.o] {
				if s.check(query{j.text, ms / 2}) {
					j.o.Status, j.o.Solver = "proved", "z3-4.8.12"
				} else {
					mu.Lock()
					split = append(split, j.o)
					mu.Unlock()
				}
				return
			}
			s.Discharge(j.o, j.text, ms)
		}(j)
	}
	wg.Wait()
	// split failing conjunctions into named parts (each may assume the earlier ones)
	type pj struct {
		o    *Oblig
		part *Oblig
		text string
		subs []string // the goal conjunct by conjunct, each assuming the earlier ones
		subT []*Term
	}
	var pjs []pj
	for _, o := range split {
		acc := append([]*Term{}, o.Pc...)
		for _, pt := range o.Parts {
			pt.Values, pt.ValueNames = o.Values, o.ValueNames
			if pt.Goal == True {
				pt.Status = "proved"
				continue
			}
			pt.Pc = append([]*Term{}, acc...)
			j := pj{o: o, part: pt, text: BuildQuery(pt.Pc, pt.Goal, nil)}
			if cs := conjuncts(pt.Goal); len(cs) > 1 {
				a := append([]*Term{}, pt.Pc...)
				for _, c := range cs {
					j.subs = append(j.subs, BuildQuery(a, c, nil))
					j.subT = append(j.subT, c)
					a = append(a, c)
				}
			}
			pjs = append(pjs, j)
			acc = append(acc, pt.Goal)
		}
	}
	for _, j := range pjs {
		wg.Add(1)
		go func(j pj) {
			defer wg.Done()
			ms := defaultMs
			if j.part.Timeout > 0 {
				ms = j.part.Timeout * 1000
			}
			if len(j.subs) == 0 {
				s.Discharge(j.part, j.text, ms)
				return
			}
			if s.check(query{j.text, ms / 3}) {
				j.part.Status, j.part.Solver = "proved", "z3-4.8.12"
				return
			}
			j.part.Status = "proved"
			for i, text := range j.subs {
				sub := &Oblig{Fn: j.part.Fn, Kind: j.part.Kind, Name: j.part.Name}
				s.Discharge(sub, text, ms)
				j.part.Ms += sub.Ms
				j.part.Solver = sub.Solver
				if sub.Status != "proved" {
					j.part.Status = "failed"
					j.part.Pc, j.part.Goal = append(append([]*Term{}, j.part.Pc...), j.subT[:i]...), j.subT[i]
					break
				}
			}
		}(j)
	}
	wg.Wait()
	for _, o := range split {
		o.Status = "proved"
		solvers := map[string]bool{}
		for _, pt := range o.Parts {
			if pt.Status != "proved" {
				o.Status = "failed"
				if dumpDir != "" {
					dumpQuery(sanitize(pt.ID())+"-"+o.Name, BuildQuery(pt.Pc, pt.Goal, nil))
				}
			} else if pt.Solver != "" {
				solvers[pt.Solver] = true
			}
		}
		var ss []string
		for k := range solvers {
			ss = append(ss, k)
		}
		sort.Strings(ss)
		o.Solver = strings.Join(ss, "+")
	}
	for _, o := range res.Obls {
		if o.Status != "proved" && dumpDir != "" {
			dumpQuery(sanitize(o.ID())+"-"+fmt.Sprint(len(o.Pc)), BuildQuery(o.Pc, o.Goal, nil))
		}
	}
}

// conjuncts splits a goal into the conjuncts to prove one after the other.
func conjuncts(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range conjuncts(g.Args[1]) {
			out = append(out, Implies(g.Args[0], a))
		}
		return out
	}
	return []*Term{g}
}

var _ = ssa.NaiveForm

func ginvKeys(db *SpecDB) []string {
	var out []string
	seen := map[string]bool{}
	for _, g := range db.Ginvs {
		if !seen[g.Global] {
			seen[g.Global] = true
			out = append(out, "ginv:"+g.Global)
		}
	}
	return out
}

// VerifyGinv checks that the only init function storing a package variable
// establishes the declared invariants (and that nothing else stores it).
func VerifyGinv(p *Program, s *Solver, name string) *FnResult {
	key := "ginv:" + name
	g, ok := p.SPkg.Members[name].(*ssa.Global)
	if !ok {
		return &FnResult{Key: key, Unsupported: "no package variable " + name}
	}
	if p.stored[g] {
		return &FnResult{Key: key, Unsupported: "package variable " + name + " is written outside init"}
	}
	var f *ssa.Function
	for _, h := range p.initStores[g] {
		if f != nil && h != f {
			return &FnResult{Key: key, Unsupported: "package variable " + name + " is written by several init functions"}
		}
		f = h
	}
	if f == nil {
		return &FnResult{Key: key, Unsupported: "package variable " + name + " is never initialised"}
	}
	if _, isMap := types.Unalias(g.Type().(*types.Pointer).Elem()).Underlying().(*types.Map); isMap && p.badG[g] {
		return &FnResult{Key: key, Unsupported: "the map " + name + " may be changed after initialisation"}
	}
	// not its own premise; function values are known by their contracts
	savedF := map[string][]*Term{}
	for fn, as := range funAxioms {
		var keep []*Term
		for _, a := range as {
			if axOwner[a.ID] != key {
				keep = append(keep, a)
			}
		}
		if len(keep) != len(as) {
			savedF[fn] = as
			funAxioms[fn] = keep
		}
	}
	for fn, as := range p.asValueAxioms() {
		if _, ok := savedF[fn]; !ok {
			savedF[fn] = funAxioms[fn]
		}
		funAxioms[fn] = append(append([]*Term{}, funAxioms[fn]...), as...)
	}
	savedL := p.ginvLoad
	p.ginvLoad = map[string][]*Term{}
	defer func() {
		p.ginvLoad = savedL
		for fn, as := range savedF {
			funAxioms[fn] = as
		}
	}()
	con := &Contract{Key: key}
	for _, gi := range p.DB.Ginvs {
		if gi.Global == name {
			con.Ensures = append(con.Ensures, &Clause{E: gi.E, Src: gi.Src})
		}
	}
	if ig, ok := p.SPkg.Members["init$guard"].(*ssa.Global); ok { // initialisation runs once
		ik := globalKey(ig) + "@0"
		savedI := symAxioms[ik]
		symAxioms[ik] = []*Term{Not(Sym(ik, "Bool"))}
		defer func() { symAxioms[ik] = savedI }()
	}
	gk := globalKey(g) + "@0"
	saved := symAxioms[gk]
	t := g.Type().(*types.Pointer).Elem()
	symAxioms[gk] = []*Term{Eq(Sym(gk, sortOf(t)), zeroOf(t))}
	defer func() { symAxioms[gk] = saved }()
	oldF, oldC := p.Funcs[key], p.DB.Contracts[key]
	p.Funcs[key], p.DB.Contracts[key] = f, con
	defer func() { p.Funcs[key], p.DB.Contracts[key] = oldF, oldC }()
	return VerifyFn(p, s, key)
}

// A verification task is a contract key, or one part of a contract under one combination of its split conditions.
func taskKeys(db *SpecDB, key string) []string {
	con := db.Contracts[key]
	if con == nil || len(con.Splits)+len(con.Parts) == 0 {
		return []string{key}
	}
	var out []string
	for _, part := range append([]string{""}, con.Parts...) {
		for m := 0; m < 1<<len(con.Splits); m++ {
			if i, ok := con.unless[part]; ok && m>>i&1 == 1 {
				continue
			}
			out = append(out, fmt.Sprintf("%s@%d@%s", key, m, part))
		}
	}
	return out
}

func splitKey(task string) (key string, mask int, part string) {
	fs := strings.Split(task, "@")
	if len(fs) == 3 {
		fmt.Sscan(fs[1], &mask)
		return fs[0], mask, fs[2]
	}
	return task, 0, ""
}

func (c *Contract) section(mask int, part string) *Contract {
	d := *c
	d.mask, d.only, d.Invs, d.Ensures = mask, part, nil, nil
	for _, e := range c.Ensures {
		switch e.Part {
		case part:
			d.Ensures = append(d.Ensures, e)
		case "":
			d.Given = append(d.Given, e)
		}
	}
	for _, v := range c.Invs {
		if v.Part == "" || v.Part == part {
			d.Invs = append(d.Invs, v)
		}
	}
	return &d
}

// merge adds the report of another task of the same function.
func (r *FnReport) merge(o *FnReport) {
	r.Total += o.Total
	r.Proved += o.Proved
	r.Rets += o.Rets
	r.Ms = max(r.Ms, o.Ms)
	r.SolverMs += o.SolverMs
	r.Queries += o.Queries
	if r.BySolver == nil {
		r.BySolver, r.Kinds = map[string]int{}, map[string]int{}
	}
	for k, n := range o.BySolver {
		r.BySolver[k] += n
	}
	for k, n := range o.Kinds {
		r.Kinds[k] += n
	}
	r.Failed = append(r.Failed, o.Failed...)
	if r.Unsupported == "" {
		r.Unsupported = o.Unsupported
	}
	if r.Vacuous == "" || o.Vacuous == "" { // one combination that can occur is enough
		r.Vacuous = ""
	}
	union := func(a, b []string) []string {
		m := map[string]bool{}
		for _, k := range append(append([]string{}, a...), b...) {
			m[k] = true
		}
		return keysOf(m)
	}
	r.Externs, r.Trusted, r.Inlined = union(r.Externs, o.Externs), union(r.Trusted, o.Trusted), union(r.Inlined, o.Inlined)
	r.Used, r.Notes, r.Loops = union(r.Used, o.Used), union(r.Notes, o.Notes), union(r.Loops, o.Loops)
}
