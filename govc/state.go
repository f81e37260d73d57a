package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

// Addr is a symbolic address that has not escaped.
type Addr struct {
	Kind string // "field","elem","cell","local","global"
	Key  string // heap key
	Obj  *Term  // object / array id
	Idx  *Term  // element position
	Cell *LocalCell
	Typ  types.Type // type of the root location
	Path []step
}
type step struct {
	field int // >=0 struct field
	idx   *Term
	typ   types.Type // type before the step
}

type LocalCell struct {
	id  int
	typ types.Type
	blk *ssa.Alloc
	fr  int
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
	ID   *Term
}

// LocalSlice is a slice of a non-escaping array (varargs).
type LocalSlice struct {
	Cell *LocalCell
	N    int
	Elem types.Type
}

type IterVal struct {
	X     Val
	Typ   types.Type
	Pos   *LocalCell
	IsStr bool
	Dom0  *Term // map: its keys when the iteration began
}

type regKey struct {
	fr int
	v  ssa.Value
}
type nameKey struct {
	fr int
	n  string
}
type nameVal struct {
	v    Val
	addr bool
	typ  types.Type
}

type pcNode struct {
	t    *Term
	prev *pcNode
}

type State struct {
	regs   map[regKey]Val
	names  map[nameKey]nameVal
	heap   map[string]*Term
	alloc  *Term
	locals map[int]Val
	iter   map[string]*Term // ghost loop counters "fr:block"
	loops  []loopTag        // active loop nest, outermost first
	pc     *pcNode
	facts  map[int]bool
	trace  []string
}
type loopTag struct {
	fr  int
	blk int
	k   *Term
}

func newState() *State {
	return &State{regs: map[regKey]Val{}, names: map[nameKey]nameVal{}, heap: map[string]*Term{}, alloc: Sym("alloc@0", "Int"), locals: map[int]Val{}, facts: map[int]bool{}}
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, pc: s.pc}
	n.regs = make(map[regKey]Val, len(s.regs)+8)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.names = make(map[nameKey]nameVal, len(s.names)+8)
	for k, v := range s.names {
		n.names[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.locals = make(map[int]Val, len(s.locals)+4)
	for k, v := range s.locals {
		n.locals[k] = v
	}
	n.facts = make(map[int]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.loops = append([]loopTag{}, s.loops...)
	n.trace = append([]string{}, s.trace...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.facts[t.ID] {
		return
	}
	s.facts[t.ID] = true
	s.pc = &pcNode{t, s.pc}
}
func (s *State) holds(t *Term) bool {
	if t == True || s.facts[t.ID] {
		return true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !s.holds(a) {
				return false
			}
		}
		return true
	}
	if t.Op == "or" {
		for _, a := range t.Args {
			if s.holds(a) {
				return true
			}
		}
	}
	return false
}

// dead reports a syntactically contradictory path.
func (s *State) dead() bool { return s.facts[False.ID] }

func (s *State) pcList() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.prev {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- heaps ----

type heapInfo struct {
	key  string
	kind string
	srt  string
	typ  types.Type // leaf type
}

var heapTab = map[string]*heapInfo{}

func regHeap(key, kind, srt string, leaf types.Type) string {
	if _, ok := heapTab[key]; !ok {
		hi := &heapInfo{key, kind, srt, leaf}
		heapTab[key] = hi
		heapWF(Sym(key+"@0", srt), hi, Sym("alloc@0", "Int"))
	}
	return key
}

// heapWF attaches well-formedness facts to a heap constant.
func heapWF(c *Term, hi *heapInfo, alloc *Term) {
	var body *Term
	r := BVar("r?", "Int")
	ok := And(Le(Int(0), r), Lt(r, alloc))
	switch hi.kind {
	case "F", "C":
		if !refLike(hi.typ) {
			return
		}
		sel := Select(c, r)
		body = Quant("forall", []*Term{r}, Implies(ok, typeFacts(hi.typ, sel, alloc)), [][]*Term{{sel}})
	case "E":
		if !refLike(hi.typ) {
			return
		}
		p := BVar("p?", "Int")
		sel := Select(Select(c, r), p)
		body = Quant("forall", []*Term{r, p}, Implies(ok, typeFacts(hi.typ, sel, alloc)), [][]*Term{{sel}})
	case "ML":
		sel := Select(c, r)
		body = Quant("forall", []*Term{r}, Implies(ok, Le(Int(0), sel)), [][]*Term{{sel}})
	case "MD":
		k := BVar("k?", hi.srt[len("(Array Int (Array "):strings.Index(hi.srt, " Bool)")])
		sel := Select(Select(c, r), k)
		body = Quant("forall", []*Term{r, k}, Implies(sel, Ne(r, Int(0))), [][]*Term{{sel}})
	case "G":
		if hi.typ == nil {
			return
		}
		body = typeFacts(hi.typ, c, alloc)
	default:
		return
	}
	if body == True {
		return
	}
	symAxioms[c.Name] = append(symAxioms[c.Name], body)
}

func fieldKey(structT types.Type, f int) string {
	si := structSort(structT)
	k := "F!" + typeKey(structT) + "!" + si.fnames[f]
	return regHeap(k, "F", arrSort(si.sorts[f]), si.types[f])
}
func elemKey(elem types.Type) string {
	return regHeap("E!"+typeKey(elem), "E", arrSort(arrSort(sortOf(elem))), elem)
}
func cellKey(t types.Type) string {
	return regHeap("C!"+typeKey(t), "C", arrSort(sortOf(t)), t)
}
func mapKeys(m *types.Map) (d, v, l string) {
	k := typeKey(m)
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	d = regHeap("MD!"+k, "MD", arrSort("(Array "+ks+" Bool)"), m.Key())
	v = regHeap("MV!"+k, "MV", arrSort("(Array "+ks+" "+vs+")"), m.Elem())
	l = regHeap("ML!"+k, "ML", arrSort("Int"), types.Typ[types.Int])
	return
}
func globalKey(g *ssa.Global) string {
	t := g.Type().(*types.Pointer).Elem()
	return regHeap("G!"+g.Pkg.Pkg.Name()+"."+g.Name(), "G", sortOf(t), t)
}

func heapGet(h map[string]*Term, key string) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	hi := heapTab[key]
	if hi == nil {
		panic("unknown heap " + key)
	}
	return Sym(key+"@0", hi.srt)
}
func (s *State) H(key string) *Term       { return heapGet(s.heap, key) }
func (s *State) setH(key string, t *Term) { s.heap[key] = t }

// havocHeap replaces a heap by an unconstrained (but well-formed) one.
func (s *State) havocHeap(key string) *Term {
	hi := heapTab[key]
	c := Fresh(key, hi.srt)
	heapWF(c, hi, s.alloc)
	s.heap[key] = c
	return c
}

func snapshot(s *State) *HeapView {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &HeapView{h, s.alloc}
}

type HeapView struct {
	heap  map[string]*Term
	alloc *Term
}

func (h *HeapView) get(key string) *Term { return heapGet(h.heap, key) }

func isHeapKeyGlobal(k string) bool { return strings.HasPrefix(k, "G!") }

type unsupported struct{ msg string }

func fail(format string, a ...interface{}) { panic(unsupported{fmt.Sprintf(format, a...)}) }
