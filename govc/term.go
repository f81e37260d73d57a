package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed, sorted SMT term. Op conventions:
//
//	"#i"  integer literal (Name decimal)      "#s" string literal (Name = Go string)
//	"#c"  constant symbol (Name)              "#v" bound variable (Name)
//	"forall"/"exists" quantifier              otherwise an SMT operator or function symbol
type Term struct {
	Op   string
	Name string
	Args []*Term
	Vars []*Term
	Pats [][]*Term
	Sort string
	ID   int
	bnd  bool // contains a bound variable
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Name: name, Sort: srt, Args: args, ID: termCount}
	if op == "#v" {
		t.bnd = true
	}
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	termTab[key] = t
	return t
}

var (
	True  = mk("true", "", "Bool")
	False = mk("false", "", "Bool")
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(n int64) *Term { return mk("#i", strconv.FormatInt(n, 10), "Int") }
func IntBig(s string) *Term {
	return mk("#i", s, "Int")
}
func StrLit(s string) *Term { return mk("#s", s, "Str") }
func Sym(name, srt string) *Term {
	return mk("#c", name, srt)
}
func BVar(name, srt string) *Term { return mk("#v", name, srt) }

var freshN int

func Fresh(hint, srt string) *Term {
	freshN++
	return Sym(fmt.Sprintf("%s!%d", sanitize(hint), freshN), srt)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' || r == '$' || r == '@' {
			sb.WriteRune(r)
		} else if r == '*' {
			sb.WriteString("P.")
		} else if r == '[' || r == ']' {
			sb.WriteString("_")
		} else {
			sb.WriteString("_")
		}
	}
	return sb.String()
}

func isInt(t *Term) (*big.Int, bool) {
	if t.Op == "#i" {
		n, ok := new(big.Int).SetString(t.Name, 10)
		return n, ok
	}
	return nil, false
}
func fromBig(n *big.Int) *Term { return mk("#i", n.String(), "Int") }

// splitAdd returns base,const with t == base + const (base nil if constant).
func splitAdd(t *Term) (*Term, *big.Int) {
	if n, ok := isInt(t); ok {
		return nil, n
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := isInt(t.Args[1]); ok {
			return t.Args[0], n
		}
	}
	return t, big.NewInt(0)
}

func Add(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	c := new(big.Int).Add(ca, cb)
	var base *Term
	switch {
	case ba == nil && bb == nil:
		return fromBig(c)
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		if ba.Op == "-" && len(ba.Args) == 2 && ba.Args[1] == bb { // (x - y) + y
			return Add(ba.Args[0], fromBig(c))
		}
		if bb.Op == "-" && len(bb.Args) == 2 && bb.Args[1] == ba {
			return Add(bb.Args[0], fromBig(c))
		}
		if bb.ID < ba.ID {
			ba, bb = bb, ba
		}
		base = mk("+", "", "Int", ba, bb)
	}
	if c.Sign() == 0 {
		return base
	}
	return mk("+", "", "Int", base, fromBig(c))
}
func Neg(a *Term) *Term {
	if n, ok := isInt(a); ok {
		return fromBig(new(big.Int).Neg(n))
	}
	return Sub(Int(0), a)
}
func Sub(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	c := new(big.Int).Sub(ca, cb)
	if bb == nil {
		if ba == nil {
			return fromBig(c)
		}
		return Add(ba, fromBig(c))
	}
	if ba == bb {
		return fromBig(c)
	}
	if ba != nil && ba.Op == "+" && len(ba.Args) == 2 {
		if ba.Args[0] == bb {
			return Add(ba.Args[1], fromBig(c))
		}
		if ba.Args[1] == bb {
			return Add(ba.Args[0], fromBig(c))
		}
	}
	if ba == nil {
		return mk("-", "", "Int", fromBig(c), bb)
	}
	return Add(mk("-", "", "Int", ba, bb), fromBig(c))
}
func Mul(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		return fromBig(new(big.Int).Mul(x, y))
	}
	if ok1 && x.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if ok2 && y.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("*", "", "Int", a, b)
}

func Le(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return BoolT(ca.Cmp(cb) <= 0)
	}
	if nonneg(b) && ba == nil && ca.Sign() <= 0 {
		return True
	}
	return mk("<=", "", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return BoolT(ca.Cmp(cb) < 0)
	}
	return mk("<", "", "Bool", a, b)
}
func nonneg(t *Term) bool { return false }

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<":
		return Le(a.Args[1], a.Args[0])
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	}
	return mk("not", "", "Bool", a)
}
func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if t == True || seen[t.ID] {
			return true
		}
		if t == False {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, t := range out {
		if seen[Not(t).ID] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", "Bool", out...)
}
func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False {
			continue
		}
		l := []*Term{a}
		if a.Op == "or" {
			l = a.Args
		}
		for _, t := range l {
			if !seen[t.ID] {
				seen[t.ID] = true
				out = append(out, t)
			}
		}
	}
	for _, t := range out {
		if seen[Not(t).ID] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", "Bool", out...)
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", "Bool", a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == "Bool" {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return mk("ite", "", a.Sort, c, a, b)
}

// datatype constructors registry: constructor name -> accessor names
var ctorAccs = map[string][]string{}
var accCtor = map[string]string{} // accessor -> ctor
var accIdx = map[string]int{}
var accSort = map[string]string{}

func registerCtor(c string, accs []string, sorts []string) {
	ctorAccs[c] = accs
	for i, a := range accs {
		accCtor[a] = c
		accIdx[a] = i
		accSort[a] = sorts[i]
	}
}
func isCtor(t *Term) bool { _, ok := ctorAccs[t.Op]; return ok }

func definitelyDifferent(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.Sort {
	case "Int":
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return ca.Cmp(cb) != 0
		}
	case "Str":
		return a.Op == "#s" && b.Op == "#s"
	case "Bool":
		return a == True && b == False || a == False && b == True
	}
	if isCtor(a) && isCtor(b) {
		if a.Op != b.Op {
			return true
		}
		for i := range a.Args {
			if definitelyDifferent(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sort mismatch %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a == b {
		return True
	}
	if definitelyDifferent(a, b) {
		return False
	}
	if a.Sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "ite" && isLeafConst(b) {
		x, y := Eq(a.Args[1], b), Eq(a.Args[2], b)
		if (x == True || x == False) && (y == True || y == False) {
			return Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && isLeafConst(a) {
		return Eq(b, a)
	}
	if b.ID < a.ID {
		a, b = b, a
	}
	return mk("=", "", "Bool", a, b)
}
func isLeafConst(t *Term) bool {
	return t.Op == "#i" || t.Op == "#s" || (isCtor(t) && len(t.Args) == 0) || t == True || t == False
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func arrElemSort(s string) string {
	// "(Array K V)"
	k, v := arrKV(s)
	_ = k
	return v
}
func arrKV(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if definitelyDifferent(normIdx(a.Args[1]), normIdx(i)) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") && a.Args[1].Op != "ite" && a.Args[2].Op != "ite" {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk("select", "", arrElemSort(a.Sort), a, i)
}

// normIdx turns idx(0,i) into i for the purpose of syntactic disequality.
func normIdx(t *Term) *Term {
	if t.Op == "idx" {
		if n, ok := isInt(t.Args[0]); ok && n.Sign() == 0 {
			return t.Args[1]
		}
		// idx(o, o') as sum
		return Add(normIdx(t.Args[0]), t.Args[1])
	}
	return t
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, a, i, v)
}
func ConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, v) }

// Idx is the element position of index i in a slice whose offset is off.
func Idx(off, i *Term) *Term {
	if n, ok := isInt(i); ok && n.Sign() == 0 && off.Op == "idx" {
		return off
	}
	if off.Op == "idx" {
		return mk("idx", "", "Int", off.Args[0], Add(off.Args[1], i))
	}
	return mk("idx", "", "Int", off, i)
}

func App(fn, srt string, args ...*Term) *Term {
	if accs, ok := accIdx[fn]; ok && len(args) == 1 {
		c := accCtor[fn]
		if args[0].Op == c {
			return args[0].Args[accs]
		}
		if args[0].Op == "ite" {
			x, y := args[0].Args[1], args[0].Args[2]
			if x.Op == c && y.Op == c {
				return Ite(args[0].Args[0], x.Args[accs], y.Args[accs])
			}
		}
	}
	if fn == "uf_bytetext" && args[0].Op == "#i" {
		// the text of one known byte
		if c, err := strconv.Atoi(args[0].Name); err == nil && c >= 0 && c <= 255 {
			return StrLit(string([]byte{byte(c)}))
		}
	}
	return mk(fn, "", srt, args...)
}

// IsC tests a datatype constructor.
func IsC(ctor string, t *Term) *Term {
	if isCtor(t) {
		return BoolT(t.Op == ctor)
	}
	if t.Op == "ite" {
		x, y := IsC(ctor, t.Args[1]), IsC(ctor, t.Args[2])
		if (x == True || x == False) && (y == True || y == False) {
			return Ite(t.Args[0], x, y)
		}
	}
	return mk("is", ctor, "Bool", t)
}

func Quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	// drop unused variables? keep simple.
	key := q
	for _, v := range vars {
		key += "," + v.Name + ":" + v.Sort
	}
	key += "|" + strconv.Itoa(body.ID)
	for _, p := range pats {
		key += ";"
		for _, x := range p {
			key += strconv.Itoa(x.ID) + "."
		}
	}
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{Op: q, Args: []*Term{body}, Vars: vars, Pats: pats, Sort: "Bool", ID: termCount}
	t.bnd = freeBound(t)
	termTab[key] = t
	return t
}

func freeBound(t *Term) bool {
	bound := map[string]int{}
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if !t.bnd && t.Op != "forall" && t.Op != "exists" {
			return false
		}
		if t.Op == "#v" {
			return bound[t.Name] == 0
		}
		if t.Op == "forall" || t.Op == "exists" {
			for _, v := range t.Vars {
				bound[v.Name]++
			}
			r := f(t.Args[0])
			for _, v := range t.Vars {
				bound[v.Name]--
			}
			return r
		}
		_ = seen
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

var bvN int

func FreshBV(hint, srt string) *Term {
	bvN++
	return BVar(fmt.Sprintf("%s?%d", sanitize(hint), bvN), srt)
}

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case "#i", "#c", "#v":
		return t.Name
	case "#s":
		return strconv.Quote(t.Name)
	case "forall", "exists":
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, v.Name)
		}
		return "(" + t.Op + " " + strings.Join(vs, " ") + " " + t.Args[0].str(d+1) + ")"
	case "is":
		return "(is-" + t.Name + " " + t.Args[0].str(d+1) + ")"
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	return "(" + t.Op + " " + strings.Join(as, " ") + ")"
}

// ---------- SMT-LIB printing ----------

type printer struct {
	refs   map[int]int
	order  []*Term
	names  map[int]string
	consts map[string]string
	strs   map[string]*Term
	funs   map[string]bool
	out    strings.Builder
}

func smtSym(s string) string {
	if simpleSym(s) {
		return s
	}
	return "|" + s + "|"
}

var strLitIDs = map[string]int{}

var strSyms = map[string]string{}

func strSym(s string) string {
	if c, ok := strSyms[s]; ok {
		return c
	}
	c := strSym1(s)
	strSyms[s] = c
	return c
}

func strSym1(s string) string {
	id, ok := strLitIDs[s]
	if !ok {
		id = len(strLitIDs)
		strLitIDs[s] = id
	}
	short := sanitize(s)
	if len(short) > 20 {
		short = short[:20]
	}
	return fmt.Sprintf("|s%d:%s|", id, short)
}

func (p *printer) visit(t *Term) {
	p.refs[t.ID]++
	if p.refs[t.ID] > 1 {
		return
	}
	switch t.Op {
	case "#c":
		p.consts[t.Name] = t.Sort
	case "#s":
		p.strs[t.Name] = t
	case "#i", "#v":
	default:
		p.funs[t.Op] = true
	}
	for _, a := range t.Args {
		p.visit(a)
	}
	for _, ps := range t.Pats {
		for _, x := range ps {
			p.visit(x)
		}
	}
	p.order = append(p.order, t)
}

func (p *printer) expr(t *Term) string {
	var sb strings.Builder
	p.write(&sb, t)
	return sb.String()
}

func (p *printer) write(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t.ID]; ok {
		sb.WriteString(n)
		return
	}
	p.raw(sb, t)
}

func (p *printer) rawText(t *Term) string {
	var sb strings.Builder
	p.raw(&sb, t)
	return sb.String()
}

func (p *printer) raw(sb *strings.Builder, t *Term) {
	switch t.Op {
	case "#i":
		if strings.HasPrefix(t.Name, "-") {
			sb.WriteString("(- " + t.Name[1:] + ")")
			return
		}
		sb.WriteString(t.Name)
		return
	case "#c", "#v":
		writeSym(sb, t.Name)
		return
	case "#s":
		sb.WriteString(strSym(t.Name))
		return
	case "true", "false":
		sb.WriteString(t.Op)
		return
	case "is":
		sb.WriteString("((_ is " + smtName(t.Name) + ") ")
		p.write(sb, t.Args[0])
		sb.WriteByte(')')
		return
	case "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		p.write(sb, t.Args[0])
		sb.WriteByte(')')
		return
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + smtSym(v.Name) + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		pats := usablePats(t)
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		p.write(sb, t.Args[0])
		for _, ps := range pats {
			sb.WriteString(" :pattern (")
			for i, x := range ps {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.write(sb, x)
			}
			sb.WriteString(")")
		}
		if len(pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case "#real":
		sb.WriteString(t.Name)
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(smtName(t.Op))
		return
	}
	sb.WriteByte('(')
	if smtBuiltins[t.Op] {
		sb.WriteString(t.Op)
	} else {
		writeSym(sb, t.Op)
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		p.write(sb, a)
	}
	sb.WriteByte(')')
}

func simpleSym(s string) bool {
	simple := s != "" && !(s[0] >= '0' && s[0] <= '9') && s[0] != '.' && s[0] != '@'
	for i := 0; i < len(s) && simple; i++ {
		c := s[i]
		simple = c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '@'
	}
	return simple
}

func writeSym(sb *strings.Builder, s string) {
	if simpleSym(s) {
		sb.WriteString(s)
		return
	}
	sb.WriteByte('|')
	sb.WriteString(s)
	sb.WriteByte('|')
}

// usablePats leaves out patterns that simplification has reduced to constants or bare variables.
func usablePats(t *Term) [][]*Term {
	var out [][]*Term
	for _, ps := range t.Pats {
		ok := true
		for _, x := range ps {
			if len(x.Args) == 0 || !x.bnd {
				ok = false
			}
		}
		if ok {
			out = append(out, ps)
		}
	}
	return out
}

var smtBuiltins = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "select": true, "store": true,
	"+": true, "-": true, "*": true, "div": true, "mod": true, "<": true, "<=": true, "true": true, "false": true, "forall": true, "exists": true, "is": true, "constarr": true,
	"distinct": true}

func smtName(op string) string {
	if smtBuiltins[op] {
		return op
	}
	if op == "unit32" || op == "unit64" {
		return op
	}
	return smtSym(op)
}

// BuildQuery prints a complete SMT-LIB query: assumptions and the negated goal.
func BuildQuery(assumps []*Term, goal *Term, extraValues []*Term) string {
	p := &printer{refs: map[int]int{}, names: map[int]string{}, consts: map[string]string{}, strs: map[string]*Term{}, funs: map[string]bool{}}
	all := append([]*Term{}, assumps...)
	var neg []*Term
	if goal != nil {
		neg = negated(goal)
		all = append(all, neg...)
	}
	// close under attached axioms
	inc := map[int]bool{}
	for _, a := range all {
		inc[a.ID] = true
		p.visit(a)
	}
	for _, v := range extraValues {
		p.visit(v)
	}
	doneF := map[string]bool{}
	doneC := map[string]bool{}
	var axioms []*Term
	for {
		changed := false
		var fs []string
		for f := range p.funs {
			if !doneF[f] {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, f := range fs {
			doneF[f] = true
			for _, ax := range funAxioms[f] {
				if !inc[ax.ID] {
					inc[ax.ID] = true
					axioms = append(axioms, ax)
					if o := axOwner[ax.ID]; o != "" {
						usedAxioms[o] = true
					}
					p.visit(ax)
					changed = true
				}
			}
			changed = true
		}
		var cs []string
		for c := range p.consts {
			if !doneC[c] {
				cs = append(cs, c)
			}
		}
		sort.Strings(cs)
		for _, c := range cs {
			doneC[c] = true
			for _, ax := range symAxioms[c] {
				if !inc[ax.ID] {
					inc[ax.ID] = true
					if o := axOwner[ax.ID]; o != "" {
						usedAxioms[o] = true
					}
					axioms = append(axioms, ax)
					p.visit(ax)
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	var sb strings.Builder
	sb.WriteString(preludeText())
	var cs []string
	for c := range p.consts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	// string literals
	var ss []string
	for s := range p.strs {
		ss = append(ss, s)
	}
	for _, s := range litClosure(p, ss) {
		if _, ok := p.strs[s]; !ok {
			p.strs[s] = StrLit(s)
			ss = append(ss, s)
		}
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", strSym(s))
	}
	if len(ss) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range ss {
			sb.WriteString(" " + strSym(s))
		}
		sb.WriteString("))\n")
	}
	var fs []string
	for f := range p.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if sig, ok := funSigs[f]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtSym(f), strings.Join(sig.Args, " "), sig.Res)
		}
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtSym(c), p.consts[c])
	}
	if p.funs["strlen"] {
		for _, s := range ss {
			fmt.Fprintf(&sb, "(assert (= (|strlen| %s) %d))\n", strSym(s), len(s))
		}
	}
	if p.funs["strat"] {
		for _, s := range ss {
			if len(s) <= 16 {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&sb, "(assert (= (|strat| %s %d) %d))\n", strSym(s), i, s[i])
				}
			}
		}
	}
	for _, hook := range litHooks {
		if p.funs[hook.fn] {
			for _, s := range ss {
				if x := hook.f(s); x != "" {
					fmt.Fprintf(&sb, "(assert %s)\n", x)
				}
			}
		}
	}
	// shared subterms
	n := 0
	emit := func(t *Term) {
		if p.names[t.ID] != "" || t.bnd || len(t.Args) == 0 || t.Op == "#c" {
			return
		}
		if t.Op == "store" {
			// a constant of its own, so that patterns over it stay select terms
			n++
			nm := fmt.Sprintf("a%d", n)
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n(assert (= %s %s))\n", nm, t.Sort, nm, p.rawText(t))
			p.names[t.ID] = nm
			return
		}
		if p.refs[t.ID] < 2 {
			return
		}
		n++
		nm := fmt.Sprintf("d%d", n)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, t.Sort, p.rawText(t))
		p.names[t.ID] = nm
	}
	for _, t := range p.order {
		emit(t)
	}
	// a short piece of a string is a literal exactly when its bytes are the literal's
	for _, t := range p.order {
		if t.Op != "substr" || t.bnd || t.Args[1].Op != "#i" || t.Args[2].Op != "#i" {
			continue
		}
		l, err1 := strconv.Atoi(t.Args[1].Name)
		h, err2 := strconv.Atoi(t.Args[2].Name)
		if err1 != nil || err2 != nil || l < 0 || h <= l || h-l > 4 {
			continue
		}
		for _, s := range ss {
			if len(s) != h-l {
				continue
			}
			fmt.Fprintf(&sb, "(assert (=> (<= %d (|strlen| %s)) (= (= %s %s) (and", h, p.expr(t.Args[0]), p.expr(t), strSym(s))
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&sb, " (= (|strat| %s %d) %d)", p.expr(t.Args[0]), l+i, s[i])
			}
			sb.WriteString("))))\n")
		}
	}
	for _, ax := range axioms {
		sb.WriteString("(assert ")
		p.write(&sb, ax)
		sb.WriteString(")\n")
	}
	for _, a := range assumps {
		sb.WriteString("(assert ")
		p.write(&sb, a)
		sb.WriteString(")\n")
	}
	for _, g := range neg {
		sb.WriteString("(assert ")
		p.write(&sb, g)
		sb.WriteString(")\n")
	}
	sb.WriteString("(push 1)\n(check-sat)\n")
	if len(extraValues) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range extraValues {
			sb.WriteString(" " + p.expr(v))
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

type funSig struct {
	Args []string
	Res  string
}

var funSigs = map[string]funSig{}
var funAxioms = map[string][]*Term{}
var symAxioms = map[string][]*Term{}

type litHook struct {
	fn string
	f  func(s string) string
}

var litHooks []litHook

// litClosure lets a literal hook pull in additional literals.
var litClosure = func(p *printer, ss []string) []string { return nil }

func declFun(name string, res string, args ...string) {
	funSigs[name] = funSig{args, res}
}
