package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---------- spec expression AST ----------

type SExpr struct {
	Op    string // int,str,id,field,index,call,assert(type),un,bin,forall,exists,cond,chain
	Name  string
	Args  []*SExpr
	Vars  []SVar
	Trigs [][]*SExpr
	Text  string
}
type SVar struct{ Name, Type string }

type lexer struct {
	toks []string
	pos  int
	src  string
}

var tokRe = regexp.MustCompile(`^(\s+|[A-Za-z_$][A-Za-z_0-9$]*|[0-9]+|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|<==>|==>|::|&&|\|\||==|!=|<=|>=|\.\(|[-+*/%<>!().,\[\]{}?:&])`)

func lex(src string) *lexer {
	l := &lexer{src: src}
	s := src
	for len(s) > 0 {
		m := tokRe.FindString(s)
		if m == "" {
			panic(fmt.Sprintf("spec lex error at %q in %q", s, src))
		}
		s = s[len(m):]
		if strings.TrimSpace(m) != "" {
			l.toks = append(l.toks, m)
		}
	}
	return l
}
func (l *lexer) peek() string {
	if l.pos < len(l.toks) {
		return l.toks[l.pos]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.pos++; return t }
func (l *lexer) expect(t string) {
	if g := l.next(); g != t {
		panic(fmt.Sprintf("spec: expected %q got %q in %q", t, g, l.src))
	}
}

func parseExpr(src string) *SExpr {
	l := lex(src)
	e := l.expr()
	if l.peek() != "" {
		panic(fmt.Sprintf("spec: trailing %q in %q", l.peek(), src))
	}
	if e.Text == "" {
		e.Text = strings.Join(strings.Fields(src), " ")
	}
	return e
}
func bin(op string, a, b *SExpr) *SExpr { return &SExpr{Op: "bin", Name: op, Args: []*SExpr{a, b}} }

func (l *lexer) expr() *SExpr { return l.iff() }
func (l *lexer) iff() *SExpr {
	a := l.impl()
	for l.peek() == "<==>" {
		l.next()
		a = bin("<==>", a, l.impl())
	}
	return a
}
func (l *lexer) impl() *SExpr {
	a := l.tern()
	if l.peek() == "==>" {
		l.next()
		return bin("==>", a, l.impl())
	}
	return a
}
func (l *lexer) tern() *SExpr {
	a := l.or()
	if l.peek() == "?" {
		l.next()
		b := l.tern()
		l.expect(":")
		c := l.tern()
		return &SExpr{Op: "cond", Args: []*SExpr{a, b, c}}
	}
	return a
}
func (l *lexer) or() *SExpr {
	a := l.and()
	for l.peek() == "||" {
		l.next()
		a = bin("||", a, l.and())
	}
	return a
}
func (l *lexer) and() *SExpr {
	a := l.cmp()
	for l.peek() == "&&" {
		l.next()
		a = bin("&&", a, l.cmp())
	}
	return a
}
func (l *lexer) cmp() *SExpr {
	a := l.add()
	var res *SExpr
	for {
		switch l.peek() {
		case "==", "!=", "<", "<=", ">", ">=":
			op := l.next()
			b := l.add()
			e := bin(op, a, b)
			if res == nil {
				res = e
			} else {
				res = bin("&&", res, e)
			}
			a = b
			continue
		}
		break
	}
	if res == nil {
		return a
	}
	return res
}
func (l *lexer) add() *SExpr {
	a := l.mul()
	for l.peek() == "+" || l.peek() == "-" {
		op := l.next()
		a = bin(op, a, l.mul())
	}
	return a
}
func (l *lexer) mul() *SExpr {
	a := l.unary()
	for l.peek() == "*" || l.peek() == "/" || l.peek() == "%" {
		op := l.next()
		a = bin(op, a, l.unary())
	}
	return a
}
func (l *lexer) unary() *SExpr {
	switch l.peek() {
	case "!", "-":
		op := l.next()
		return &SExpr{Op: "un", Name: op, Args: []*SExpr{l.unary()}}
	}
	return l.postfix()
}

// typeText reads a Go type up to the closing parenthesis of the given depth.
func (l *lexer) typeText(stop ...string) string {
	var sb strings.Builder
	d := 0
	for {
		t := l.peek()
		if t == "" {
			panic("spec: unterminated type in " + l.src)
		}
		if d == 0 {
			for _, s := range stop {
				if t == s {
					return sb.String()
				}
			}
		}
		if t == "(" || t == "[" || t == "{" {
			d++
		}
		if t == ")" || t == "]" || t == "}" {
			d--
		}
		sb.WriteString(t)
		l.next()
	}
}

func (l *lexer) postfix() *SExpr {
	e := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &SExpr{Op: "field", Name: l.next(), Args: []*SExpr{e}}
		case ".(":
			l.next()
			ty := l.typeText(")")
			l.expect(")")
			e = &SExpr{Op: "assert", Name: ty, Args: []*SExpr{e}}
		case "[":
			l.next()
			i := l.expr()
			l.expect("]")
			e = &SExpr{Op: "index", Args: []*SExpr{e, i}}
		default:
			return e
		}
	}
}
func (l *lexer) primary() *SExpr {
	t := l.next()
	switch {
	case t == "":
		panic("spec: unexpected end in " + l.src)
	case t == "(":
		e := l.expr()
		l.expect(")")
		return e
	case t == "forall" || t == "exists":
		e := &SExpr{Op: t}
		for {
			n := l.next()
			ty := ""
			if l.peek() != "," && l.peek() != "::" {
				ty = l.typeText(",", "::")
			}
			e.Vars = append(e.Vars, SVar{n, ty})
			if l.peek() == "," {
				l.next()
				continue
			}
			break
		}
		// propagate types right to left
		for i := len(e.Vars) - 2; i >= 0; i-- {
			if e.Vars[i].Type == "" {
				e.Vars[i].Type = e.Vars[i+1].Type
			}
		}
		l.expect("::")
		for l.peek() == "{" {
			l.next()
			var tr []*SExpr
			for {
				tr = append(tr, l.expr())
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("}")
			e.Trigs = append(e.Trigs, tr)
		}
		e.Args = []*SExpr{l.expr()}
		return e
	case t[0] >= '0' && t[0] <= '9':
		return &SExpr{Op: "int", Name: t}
	case t[0] == '"':
		s, err := strconv.Unquote(t)
		if err != nil {
			panic(err)
		}
		return &SExpr{Op: "str", Name: s}
	case t[0] == '\'':
		r, _, _, err := strconv.UnquoteChar(t[1:len(t)-1], '\'')
		if err != nil {
			panic(err)
		}
		return &SExpr{Op: "int", Name: strconv.Itoa(int(r))}
	}
	if !(t[0] == '_' || t[0] == '$' || t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z') {
		panic(fmt.Sprintf("spec: unexpected %q in %q", t, l.src))
	}
	if l.peek() == "(" {
		l.next()
		e := &SExpr{Op: "call", Name: t}
		if t == "is" || t == "as" || t == "box" || t == "zero" || t == "fresh_of" { // is(v, T)
			if t != "zero" {
				e.Args = append(e.Args, l.expr())
				l.expect(",")
			}
			ty := l.typeText(")")
			l.expect(")")
			e.Text = ty
			return e
		}
		for l.peek() != ")" {
			e.Args = append(e.Args, l.expr())
			if l.peek() == "," {
				l.next()
			}
		}
		l.expect(")")
		return e
	}
	return &SExpr{Op: "id", Name: t}
}

// ---------- contracts ----------

type Clause struct {
	Name  string
	Depth int    // invariants: 1+nesting depth of the loops it is meant for, 0 = every loop
	Part  string // the part of the contract it belongs to: parts are verified one by one
	E     *SExpr
	Src   string
	File  string
	Line  int
}

type Region struct {
	// kinds: field (E.Field), allfields, elems, elem, mapof, each, global, cell
	E   *SExpr
	Src string
}

type Contract struct {
	Key      string // "(*Table).ColIndex" or "max"
	Recv     string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Invs     []*Clause
	Hints    []*Clause
	Restores map[string]bool // ghost state given its value at entry back before every return
	Assumes  []*Clause       // assumed at entry, not demanded of callers; reported
	Splits   []*Clause       // conditions on the parameters: every combination is verified by itself
	Parts    []string        // parts besides the main one
	Given    []*Clause       // in a part: the postconditions of the main part, which is verified by itself
	mask     int             // the combination of the split conditions that is verified
	only     string          // the part that is verified
	part     string
	unless   map[string]int // part: the split condition under which its clauses say nothing
	FnArg    *FnArg         // meaning of the function literals the body passes to callees
	Sort     *SortSpec
	AsValue  bool // the function is used as a function value
	PanicsIf []*Clause
	Modifies []*Region
	Trusted  bool
	Extern   bool
	NoPanic  bool
	MayPanic bool
	Pure     bool
	Inline   bool
	Lemma    bool
	Rec      bool
	Timeout  int
	File     string
	Line     int
	Props    []string
	used     bool
}

// FnArg describes the function literals a function passes to its callees.
type FnArg struct {
	Params, Results []string
	Requires        []*Clause
	Ensures         []*Clause
}

// SortSpec describes the order a call of the sort package establishes.
type SortSpec struct {
	Seq  *SExpr
	A, B string
	Less *SExpr
}

// Lemma is a closed formula proved from the axioms and the lemmas before it.
type Lemma struct {
	Name, On, Induct string
	E                *SExpr
	Use              []*SExpr
	Src              string
}

type Pred struct {
	Name   string
	Params []SVar
	Body   *SExpr
	Opaque bool // uninterpreted
	Res    string
}

type Axiom struct {
	On  string // function symbol whose presence triggers inclusion
	E   *SExpr
	Src string
}

type SpecDB struct {
	Ghosts    map[string]*Ghost
	Dyn       []*DynCon
	Contracts map[string]*Contract
	Preds     map[string]*Pred
	Axioms    []*Axiom
	Order     []string
	Ginvs     []*Ginv
	Lemmas    []*Lemma
}

// Ginv is an invariant of a package variable that only one init function writes.
type Ginv struct {
	Global string
	On     string // "": with the variable; "load": when code reads it; else with a function symbol
	E      *SExpr
	Src    string
}

func newSpecDB() *SpecDB {
	return &SpecDB{Contracts: map[string]*Contract{}, Preds: map[string]*Pred{}, Ghosts: map[string]*Ghost{}}
}

// Ghost is specification state: a map from its parameters to a value. Init, if
// given, is its value for every object not yet allocated (first parameter).
type Ghost struct {
	Name   string
	Params []SVar
	Res    string
	Init   *SExpr
}

// ghostKey is the heap component that holds a ghost.
func (p *Program) ghostKey(g *Ghost) string {
	srt, _ := p.specSort(g.Res)
	for i := len(g.Params) - 1; i >= 0; i-- {
		ps, _ := p.specSort(g.Params[i].Type)
		srt = "(Array " + ps + " " + srt + ")"
	}
	if len(g.Params) > 0 {
		if _, ty := p.specSort(g.Params[0].Type); ty != nil {
			if _, ok := ty.Underlying().(*types.Pointer); ok { // one entry per object: framed like a field
				return regHeap("GH!"+g.Name, "F", srt, types.Typ[types.Bool])
			}
		}
	}
	return regHeap("GH!"+g.Name, "G", srt, nil)
}

var headRe = regexp.MustCompile(`^(?:\(\s*(\w+)\s+(\*?[\w.]+)\s*\)\s*)?([\w./$]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)

func splitNames(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f != "" {
			out = append(out, f)
		}
	}
	return out
}

type srcLine struct {
	text string
	line int
}

// LoadSpecs reads every *.spec file of dir.
func LoadSpecs(dir string) (*SpecDB, error) {
	db := newSpecDB()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.load(filepath.Base(f), string(data)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return db, nil
}

func (db *SpecDB) load(file, text string) (err error) {
	var lines []srcLine
	for i, l := range strings.Split(text, "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		lines = append(lines, srcLine{l, i + 1})
	}
	lines, err = expandForeach(lines)
	if err != nil {
		return err
	}
	// join continuation lines: a directive begins with a keyword
	var dirs []srcLine
	for _, l := range lines {
		if startsDirective(l.text) {
			dirs = append(dirs, l)
		} else {
			if len(dirs) == 0 {
				return fmt.Errorf("line %d: no directive", l.line)
			}
			dirs[len(dirs)-1].text += " " + strings.TrimSpace(l.text)
		}
	}
	var cur *Contract
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	for _, d := range dirs {
		t := strings.TrimSpace(d.text)
		kw := t
		rest := ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			kw, rest = t[:i], strings.TrimSpace(t[i:])
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("line %d: %v", d.line, r))
				}
			}()
			clause := func() *Clause {
				name := ""
				m := regexp.MustCompile(`^\[([\w.\-]+)\]\s*`).FindStringSubmatch(rest)
				if m != nil {
					name = m[1]
					rest = rest[len(m[0]):]
				}
				part := ""
				if cur != nil {
					part = cur.part
				}
				e := parseExpr(rest)
				if part != "" && (kw == "ensures" || strings.HasPrefix(kw, "inv")) {
					if i, ok := cur.unless[part]; ok { // says nothing where the split condition holds
						e = &SExpr{Op: "bin", Name: "==>", Args: []*SExpr{{Op: "un", Name: "!", Args: []*SExpr{cur.Splits[i].E}}, e}}
					}
				}
				return &Clause{Name: name, Part: part, E: e, Src: strings.Join(strings.Fields(rest), " "), File: file, Line: d.line}
			}
			switch kw {
			case "func", "extern", "trusted":
				m := headRe.FindStringSubmatch(rest)
				if m == nil {
					panic("bad header " + rest)
				}
				c := &Contract{Recv: m[1], Params: splitNames(m[4]), Results: splitNames(m[5]), File: file, Line: d.line}
				if m[2] != "" {
					c.Key = "(" + m[2] + ")." + m[3]
				} else {
					c.Key = m[3]
				}
				c.Extern = kw == "extern"
				c.Trusted = kw != "func"
				if _, dup := db.Contracts[c.Key]; dup {
					panic("duplicate contract " + c.Key)
				}
				db.Contracts[c.Key] = c
				db.Order = append(db.Order, c.Key)
				cur = c
			case "requires":
				cur.Requires = append(cur.Requires, clause())
			case "restores":
				cur.Restores = map[string]bool{}
				for _, n := range splitNames(rest) {
					cur.Restores["GH!"+n] = true
				}
			case "assumes":
				cur.Assumes = append(cur.Assumes, clause())
			case "ensures":
				cur.Ensures = append(cur.Ensures, clause())
			case "inv":
				cur.Invs = append(cur.Invs, clause())
			case "inv0", "inv1", "inv2":
				c := clause()
				c.Depth = int(kw[3]-'0') + 1
				cur.Invs = append(cur.Invs, c)
			case "split": // split C1; C2: the function is verified for every combination of the conditions
				for _, c := range strings.Split(rest, ";") {
					cur.Splits = append(cur.Splits, &Clause{E: parseExpr(c), Src: strings.TrimSpace(c), File: file, Line: d.line})
				}
			case "part": // the clauses that follow are verified in a run of their own, which may use those of the main part
				fs := strings.SplitN(rest, " unless ", 2)
				cur.part = fs[0]
				cur.Parts = append(cur.Parts, fs[0])
				if len(fs) == 2 {
					n := -1
					for i, sp := range cur.Splits {
						if sp.Src == strings.TrimSpace(fs[1]) {
							n = i
						}
					}
					if n < 0 {
						panic("not a split condition: " + fs[1])
					}
					if cur.unless == nil {
						cur.unless = map[string]int{}
					}
					cur.unless[fs[0]] = n
				}
			case "hint":
				cur.Hints = append(cur.Hints, clause())
			case "modifies":
				for _, r := range splitTop(rest) {
					cur.Modifies = append(cur.Modifies, &Region{E: parseRegion(r), Src: r})
				}
			case "panics":
				cur.PanicsIf = append(cur.PanicsIf, clause())
			case "inline":
				cur.Inline = true
			case "maypanic":
				cur.MayPanic = true
			case "pure":
				cur.Pure = true
			case "rec":
				cur.Rec = true
			case "timeout":
				cur.Timeout, _ = strconv.Atoi(rest)
			case "pred":
				i := strings.Index(rest, "=")
				// the first '=' that is not part of an operator follows the closing paren of params
				j := strings.Index(rest, ")")
				i = j + strings.Index(rest[j:], "=")
				name, params := parsePredHead(strings.TrimSpace(rest[:i]))
				db.Preds[name] = &Pred{Name: name, Params: params, Body: parseExpr(rest[i+1:])}
			case "opaque": // opaque name(params) = body: a heap-independent predicate kept folded by an uninterpreted symbol and its defining axiom
				j := strings.Index(rest, ")")
				i := j + strings.Index(rest[j:], "=")
				name, params := parsePredHead(strings.TrimSpace(rest[:i]))
				db.Preds[name] = &Pred{Name: name, Params: params, Opaque: true, Res: "bool", Body: parseExpr(rest[i+1:])}
			case "uf": // uf name(a T, b T) R
				j := strings.Index(rest, ")")
				name, params := parsePredHead(rest[:j+1])
				db.Preds[name] = &Pred{Name: name, Params: params, Opaque: true, Res: strings.TrimSpace(rest[j+1:])}
			case "dyn": // dyn "func(*T) error" (f, x) (err): calls through values of that type
				m := regexp.MustCompile(`^"([^"]+)"\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?$`).FindStringSubmatch(rest)
				if m == nil {
					panic("bad dyn header")
				}
				cur = &Contract{Key: "dyn:" + m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), File: file, Line: d.line, Extern: true, Trusted: true}
				db.Dyn = append(db.Dyn, &DynCon{Type: m[1], Con: cur})
			case "ghost": // ghost name(a T, b T) R [init E]: specification state, changed only by contracts that name it
				j := strings.Index(rest, ")")
				name, params := parsePredHead(rest[:j+1])
				g := &Ghost{Name: name, Params: params}
				res := strings.TrimSpace(rest[j+1:])
				if i := strings.Index(res, " init "); i >= 0 {
					g.Init = parseExpr(res[i+6:])
					res = strings.TrimSpace(res[:i])
				}
				g.Res = res
				db.Ghosts[name] = g
			case "axiom": // axiom on name: expr
				m := regexp.MustCompile(`^on\s+(\w+)\s*:\s*`).FindStringSubmatch(rest)
				if m == nil {
					panic("axiom needs 'on fn:'")
				}
				db.Axioms = append(db.Axioms, &Axiom{On: m[1], E: parseExpr(rest[len(m[0]):]), Src: rest})
			case "ginv": // ginv global: expr
				i := strings.Index(rest, ":")
				g := strings.Fields(rest[:i])
				on := ""
				if len(g) >= 3 && g[1] == "on" {
					on = strings.Join(g[2:], " ")
				}
				db.Ginvs = append(db.Ginvs, &Ginv{Global: g[0], On: on, E: parseExpr(rest[i+1:]), Src: rest})
			case "asvalue":
				cur.AsValue = true
			case "fnarg": // fnarg (params) (results)
				m := regexp.MustCompile(`^\(([^)]*)\)\s*(?:\(([^)]*)\))?$`).FindStringSubmatch(rest)
				if m == nil {
					panic("bad fnarg")
				}
				cur.FnArg = &FnArg{Params: splitNames(m[1]), Results: splitNames(m[2])}
			case "fnreq":
				cur.FnArg.Requires = append(cur.FnArg.Requires, clause())
			case "fnens":
				cur.FnArg.Ensures = append(cur.FnArg.Ensures, clause())
			case "sorts": // sorts SEQ by (a, b): expr
				m := regexp.MustCompile(`^(.*?) by \((\w+),\s*(\w+)\):(.*)$`).FindStringSubmatch(rest)
				if m == nil {
					panic("bad sorts clause")
				}
				cur.Sort = &SortSpec{Seq: parseExpr(m[1]), A: m[2], B: m[3], Less: parseExpr(m[4])}
			case "lemma": // lemma name on sym [induct v]: expr
				m := regexp.MustCompile(`^(\w+) on (\w+)(?: induct (\w+))?:(.*)$`).FindStringSubmatch(rest)
				if m == nil {
					panic("bad lemma")
				}
				db.Lemmas = append(db.Lemmas, &Lemma{Name: m[1], On: m[2], Induct: m[3], E: parseExpr(m[4]), Src: m[4]})
			case "use":
				db.Lemmas[len(db.Lemmas)-1].Use = append(db.Lemmas[len(db.Lemmas)-1].Use, parseExpr(rest))
			default:
				panic("unknown directive " + kw)
			}
		}()
	}
	return nil
}

func parsePredHead(s string) (string, []SVar) {
	i := strings.Index(s, "(")
	name := strings.TrimSpace(s[:i])
	var vs []SVar
	for _, p := range splitTop(s[i+1 : strings.LastIndex(s, ")")]) {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		k := strings.IndexAny(p, " \t")
		if k < 0 {
			vs = append(vs, SVar{p, ""})
			continue
		}
		vs = append(vs, SVar{p[:k], strings.TrimSpace(p[k:])})
	}
	for i := len(vs) - 2; i >= 0; i-- {
		if vs[i].Type == "" {
			vs[i].Type = vs[i+1].Type
		}
	}
	return name, vs
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, strings.TrimSpace(s[last:]))
	}
	return out
}

func parseRegion(s string) *SExpr {
	s = strings.TrimSpace(s)
	if strings.HasSuffix(s, ".*") {
		return &SExpr{Op: "allfields", Args: []*SExpr{parseExpr(s[:len(s)-2])}}
	}
	return parseExpr(s)
}

var directives = map[string]bool{"func": true, "extern": true, "trusted": true, "requires": true, "ensures": true, "inv": true, "inv0": true, "inv1": true, "inv2": true, "hint": true, "split": true, "restores": true, "assumes": true, "part": true, "modifies": true,
	"maypanic": true, "pure": true, "rec": true, "panics": true, "inline": true, "timeout": true, "pred": true, "opaque": true, "uf": true, "axiom": true, "ginv": true,
	"asvalue": true, "fnarg": true, "fnreq": true, "fnens": true, "sorts": true, "lemma": true, "use": true, "ghost": true, "dyn": true}

func startsDirective(l string) bool {
	f := strings.Fields(l)
	return len(f) > 0 && directives[f[0]]
}

// expandForeach expands blocks "foreach $A,$B in x:y u:v {" ... "}" textually.
func expandForeach(lines []srcLine) ([]srcLine, error) {
	var out []srcLine
	for i := 0; i < len(lines); i++ {
		t := strings.TrimSpace(lines[i].text)
		if !strings.HasPrefix(t, "foreach ") {
			out = append(out, lines[i])
			continue
		}
		j := i
		for ; j < len(lines) && !strings.HasSuffix(strings.TrimSpace(lines[j].text), "{"); j++ {
		}
		head := ""
		for k := i; k <= j; k++ {
			head += " " + strings.TrimSpace(lines[k].text)
		}
		head = strings.TrimSuffix(strings.TrimSpace(head), "{")
		head = strings.TrimPrefix(strings.TrimSpace(head), "foreach ")
		parts := strings.SplitN(head, " in ", 2)
		if len(parts) != 2 {
			return nil, fmt.Errorf("bad foreach: %s", head)
		}
		vars := splitNames(parts[0])
		e := j + 1
		for ; e < len(lines) && strings.TrimSpace(lines[e].text) != "}"; e++ {
		}
		for _, item := range strings.Fields(parts[1]) {
			vals := strings.Split(item, ":")
			if len(vals) != len(vars) {
				return nil, fmt.Errorf("foreach item %q", item)
			}
			for k := j + 1; k < e; k++ {
				tx := lines[k].text
				for vi, v := range vars {
					tx = strings.ReplaceAll(tx, v, vals[vi])
				}
				out = append(out, srcLine{tx, lines[k].line})
			}
		}
		i = e
	}
	return out, nil
}

func (c *Contract) Panics() []*Clause { return c.PanicsIf }

// DynCon is the contract of calls through function values of one type.
type DynCon struct {
	Type string
	Con  *Contract
}

func (p *Program) dynContract(t types.Type) *Contract {
	for _, d := range p.DB.Dyn {
		if types.Identical(p.parseType(d.Type).Underlying(), t.Underlying()) {
			return d.Con
		}
	}
	return p.DB.Contracts["$"+typeKey(t)]
}
