package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/urban-wombat/gotables"
)

type holder struct {
	t    *gotables.Table
	c, r int
}

// genTree builds a random tree of tables; cells lists every *Table cell with the table it holds.
type tree struct {
	root   *gotables.Table
	tables []*gotables.Table // in the order built, NilTables not included
	parent map[*gotables.Table]holder
	depth  map[*gotables.Table]int
	free   []holder // cells holding a NilTable
}

func genTree(r *Rec, g *rand.Rand, max int) *tree {
	tr := &tree{parent: map[*gotables.Table]holder{}, depth: map[*gotables.Table]int{}}
	mk := func(i int) *gotables.Table {
		t, err := gotables.NewTable(fmt.Sprintf("N%d", i))
		must(err)
		nc := g.Intn(4)
		if i == 0 && nc == 0 {
			nc = 2
		}
		for c := 0; c < nc; c++ {
			ty := pick(g, []string{"int", "string", "*Table", "*Table", "bool"})
			if i == 0 && c == nc-1 {
				ty = "*Table"
			}
			must(t.AppendCol(fmt.Sprintf("c%d", c), ty))
		}
		nr := g.Intn(4)
		if i == 0 && nr == 0 {
			nr = 1
		}
		must(t.AppendRows(nr))
		for c := 0; c < nc; c++ {
			ty, _ := t.ColTypeByColIndex(c)
			for q := 0; q < nr; q++ {
				if ty == "*Table" {
					tr.free = append(tr.free, holder{t, c, q})
				} else {
					must(t.SetValByColIndex(c, q, genVal(g, ty, true)))
				}
			}
		}
		tr.tables = append(tr.tables, t)
		r.op("table N%d: %d rows of %s", i, nr, colTypes(t))
		return t
	}
	tr.root = mk(0)
	n := g.Intn(max)
	for i := 1; i <= n && len(tr.free) > 0; i++ {
		k := g.Intn(len(tr.free))
		if g.Intn(2) == 0 {
			k = len(tr.free) - 1 // deep
		}
		h := tr.free[k]
		tr.free = append(tr.free[:k], tr.free[k+1:]...)
		t := mk(i)
		tr.put(r, g, h, t)
		tr.parent[t] = h
		tr.depth[t] = tr.depth[h.t] + 1
	}
	return tr
}

func colTypes(t *gotables.Table) string {
	var s []string
	for c := 0; c < t.ColCount(); c++ {
		ty, _ := t.ColTypeByColIndex(c)
		s = append(s, ty)
	}
	return "(" + strings.Join(s, ",") + ")"
}

func (tr *tree) put(r *Rec, g *rand.Rand, h holder, t *gotables.Table) {
	how := g.Intn(4)
	r.op("N[%s].cell(%d,%d) = %s (%d)", h.t.Name(), h.c, h.r, t.Name(), how)
	n, _ := h.t.ColName(h.c)
	switch how {
	case 0:
		must(h.t.SetTable(n, h.r, t))
	case 1:
		must(h.t.SetTableByColIndex(h.c, h.r, t))
	case 2:
		must(h.t.SetVal(n, h.r, t))
	case 3:
		must(h.t.SetValByColIndex(h.c, h.r, t))
	}
}

// trace is the sequence of visits a complete walk makes.
func trace(t *gotables.Table, nested bool, out *[]string) {
	*out = append(*out, fmt.Sprintf("table %p", t))
	for q := 0; q < t.RowCount(); q++ {
		*out = append(*out, fmt.Sprintf("row %p %d", t, q))
		for c := 0; c < t.ColCount(); c++ {
			n, _ := t.ColName(c)
			ty, _ := t.ColTypeByColIndex(c)
			*out = append(*out, fmt.Sprintf("cell %p %d %d %s %s", t, c, q, n, ty))
			if nested && ty == "*Table" {
				v, err := t.GetValByColIndex(c, q)
				must(err)
				trace(v.(*gotables.Table), nested, out)
			}
		}
	}
}

type walker struct {
	got  []string
	stop int // give an error at this visit (-1: never)
}

var errStop = fmt.Errorf("stop here")

func (w *walker) visit(f string, a ...interface{}) error {
	w.got = append(w.got, fmt.Sprintf(f, a...))
	if len(w.got)-1 == w.stop {
		return errStop
	}
	return nil
}
func (w *walker) table(t *gotables.Table) error { return w.visit("table %p", t) }
func (w *walker) row(x gotables.Row) error      { return w.visit("row %p %d", x.Table, x.RowIndex) }
func (w *walker) cell(_ bool, x gotables.CellInfo) error {
	return w.visit("cell %p %d %d %s %s", x.Table, x.ColIndex, x.RowIndex, x.ColName, x.ColType)
}

func filter(s []string, tab, row, cell bool) (out []string) {
	for _, x := range s {
		if (x[0] == 't' && tab) || (x[0] == 'r' && row) || (x[0] == 'c' && cell) {
			out = append(out, x)
		}
	}
	return
}

func walkCheck(r *Rec, g *rand.Rand, t *gotables.Table) {
	nested := g.Intn(4) > 0
	var want []string
	trace(t, nested, &want)
	ft, fr, fc := g.Intn(4) > 0, g.Intn(3) > 0, g.Intn(4) > 0
	want = filter(want, ft, fr, fc)
	w := &walker{stop: -1}
	if g.Intn(4) == 0 && len(want) > 0 {
		w.stop = g.Intn(len(want))
	}
	var vt func(*gotables.Table) error
	var vr func(gotables.Row) error
	var vc func(bool, gotables.CellInfo) error
	if ft {
		vt = w.table
	}
	if fr {
		vr = w.row
	}
	if fc {
		vc = w.cell
	}
	r.op("Walk(nested=%v, table %v, row %v, cell %v, stop at %d)", nested, ft, fr, fc, w.stop)
	err := t.Walk(nested, gotables.WalkSafe{}, vt, vr, vc)
	if w.stop >= 0 {
		r.check(err != nil, "walk:error", "a visitor failed at visit %d but Walk returned no error", w.stop)
		want = want[:w.stop+1]
	} else {
		r.check(err == nil, "walk:error", "Walk of a tree: %v", err)
	}
	r.check(strings.Join(w.got, "\n") == strings.Join(want, "\n"), "walk:visits", "Walk made %d visits, want %d; first difference at %d: got %s want %s", len(w.got), len(want), firstDiff(w.got, want), at(w.got, firstDiff(w.got, want)), at(want, firstDiff(w.got, want)))
}

func firstDiff(a, b []string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}
func at(a []string, i int) string {
	if i < len(a) {
		return a[i]
	}
	return "(end)"
}

func verdict(r *Rec, t *gotables.Table, valid bool, what string) {
	ok, err := t.IsValidTableNesting()
	r.check(ok == valid && (err == nil) == valid, "nesting:"+what, "%s: IsValidTableNesting of %s gives %v, %v", what, t.Name(), ok, err)
	circ, err := t.HasCircularReference()
	r.check(circ == !valid && (err == nil) == valid, "circular:"+what, "%s: HasCircularReference of %s gives %v, %v", what, t.Name(), circ, err)
}

// below: every table reachable from t
func reach(t *gotables.Table, seen map[*gotables.Table]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for c := 0; c < t.ColCount(); c++ {
		if ty, _ := t.ColTypeByColIndex(c); ty != "*Table" {
			continue
		}
		for q := 0; q < t.RowCount(); q++ {
			v, err := t.GetValByColIndex(c, q)
			must(err)
			reach(v.(*gotables.Table), seen)
		}
	}
}

// isTree: no table reachable from t is held in two cells, and t in none.
func isTree(t *gotables.Table) bool {
	seen := map[*gotables.Table]bool{t: true}
	var rec func(t *gotables.Table) bool
	rec = func(t *gotables.Table) bool {
		for c := 0; c < t.ColCount(); c++ {
			if ty, _ := t.ColTypeByColIndex(c); ty != "*Table" {
				continue
			}
			for q := 0; q < t.RowCount(); q++ {
				v, err := t.GetValByColIndex(c, q)
				must(err)
				x := v.(*gotables.Table)
				if seen[x] {
					return false
				}
				seen[x] = true
				if !rec(x) {
					return false
				}
			}
		}
		return true
	}
	return rec(t)
}

func nestCase(r *Rec, g *rand.Rand) {
	tr := genTree(r, g, 9)
	for i := 0; i < 3; i++ {
		walkCheck(r, g, tr.tables[g.Intn(len(tr.tables))])
	}
	walkCheck(r, g, tr.root)
	verdict(r, tr.root, true, "tree")
	verdict(r, tr.tables[g.Intn(len(tr.tables))], true, "subtree")
	if g.Intn(3) == 0 {
		s, err := gotables.NewTableSet("S")
		must(err)
		must(s.AppendTable(tr.root))
		t2 := genLeafTable(g)
		must(t2.SetName("Z"))
		must(s.AppendTable(t2))
		w := &walker{stop: -1}
		sets := 0
		nested := g.Intn(2) == 0
		r.op("set.Walk(%v)", nested)
		err = s.Walk(nested, func(x *gotables.TableSet) error {
			sets++
			r.check(x == s && len(w.got) == 0, "setwalk:set", "the set was not visited first")
			return nil
		}, w.table, w.row, w.cell)
		r.check(err == nil && sets == 1, "setwalk:error", "TableSet.Walk: %v, %d set visits", err, sets)
		var want []string
		trace(tr.root, nested, &want)
		trace(t2, nested, &want)
		r.check(strings.Join(w.got, "\n") == strings.Join(want, "\n"), "setwalk:visits", "TableSet.Walk made %d visits, want %d", len(w.got), len(want))
	}
	if len(tr.free) == 0 {
		return
	}
	// put some table of the tree into a free cell
	h := tr.free[g.Intn(len(tr.free))]
	t := tr.tables[g.Intn(len(tr.tables))]
	if g.Intn(2) == 0 { // an ancestor of the cell's table: a cycle
		t = h.t
		for k := g.Intn(4); k > 0; k-- {
			if p, ok := tr.parent[t]; ok {
				t = p.t
			}
		}
	}
	tr.put(r, g, h, t)
	for _, x := range tr.tables {
		tree := isTree(x)
		what := "tree beside"
		if !tree {
			what = "shared"
			for _, y := range tr.tables {
				if reachable(x, y) && selfReach(y) {
					what = "cycle"
				}
			}
		}
		r.op("verdict(%s) want %v (%s)", x.Name(), tree, what)
		verdict(r, x, tree, what)
		if !tree {
			w := &walker{stop: -1}
			err := x.Walk(true, gotables.WalkSafe{}, w.table, w.row, w.cell)
			r.check(err != nil || what == "shared", "walk:cycle", "Walk(true) of %s, which contains a cycle, returned no error", x.Name())
			_, err = x.Copy()
			r.check(err != nil, "copy:cycle", "Copy of %s (%s) returned no error", x.Name(), what)
			_, err = x.CopyDeep()
			r.check(err != nil, "copydeep:cycle", "CopyDeep of %s (%s) returned no error", x.Name(), what)
		}
	}
}

func reachable(x, y *gotables.Table) bool {
	seen := map[*gotables.Table]bool{}
	reach(x, seen)
	return seen[y]
}

// selfReach: y is inside one of its own cells at some depth
func selfReach(y *gotables.Table) bool {
	seen := map[*gotables.Table]bool{}
	for c := 0; c < y.ColCount(); c++ {
		if ty, _ := y.ColTypeByColIndex(c); ty != "*Table" {
			continue
		}
		for q := 0; q < y.RowCount(); q++ {
			v, err := y.GetValByColIndex(c, q)
			must(err)
			reach(v.(*gotables.Table), seen)
		}
	}
	return seen[y]
}

func init() {
	drivers["C19"] = &Driver{
		rule: "random trees of up to 9 tables of up to 3 columns and 3 rows, built with the four setters; the exact sequence of visits for every choice of visitors, with and without nested tables and with a visitor failing at a random visit; verdicts for trees, for every table after one cell is pointed at a table of the same tree (self, ancestor at distance 1 to 3, or elsewhere)",
		rnd:  nestCase,
	}
}
