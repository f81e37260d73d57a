package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/urban-wombat/gotables"
)

// disturb applies a few random changes to the table (cells, rows, columns, order).
func disturb(r *Rec, g *rand.Rand, t *gotables.Table, label string) {
	n := 1 + g.Intn(5)
	for i := 0; i < n; i++ {
		nc, nr := t.ColCount(), t.RowCount()
		var err error
		var what string
		switch g.Intn(11) {
		case 0, 1, 2, 3:
			if nc == 0 || nr == 0 {
				continue
			}
			c, q := g.Intn(nc), g.Intn(nr)
			ty, e := t.ColTypeByColIndex(c)
			must(e)
			v := genVal(g, ty, false)
			what = fmt.Sprintf("SetValByColIndex(%d,%d,%s)", c, q, show(v))
			err = t.SetValByColIndex(c, q, v)
		case 4:
			what = "AppendRow()"
			err = t.AppendRow()
			if err == nil && nc > 0 {
				ty, _ := t.ColTypeByColIndex(0)
				err = t.SetValByColIndex(0, nr, genVal(g, ty, false))
			}
		case 5:
			if nr == 0 {
				continue
			}
			q := g.Intn(nr)
			what = fmt.Sprintf("DeleteRow(%d)", q)
			err = t.DeleteRow(q)
		case 6:
			what = "AppendCol(extra)"
			_ = t.AppendCol(fmt.Sprintf("extra%d", g.Intn(5)), pick(g, sortableTypes))
		case 7:
			if nc == 0 {
				continue
			}
			c := g.Intn(nc)
			what = fmt.Sprintf("DeleteColByColIndex(%d)", c)
			err = t.DeleteColByColIndex(c)
		case 8:
			if nc == 0 {
				continue
			}
			nm, _ := t.ColName(g.Intn(nc))
			what = fmt.Sprintf("RenameCol(%s)", nm)
			_ = t.RenameCol(nm, fmt.Sprintf("renamed%d", g.Intn(5)))
		case 9:
			if nc < 2 {
				continue
			}
			a, b := g.Intn(nc), g.Intn(nc)
			if a == b {
				continue
			}
			what = fmt.Sprintf("SwapColsByColIndex(%d,%d)", a, b)
			err = t.SwapColsByColIndex(a, b)
		case 10:
			what = "Reverse()"
			err = t.Reverse()
		}
		r.op("%s.%s", label, what)
		r.check(err == nil, "disturb", "%s.%s: %v", label, what, err)
	}
}

func hasTypeCol(s *Snap, ty string) bool {
	for _, t := range s.types {
		if t == ty {
			return true
		}
	}
	return false
}

// independent changes either table and checks that the other keeps its content.
func independent(r *Rec, g *rand.Rand, a, b *gotables.Table, an, bn string) {
	sa, sb := snap(a), snap(b)
	if g.Intn(2) == 0 {
		a, b, an, bn, sa, sb = b, a, bn, an, sb, sa
	}
	disturb(r, g, a, an)
	if d := sb.diff(snap(b), same); d != "" {
		r.fail("shared", "changing %s changed %s: %s", an, bn, d)
	}
	consistent(r, "disturb", a)
	consistent(r, "disturb", b)
	sa = snap(a)
	disturb(r, g, b, bn)
	if d := sa.diff(snap(a), same); d != "" {
		r.fail("shared", "changing %s changed %s: %s", bn, an, d)
	}
	consistent(r, "disturb", a)
	consistent(r, "disturb", b)
}

// shake makes the table's slices have spare capacity and its history less plain.
func shake(r *Rec, g *rand.Rand, t *gotables.Table) {
	switch g.Intn(4) {
	case 0:
		must(t.AppendRows(3))
		must(t.DeleteRows(t.RowCount()-2, t.RowCount()-1))
		r.op("T.AppendRows(3); T.DeleteRows(last two)")
	case 1:
		must(t.AppendCol("gone", "int"))
		must(t.DeleteCol("gone"))
		r.op("T.AppendCol(gone); T.DeleteCol(gone)")
	case 2:
		if t.RowCount() > 1 {
			must(t.DeleteRow(0))
			r.op("T.DeleteRow(0)")
		}
	}
}

func plain(s *Snap) *Snap { // name, columns and cells only
	n := s.clone()
	n.keys, n.shape = nil, false
	return n
}

func copyCase(r *Rec, g *rand.Rand) {
	t, _ := genTable(g, r, allTypes, 5, 5, false)
	shake(r, g, t)
	if g.Intn(3) == 0 {
		for c := 0; c < t.ColCount(); c++ {
			ty, _ := t.ColTypeByColIndex(c)
			if sortableType(ty) {
				n, _ := t.ColName(c)
				must(t.SetSortKeys(n))
				r.op("T.SetSortKeys(%s)", n)
			}
		}
	}
	if g.Intn(6) == 0 {
		must(t.SetStructShape(true))
	}
	if g.Intn(20) == 0 {
		t = gotables.NewNilTable()
		r.op("T = NewNilTable()")
	}
	s := snap(t)
	tree := !hasTypeCol(s, "*Table")
	var c *gotables.Table
	var err error
	var want *Snap
	kind := ""
	ok := tree && !s.nilTab
	switch g.Intn(5) {
	case 0, 1:
		kind = "Copy()"
		r.op(kind)
		r.safe(kind, func() { c, err = t.Copy() })
		want = plain(s)
	case 2:
		kind = "CopyCols()"
		r.op(kind)
		r.safe(kind, func() { c, err = t.CopyCols() })
		want = plain(s)
		want.rows = nil
	default:
		nr := len(s.rows)
		a, b := g.Intn(nr+2)-1, g.Intn(nr+2)-1
		a, b = rowRange(g, nr, a, b)
		name := pick(g, []string{"N1", "T", "copy_2", "9bad", "", "int"})
		kind = fmt.Sprintf("NewTableFromRows(%q,%d,%d)", name, a, b)
		r.op(kind)
		r.safe(kind, func() { c, err = t.NewTableFromRows(name, a, b) })
		want = plain(s)
		want.name = name
		want.rows = nil
		inRange := a > b || (a >= 0 && b < nr)
		if inRange && a <= b {
			for q := a; q <= b; q++ {
				want.rows = append(want.rows, s.rows[q])
			}
		}
		if len(s.cols) == 0 && !inRange {
			return // a range without cells: not settled by the documentation
		}
		if !inRange {
			r.check(err != nil, "range", "%s of a table with %d rows succeeded", kind, nr)
		}
		if !validName(name) {
			r.check(err != nil, "name", "%s succeeded", kind)
		}
		ok = ok && validName(name) && inRange
	}
	r.check(s.diff(snap(t), same) == "", "source", "%s changed the table: %s", kind, s.diff(snap(t), same))
	if ok {
		r.check(err == nil, "err", "%s: %v", kind, err)
	}
	if s.nilTab {
		r.check(err != nil, "nil", "%s of a NilTable succeeded", kind)
	}
	if err != nil {
		return
	}
	r.check(c != t, "same", "%s returned the table itself", kind)
	got := snap(c)
	if d := want.diff(plain(got), alike); d != "" {
		r.fail("content", "%s: %s", kind, d)
	}
	consistent(r, kind, c)
	independent(r, g, t, c, "T", "copy")
}

var noTableTypes = func() (out []string) {
	for _, t := range allTypes {
		if t != "*Table" {
			out = append(out, t)
		}
	}
	return
}()

// rowRange gives a range of the nr rows, or a, b as they are.
func rowRange(g *rand.Rand, nr, a, b int) (int, int) {
	if nr == 0 {
		return a, b
	}
	switch g.Intn(8) {
	case 0:
		return 0, nr - 1
	case 1:
		return nr - 1, nr - 1
	case 2:
		a = g.Intn(nr)
		return a, a
	case 3:
		return g.Intn(nr), nr - 1
	case 4, 5:
		a = g.Intn(nr)
		return a, a + g.Intn(nr-a)
	}
	return a, b
}

// appendCase: AppendRowsFromTable and AppendColsFromTable.
func appendCase(r *Rec, g *rand.Rand) {
	types := noTableTypes
	if g.Intn(2) == 0 { // few types, so that columns of one name often agree
		types = []string{pick(g, types), pick(g, types)}
	}
	t, _ := genTable(g, r, types, 4, 4, false)
	must(t.SetName("To"))
	u, _ := genTable(g, r, types, 4, 4, false)
	must(u.SetName("From"))
	shake(r, g, t)
	shake(r, g, u)
	s, f := snap(t), snap(u)
	compat := true
	for i, n := range f.cols {
		if j := s.col(n); j >= 0 && s.types[j] != f.types[i] {
			compat = false
		}
	}
	if g.Intn(2) == 0 {
		r.op("To.AppendColsFromTable(From)")
		var err error
		r.safe("AppendColsFromTable", func() { err = t.AppendColsFromTable(u) })
		r.check((err == nil) == compat, "cols:err", "AppendColsFromTable: %v, compatible columns %v", err, compat)
		r.check(f.diff(snap(u), same) == "", "source", "AppendColsFromTable changed the source: %s", f.diff(snap(u), same))
		if err != nil {
			consistent(r, "AppendColsFromTable", t)
			return
		}
		want := s.clone()
		for i, n := range f.cols {
			if s.col(n) < 0 {
				want.cols = append(want.cols, n)
				want.types = append(want.types, f.types[i])
				for q := range want.rows {
					want.rows[q] = append(want.rows[q], zeroMark{f.types[i]})
				}
			}
		}
		if d := want.diff(snap(t), same); d != "" {
			r.fail("cols", "AppendColsFromTable: %s", d)
		}
		consistent(r, "AppendColsFromTable", t)
		if g.Intn(2) == 0 {
			independent(r, g, t, u, "To", "From")
			return
		}
	} else if g.Intn(2) == 0 && compat {
		// give To the columns of From in another order
		for _, i := range g.Perm(len(f.cols)) {
			if s.col(f.cols[i]) < 0 {
				must(t.AppendCol(f.cols[i], f.types[i]))
				r.op("To.AppendCol(%s,%s)", f.cols[i], f.types[i])
			}
		}
	}
	s = snap(t)
	nr := len(f.rows)
	a, b := g.Intn(nr+2)-1, g.Intn(nr+2)-1
	a, b = rowRange(g, nr, a, b)
	if len(f.cols) == 0 && a <= b && (a < 0 || b >= nr) {
		return // rows without cells: not settled by the documentation
	}
	has := true
	for i, n := range f.cols {
		j := s.col(n)
		if j < 0 || s.types[j] != f.types[i] && goType(s.types[j]) != goType(f.types[i]) {
			has = false
		}
	}
	alias := false // a column of an alias type: not settled by the documentation
	for i, n := range f.cols {
		if j := s.col(n); j >= 0 && s.types[j] != f.types[i] && goType(s.types[j]) == goType(f.types[i]) {
			alias = true
		}
	}
	r.op("To.AppendRowsFromTable(From,%d,%d)", a, b)
	var err error
	r.safe("AppendRowsFromTable", func() { err = t.AppendRowsFromTable(u, a, b) })
	inRange := a > b || (a >= 0 && b < nr)
	if !alias {
		r.check((err == nil) == (inRange && (a > b || has)), "rows:err", "AppendRowsFromTable(%d,%d): %v; in range %v, columns present %v", a, b, err, inRange, has)
	}
	r.check(f.diff(snap(u), same) == "", "source", "AppendRowsFromTable changed the source: %s", f.diff(snap(u), same))
	consistent(r, "AppendRowsFromTable", t)
	if err != nil {
		return
	}
	want := s.clone()
	for q := a; q <= b; q++ {
		row := make([]interface{}, len(s.cols))
		for i, n := range s.cols {
			row[i] = zeroMark{s.types[i]}
			if j := f.col(n); j >= 0 {
				row[i] = f.rows[q][j]
			}
		}
		want.rows = append(want.rows, row)
	}
	if d := want.diff(snap(t), same); d != "" {
		r.fail("rows", "AppendRowsFromTable(%d,%d): %s", a, b, d)
	}
	independent(r, g, t, u, "To", "From")
}

// ---- table sets ----

type setModel struct {
	name, file string
	tabs       []*gotables.Table
	names      []string
}

func (m *setModel) find(n string) int {
	for i, x := range m.names {
		if x == n {
			return i
		}
	}
	return -1
}

func (m *setModel) check(r *Rec, op string, s *gotables.TableSet) {
	r.check(s.TableCount() == len(m.tabs), "count", "after %s TableCount()=%d, want %d", op, s.TableCount(), len(m.tabs))
	r.check(s.Name() == m.name && s.FileName() == m.file, "name", "after %s name %q file %q", op, s.Name(), s.FileName())
	for i, t := range m.tabs {
		x, err := s.GetTableByTableIndex(i)
		r.check(err == nil && x == t, "index", "after %s GetTableByTableIndex(%d): wrong table, %v", op, i, err)
		r.check(t.Name() == m.names[i], "tabname", "after %s table %d is called %q, want %q", op, i, t.Name(), m.names[i])
		x, err = s.GetTable(m.names[i])
		r.check(err == nil && x == t, "get", "after %s GetTable(%q): wrong table, %v", op, m.names[i], err)
		k, err := s.TableIndex(m.names[i])
		r.check(err == nil && k == i, "tableindex", "after %s TableIndex(%q)=%d,%v, want %d", op, m.names[i], k, err, i)
	}
	for _, n := range setNames {
		h, err := s.HasTable(n)
		r.check(h == (m.find(n) >= 0) && (err == nil) == h, "has", "after %s HasTable(%q)=%v,%v", op, n, h, err)
		if m.find(n) < 0 {
			x, err := s.GetTable(n)
			r.check(err != nil && x == nil, "absent", "after %s GetTable(%q) found a table", op, n)
			k, err := s.TableIndex(n)
			r.check(err != nil && k == -1, "absent", "after %s TableIndex(%q)=%d,%v", op, n, k, err)
		}
	}
	for _, i := range []int{-1, len(m.tabs), len(m.tabs) + 3} {
		x, err := s.GetTableByTableIndex(i)
		r.check(err != nil && x == nil, "absent", "after %s GetTableByTableIndex(%d) found a table", op, i)
	}
}

var setNames = []string{"a", "b", "c", "d", "A", "B", "T1", "ab", "_x", ""}

func setCase(r *Rec, g *rand.Rand) {
	s, err := gotables.NewTableSet("S")
	must(err)
	m := &setModel{name: "S"}
	mk := func(n string) *gotables.Table {
		if n == "" {
			return gotables.NewNilTable()
		}
		t, err := gotables.NewTable(n)
		must(err)
		must(t.AppendCol("c", pick(g, []string{"int", "string"})))
		must(t.AppendRows(g.Intn(3)))
		return t
	}
	for i := 5 + g.Intn(20); i > 0; i-- {
		n := pick(g, setNames)
		op := ""
		var err error
		ok := false
		var next setModel = *m
		next.tabs = append([]*gotables.Table{}, m.tabs...)
		next.names = append([]string{}, m.names...)
		switch g.Intn(9) {
		case 0, 1, 2:
			t := mk(n)
			op = fmt.Sprintf("AppendTable(%q)", n)
			if g.Intn(12) == 0 {
				t, op = nil, "AppendTable(nil)"
			} else if g.Intn(10) == 0 && len(m.tabs) > 0 {
				k := g.Intn(len(m.tabs))
				t, n = m.tabs[k], m.names[k]
				op = fmt.Sprintf("AppendTable(table %d again)", k)
			}
			r.safe(op, func() {
				if g.Intn(2) == 0 {
					err = s.AppendTable(t)
				} else {
					err = s.Append(t)
				}
			})
			ok = t != nil && m.find(n) < 0
			next.tabs, next.names = append(next.tabs, t), append(next.names, n)
		case 3:
			op = fmt.Sprintf("DeleteTable(%q)", n)
			r.safe(op, func() { err = s.DeleteTable(n) })
			k := m.find(n)
			if ok = k >= 0; ok {
				next.tabs, next.names = append(next.tabs[:k], next.tabs[k+1:]...), append(next.names[:k], next.names[k+1:]...)
			}
		case 4:
			k := g.Intn(len(m.tabs)+3) - 1
			op = fmt.Sprintf("DeleteTableByTableIndex(%d)", k)
			r.safe(op, func() { err = s.DeleteTableByTableIndex(k) })
			if ok = k >= 0 && k < len(m.tabs); ok {
				next.tabs, next.names = append(next.tabs[:k], next.tabs[k+1:]...), append(next.names[:k], next.names[k+1:]...)
			}
		case 5:
			to := pick(g, append([]string{"1bad", "x y", "int"}, setNames...))
			op = fmt.Sprintf("RenameTable(%q,%q)", n, to)
			r.safe(op, func() { err = s.RenameTable(n, to) })
			k := m.find(n)
			if ok = k >= 0 && validName(to) && m.find(to) < 0; ok {
				next.names[k] = to
			}
		case 6:
			op, ok = fmt.Sprintf("SetName(%q)", n), true
			err = s.SetName(n)
			next.name = n
		case 7:
			op, ok = fmt.Sprintf("SetFileName(%q)", n), true
			s.SetFileName(n)
			next.file = n
		case 8:
			op, ok = "Copy()", true
			for _, t := range m.tabs {
				if nt, _ := t.IsNilTable(); nt {
					ok = false
				}
			}
			var c *gotables.TableSet
			r.safe(op, func() { c, err = s.Copy() })
			if err == nil {
				r.check(c != s && c.TableCount() == len(m.tabs) && c.Name() == m.name && c.FileName() == m.file, "copy", "Copy(): %d tables, want %d", c.TableCount(), len(m.tabs))
				for i, t := range m.tabs {
					x, e := c.GetTableByTableIndex(i)
					must(e)
					r.check(x != t, "copy", "Copy() shares table %d", i)
					d := plain(snap(t)).diff(plain(snap(x)), same)
					r.check(d == "", "copy", "Copy() table %d: %s", i, d)
				}
				if len(m.tabs) > 0 {
					i := g.Intn(len(m.tabs))
					x, _ := c.GetTableByTableIndex(i)
					before := snap(m.tabs[i])
					r.op("Copy()")
					disturb(r, g, x, fmt.Sprintf("copy.table%d", i))
					r.check(before.diff(snap(m.tabs[i]), same) == "", "shared", "changing table %d of the copy changed the original", i)
					must(c.DeleteTableByTableIndex(i))
				}
			}
		}
		r.op("%s", op)
		r.check((err == nil) == ok, strings.SplitN(op, "(", 2)[0]+":err", "%s with tables %q: %v, must succeed %v", op, m.names, err, ok)
		if ok {
			*m = next
		}
		m.check(r, op, s)
	}
}

func init() {
	const rule = "random tables and histories of the real operations compared with a model; a case is non-trivial when its operations differ from every earlier case"
	drivers["C12"] = &Driver{rule: rule + "; one case in four deep-copies a random tree of up to 7 tables", rnd: func(r *Rec, g *rand.Rand) {
		if g.Intn(4) == 0 {
			copyDeepCase(r, g)
		} else {
			copyCase(r, g)
		}
	}}
	drivers["C20"] = &Driver{rule: rule, rnd: appendCase}
	drivers["C13"] = &Driver{rule: rule, rnd: setCase}
}

// sameTree compares two trees of tables by content and checks that they share no table.
func sameTree(r *Rec, a, b *gotables.Table, path string) {
	r.check(a != b, "copydeep:shared", "the copy shares table %s", path)
	sa, sb := snap(a), snap(b)
	d := sa.diff(sb, func(x, y interface{}) bool {
		_, tx := x.(*gotables.Table)
		_, ty := y.(*gotables.Table)
		return tx && ty || same(x, y)
	})
	r.check(d == "", "copydeep:content", "%s: %s", path, d)
	for c := range sa.cols {
		if sa.types[c] != "*Table" {
			continue
		}
		for q := range sa.rows {
			sameTree(r, sa.rows[q][c].(*gotables.Table), sb.rows[q][c].(*gotables.Table), fmt.Sprintf("%s(%d,%d)", path, c, q))
		}
	}
}

func copyDeepCase(r *Rec, g *rand.Rand) {
	tr := genTree(r, g, 7)
	t := tr.root
	if g.Intn(4) == 0 {
		t = tr.tables[g.Intn(len(tr.tables))]
	}
	var before []string
	var snaps []*Snap
	trace(t, true, &before)
	for _, x := range tr.tables {
		snaps = append(snaps, snap(x))
	}
	r.op("C = CopyDeep(%s)", t.Name())
	c, err := t.CopyDeep()
	r.check(err == nil, "copydeep:error", "CopyDeep: %v", err)
	untouched := func(when string) {
		var now []string
		trace(t, true, &now)
		r.check(strings.Join(before, "\n") == strings.Join(now, "\n"), "copydeep:original", "%s: the tables of the original changed", when)
		for i, x := range tr.tables {
			d := snaps[i].diff(snap(x), same)
			r.check(d == "", "copydeep:original", "%s: table %s of the original changed: %s", when, x.Name(), d)
		}
	}
	untouched("after CopyDeep")
	sameTree(r, t, c, "root")
	orig := map[*gotables.Table]bool{}
	for _, x := range tr.tables {
		reach(x, orig)
	}
	seen := map[*gotables.Table]bool{}
	reach(c, seen)
	for x := range seen {
		r.check(!orig[x], "copydeep:shared", "table %s of the original is inside the copy", x.Name())
	}
	var inCopy []*gotables.Table
	must(c.Walk(true, gotables.WalkSafe{}, func(x *gotables.Table) error { inCopy = append(inCopy, x); return nil }, nil, nil))
	for i := 0; i < 2; i++ {
		x := inCopy[g.Intn(len(inCopy))]
		if nt, _ := x.IsNilTable(); !nt {
			disturb(r, g, x, "copy:"+x.Name())
		}
	}
	untouched("after changing the copy")
}
