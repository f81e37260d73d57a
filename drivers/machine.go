package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/urban-wombat/gotables"
)

// mach runs random operations on a real table and on its model.
type mach struct {
	g   *rand.Rand
	rec *Rec
	t   *gotables.Table
	s   *Snap
}

type mop struct {
	name string
	f    func(m *mach)
}

// expect compares the outcome of an operation with the model: want says whether it must
// succeed, next is the state after success. A failing operation must change nothing.
func (m *mach) expect(op string, err error, want bool, next *Snap) {
	m.rec.check((err == nil) == want, op+":err", "%s: err=%v, must succeed=%v", op, err, want)
	now := snap(m.t)
	if err != nil {
		d := m.s.diff(now, same)
		m.rec.check(d == "", op+":trace", "%s failed (%v) but changed the table: %s", op, err, d)
	} else {
		d := next.diff(now, same)
		m.rec.check(d == "", op+":state", "%s: expected vs actual: %s", op, d)
	}
	m.valid(op)
	m.s = now
}

func (m *mach) valid(op string) {
	consistent(m.rec, op, m.t)
}

// consistent checks the structural invariant through the exported API.
func consistent(rec *Rec, op string, t *gotables.Table) {
	if nt, _ := t.IsNilTable(); !nt {
		ok, err := t.IsValidTable()
		rec.check(ok && err == nil, op+":valid", "after %s IsValidTable: %v %v", op, ok, err)
	}
	for c := 0; c < t.ColCount(); c++ {
		n, err := t.ColName(c)
		rec.check(err == nil, op+":index", "ColName(%d): %v", c, err)
		i, err := t.ColIndex(n)
		rec.check(err == nil && i == c, op+":index", "after %s ColIndex(%q)=%d,%v, but it is col %d", op, n, i, err, c)
		ty, err := t.ColType(n)
		ty2, err2 := t.ColTypeByColIndex(c)
		rec.check(err == nil && err2 == nil && ty == ty2, op+":index", "after %s ColType(%q)=%q,%v ColTypeByColIndex(%d)=%q,%v", op, n, ty, err, c, ty2, err2)
		ok, _ := gotables.IsValidColType(ty)
		rec.check(ok, op+":type", "col %q has type %q", n, ty)
		if nt, _ := t.IsNilTable(); nt {
			continue
		}
		for r := 0; r < t.RowCount(); r++ {
			v, err := t.GetValByColIndex(c, r)
			rec.check(err == nil && reflect.TypeOf(v) == goType(ty), op+":cell", "after %s cell (%d,%d) of %s col holds %T, %v", op, c, r, ty, v, err)
			w, err := t.GetVal(n, r)
			rec.check(err == nil && same(v, w), op+":cell", "after %s GetVal(%q,%d)=%v GetValByColIndex=%v", op, n, r, show(w), show(v))
		}
	}
	for _, k := range snap(t).keys {
		ty, err := t.ColType(k.name)
		rec.check(err == nil && canon(ty) == canon(k.typ), op+":keys", "after %s sort key %v: col type %q %v", op, k, ty, err)
	}
}

func (m *mach) colArg() string {
	if len(m.s.cols) > 0 && m.g.Intn(5) > 0 {
		return pick(m.g, m.s.cols)
	}
	return pick(m.g, append(append([]string{}, namePool...), badNames...))
}
func (m *mach) rowArg() int {
	n := len(m.s.rows)
	switch m.g.Intn(9) {
	case 8:
		if k := dictSize(m.g, 300); n > 4 && k < n {
			return k
		}
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n + m.g.Intn(3)
	case 3:
		return n - 1
	}
	if n == 0 {
		return 0
	}
	return m.g.Intn(n)
}
func (m *mach) colIdx() int {
	n := len(m.s.cols)
	switch m.g.Intn(8) {
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n - 1
	}
	if n == 0 {
		return 0
	}
	return m.g.Intn(n)
}
func (m *mach) inRow(r int) bool { return r >= 0 && r < len(m.s.rows) }
func (m *mach) inCol(c int) bool { return c >= 0 && c < len(m.s.cols) }

func isIdent(n string) bool {
	if n == "" {
		return false
	}
	for i := 0; i < len(n); i++ {
		c := n[i]
		l := c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !l && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return true
}

func validName(n string) bool { return isIdent(n) && goType(n) == nil }

func isFloatType(t string) bool { return t == "float32" || t == "float64" }
func nanOf(t string) interface{} {
	if t == "float32" {
		return float32(math.NaN())
	}
	return math.NaN()
}

// call invokes a method by name and returns its results; panicked reports a panic.
func call(t interface{}, name string, args ...interface{}) (out []reflect.Value, panicked interface{}) {
	defer func() {
		if p := recover(); p != nil {
			panicked = p
		}
	}()
	mv := reflect.ValueOf(t).MethodByName(name)
	if !mv.IsValid() {
		panic("no method " + name)
	}
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return mv.Call(in), nil
}
func errOf(v reflect.Value) error {
	e, _ := v.Interface().(error)
	return e
}

var mops = map[string][]mop{}

func init() {
	mops["rows"] = []mop{
		{"AppendRow", func(m *mach) {
			m.rec.op("AppendRow()")
			n := m.s.clone()
			n.addRows(1)
			m.expect("AppendRow", m.t.AppendRow(), !m.s.nilTab, n)
		}},
		{"AppendRows", func(m *mach) {
			k := m.g.Intn(5) - 1
			if m.g.Intn(30) == 0 {
				k = dictSize(m.g, 300)
			}
			m.rec.op("AppendRows(%d)", k)
			n := m.s.clone()
			n.addRows(k)
			m.expect("AppendRows", m.t.AppendRows(k), !m.s.nilTab && k >= 0, n)
		}},
		{"DeleteRow", func(m *mach) {
			r := m.rowArg()
			m.rec.op("DeleteRow(%d)", r)
			n := m.s.clone()
			if m.inRow(r) {
				n.rows = append(n.rows[:r], n.rows[r+1:]...)
			}
			m.expect("DeleteRow", m.t.DeleteRow(r), m.inRow(r), n)
		}},
		{"DeleteRows", func(m *mach) {
			a, b := m.rowArg(), m.rowArg()
			m.rec.op("DeleteRows(%d,%d)", a, b)
			n := m.s.clone()
			ok := m.inRow(a) && m.inRow(b) && a <= b
			if ok {
				n.rows = append(n.rows[:a], n.rows[b+1:]...)
			}
			m.expect("DeleteRows", m.t.DeleteRows(a, b), ok, n)
		}},
		{"DeleteRowsAll", func(m *mach) {
			if m.g.Intn(6) > 0 {
				return
			}
			m.rec.op("DeleteRowsAll()")
			n := m.s.clone()
			n.rows = nil
			m.expect("DeleteRowsAll", m.t.DeleteRowsAll(), true, n)
		}},
	}
	mops["cols"] = []mop{
		{"AppendCol", func(m *mach) {
			c := pick(m.g, append(append([]string{}, namePool...), badNames...))
			ty := pick(m.g, append(append([]string{}, allTypes...), "complex128", "", "Table", "[]int", "Int", "int "))
			m.rec.op("AppendCol(%q,%q)", c, ty)
			n := m.s.clone()
			n.cols = append(n.cols, c)
			n.types = append(n.types, ty)
			for i := range n.rows {
				n.rows[i] = append(n.rows[i], zeroMark{ty})
			}
			m.expect("AppendCol", m.t.AppendCol(c, ty), !m.s.nilTab && validName(c) && goType(ty) != nil && m.s.col(c) < 0, n)
		}},
		{"DeleteCol", func(m *mach) {
			c := m.colArg()
			m.rec.op("DeleteCol(%q)", c)
			i := m.s.col(c)
			m.expect("DeleteCol", m.t.DeleteCol(c), i >= 0, m.s.dropCol(i))
		}},
		{"DeleteColByColIndex", func(m *mach) {
			i := m.colIdx()
			m.rec.op("DeleteColByColIndex(%d)", i)
			m.expect("DeleteColByColIndex", m.t.DeleteColByColIndex(i), m.inCol(i), m.s.dropCol(i))
		}},
		{"RenameCol", func(m *mach) {
			a, b := m.colArg(), m.colArg()
			m.rec.op("RenameCol(%q,%q)", a, b)
			i := m.s.col(a)
			ok := i >= 0 && m.s.col(b) < 0 && validName(b)
			m.expect("RenameCol", m.t.RenameCol(a, b), ok, m.s.renameCol(i, b))
		}},
		{"RenameColByColIndex", func(m *mach) {
			i, b := m.colIdx(), m.colArg()
			m.rec.op("RenameColByColIndex(%d,%q)", i, b)
			ok := m.inCol(i) && m.s.col(b) < 0 && validName(b)
			m.expect("RenameColByColIndex", m.t.RenameColByColIndex(i, b), ok, m.s.renameCol(i, b))
		}},
		{"SetName", func(m *mach) {
			nm := pick(m.g, append([]string{"T", "T2", "Tab"}, badNames...))
			n := m.s.clone()
			n.name, n.nilTab = nm, false
			if m.g.Intn(2) == 0 {
				m.rec.op("SetName(%q)", nm)
				m.expect("SetName", m.t.SetName(nm), validName(nm), n)
			} else {
				m.rec.op("RenameTable(%q)", nm)
				m.expect("RenameTable", m.t.RenameTable(nm), validName(nm), n)
			}
		}},
		{"SetStructShape", func(m *mach) {
			b := m.g.Intn(2) == 0
			m.rec.op("SetStructShape(%v)", b)
			n := m.s.clone()
			n.shape = b
			m.expect("SetStructShape", m.t.SetStructShape(b), true, n)
		}},
	}
	mops["cells"] = []mop{
		{"Set", func(m *mach) { m.typedSet() }},
		{"Set", func(m *mach) { m.typedSet() }},
		{"SetVal", func(m *mach) { m.setVal() }},
		{"Get", func(m *mach) { m.typedGet() }},
	}
	mops["fill"] = []mop{
		{"SetCellToZeroValue", func(m *mach) {
			c, r := m.colArg(), m.rowArg()
			i := m.s.col(c)
			m.rec.op("SetCellToZeroValue(%q,%d)", c, r)
			m.expect("SetCellToZeroValue", m.t.SetCellToZeroValue(c, r), i >= 0 && m.inRow(r), m.s.fill(func(q, d int) bool { return q == r && d == i }, false))
		}},
		{"SetCellToZeroValueByColIndex", func(m *mach) {
			i, r := m.colIdx(), m.rowArg()
			m.rec.op("SetCellToZeroValueByColIndex(%d,%d)", i, r)
			m.expect("SetCellToZeroValueByColIndex", m.t.SetCellToZeroValueByColIndex(i, r), m.inCol(i) && m.inRow(r), m.s.fill(func(q, d int) bool { return q == r && d == i }, false))
		}},
		{"SetColCellsToZeroValue", func(m *mach) {
			c := m.colArg()
			i := m.s.col(c)
			m.rec.op("SetColCellsToZeroValue(%q)", c)
			m.expect("SetColCellsToZeroValue", m.t.SetColCellsToZeroValue(c), i >= 0, m.s.fill(func(q, d int) bool { return d == i }, false))
		}},
		{"SetColCellsToZeroValueByColIndex", func(m *mach) {
			i := m.colIdx()
			if !m.inCol(i) && len(m.s.rows) == 0 {
				return
			}
			m.rec.op("SetColCellsToZeroValueByColIndex(%d)", i)
			m.expect("SetColCellsToZeroValueByColIndex", m.t.SetColCellsToZeroValueByColIndex(i), m.inCol(i), m.s.fill(func(q, d int) bool { return d == i }, false))
		}},
		{"SetRowCellsToZeroValue", func(m *mach) {
			r := m.rowArg()
			m.rec.op("SetRowCellsToZeroValue(%d)", r)
			m.expect("SetRowCellsToZeroValue", m.t.SetRowCellsToZeroValue(r), m.inRow(r) && !m.s.nilTab, m.s.fill(func(q, d int) bool { return q == r }, false))
		}},
		{"SetRowFloatCellsToNaN", func(m *mach) {
			r := m.rowArg()
			if !m.inRow(r) && !m.s.hasFloat() {
				return // nothing to do, nothing to refuse
			}
			m.rec.op("SetRowFloatCellsToNaN(%d)", r)
			m.expect("SetRowFloatCellsToNaN", m.t.SetRowFloatCellsToNaN(r), m.inRow(r), m.s.fill(func(q, d int) bool { return q == r }, true))
		}},
		{"SetAllFloatCellsToNaN", func(m *mach) {
			m.rec.op("SetAllFloatCellsToNaN()")
			m.expect("SetAllFloatCellsToNaN", m.t.SetAllFloatCellsToNaN(), true, m.s.fill(func(q, d int) bool { return true }, true))
		}},
		{"SetColFloatCellsToNaN", func(m *mach) {
			c := m.colArg()
			i := m.s.col(c)
			if i >= 0 && !isFloatType(m.s.types[i]) {
				return
			}
			m.rec.op("SetColFloatCellsToNaN(%q)", c)
			m.expect("SetColFloatCellsToNaN", m.t.SetColFloatCellsToNaN(c), i >= 0, m.s.fill(func(q, d int) bool { return d == i }, true))
		}},
		{"SetFloatCellToNaN", func(m *mach) {
			c, r := m.colArg(), m.rowArg()
			i := m.s.col(c)
			if i >= 0 && !isFloatType(m.s.types[i]) {
				return
			}
			m.rec.op("SetFloatCellToNaN(%q,%d)", c, r)
			m.expect("SetFloatCellToNaN", m.t.SetFloatCellToNaN(c, r), i >= 0 && m.inRow(r), m.s.fill(func(q, d int) bool { return d == i && q == r }, true))
		}},
	}
	mops["order"] = []mop{
		{"SwapCols", func(m *mach) {
			a, b := m.colArg(), m.colArg()
			i, j := m.s.col(a), m.s.col(b)
			m.rec.op("SwapCols(%q,%q)", a, b)
			m.expect("SwapCols", m.t.SwapCols(a, b), i >= 0 && j >= 0 && i != j, m.s.swapCols(i, j))
		}},
		{"SwapColsByColIndex", func(m *mach) {
			i, j := m.colIdx(), m.colIdx()
			m.rec.op("SwapColsByColIndex(%d,%d)", i, j)
			m.expect("SwapColsByColIndex", m.t.SwapColsByColIndex(i, j), m.inCol(i) && m.inCol(j) && i != j, m.s.swapCols(i, j))
		}},
		{"ReorderCols", func(m *mach) { m.reorder() }},
		{"Reverse", func(m *mach) {
			m.rec.op("Reverse()")
			n := m.s.clone()
			for i, j := 0, len(n.rows)-1; i < j; i, j = i+1, j-1 {
				n.rows[i], n.rows[j] = n.rows[j], n.rows[i]
			}
			m.expect("Reverse", m.t.Reverse(), true, n)
		}},
		{"OrderColsBySortKeys", func(m *mach) {
			m.rec.op("OrderColsBySortKeys()")
			var ord []int
			seen := map[string]bool{}
			for _, k := range m.s.keys {
				if !seen[k.name] {
					seen[k.name] = true
					ord = append(ord, m.s.col(k.name))
				}
			}
			for i, c := range m.s.cols {
				if !seen[c] {
					ord = append(ord, i)
				}
			}
			m.expect("OrderColsBySortKeys", m.t.OrderColsBySortKeys(), true, m.s.reordered(ord))
		}},
	}
	mops["keys"] = []mop{
		{"SetSortKeys", func(m *mach) {
			var ks []string
			ok := true
			n := m.s.clone()
			n.keys = nil
			for i := m.g.Intn(4); i > 0; i-- {
				c := m.sortCol()
				ks = append(ks, c)
				ok = ok && m.sortable(c)
				if m.s.col(c) >= 0 {
					n.keys = append(n.keys, sk{c, m.s.types[m.s.col(c)], false})
				}
			}
			m.rec.op("SetSortKeys(%q)", ks)
			err := m.t.SetSortKeys(ks...)
			if err != nil { // the keys before the bad one are left in place
				m.rec.check(!ok, "SetSortKeys:err", "SetSortKeys(%q): %v", ks, err)
				must(m.t.SetSortKeys())
				m.s.keys = nil
				m.expect("SetSortKeys", nil, true, m.s)
				return
			}
			m.expect("SetSortKeys", err, ok, n)
		}},
		{"AppendSortKey", func(m *mach) {
			c := m.sortCol()
			m.rec.op("AppendSortKey(%q)", c)
			n := m.s.clone()
			if m.s.col(c) >= 0 {
				n.keys = append(n.keys, sk{c, m.s.types[m.s.col(c)], false})
			}
			m.expect("AppendSortKey", m.t.AppendSortKey(c), m.sortable(c), n)
		}},
		{"DeleteSortKey", func(m *mach) {
			c := m.colArg()
			if len(m.s.keys) > 0 && m.g.Intn(2) == 0 {
				c = m.s.keys[m.g.Intn(len(m.s.keys))].name
			}
			m.rec.op("DeleteSortKey(%q)", c)
			n := m.s.clone()
			ok := false
			for i, k := range n.keys {
				if k.name == c {
					n.keys = append(n.keys[:i], n.keys[i+1:]...)
					ok = true
					break
				}
			}
			m.expect("DeleteSortKey", m.t.DeleteSortKey(c), ok, n)
		}},
		{"SetSortKeysReverse", func(m *mach) {
			c := m.colArg()
			if len(m.s.keys) > 0 && m.g.Intn(3) > 0 {
				c = m.s.keys[m.g.Intn(len(m.s.keys))].name
			}
			m.rec.op("SetSortKeysReverse(%q)", c)
			n := m.s.clone()
			ok := false
			for i := range n.keys {
				if n.keys[i].name == c {
					n.keys[i].rev = true
					ok = true
				}
			}
			m.expect("SetSortKeysReverse", m.t.SetSortKeysReverse(c), ok, n)
		}},
		{"Sort", func(m *mach) {
			m.rec.op("Sort()")
			before := m.s
			err := m.t.Sort()
			now := snap(m.t)
			if len(before.keys) == 0 {
				m.expect("Sort", err, false, before)
				return
			}
			m.rec.check(err == nil, "Sort:err", "Sort: %v", err)
			d := permuted(before, now)
			m.rec.check(d == "", "Sort:perm", "Sort: %s", d)
			checkSorted(m.rec, now)
			m.expect("Sort", nil, true, now)
		}},
	}
	mops["copies"] = []mop{
		{"Copy", func(m *mach) {
			if m.s.nilTab {
				return
			}
			m.rec.op("t = Copy(t)")
			c, err := m.t.Copy()
			m.rec.check(err == nil, "Copy:err", "Copy: %v", err)
			d := m.s.diffCells(snap(c), alike)
			m.rec.check(d == "", "Copy:state", "Copy: original vs copy: %s", d)
			m.t = c
			m.s = snap(c)
			m.valid("Copy")
		}},
		{"AppendRowsFromTable", func(m *mach) {
			if m.s.nilTab || len(m.s.rows) == 0 || len(m.s.rows) > 12 {
				return
			}
			for _, ty := range m.s.types {
				if ty == "*Table" { // two cells would hold the same table, which IsValidTable refuses
					return
				}
			}
			a := m.g.Intn(len(m.s.rows))
			b := a + m.g.Intn(len(m.s.rows)-a)
			m.rec.op("t.AppendRowsFromTable(t,%d,%d)", a, b)
			n := m.s.clone()
			for i := a; i <= b; i++ {
				n.rows = append(n.rows, append([]interface{}{}, m.s.rows[i]...))
			}
			m.expect("AppendRowsFromTable", m.t.AppendRowsFromTable(m.t, a, b), true, n)
		}},
	}
}

func (m *mach) sortCol() string {
	for i := 0; i < 4 && len(m.s.cols) > 0; i++ {
		c := pick(m.g, m.s.cols)
		if m.sortable(c) {
			return c
		}
	}
	return m.colArg()
}
func (m *mach) sortable(c string) bool {
	i := m.s.col(c)
	return i >= 0 && sortableType(m.s.types[i])
}

var sortableSet map[string]bool

// sortableType: the types a sort key may have, observed from the library (every one of
// sortableTypes must be accepted; aliases may be or not).
func sortableType(t string) bool {
	if sortableSet == nil {
		sortableSet = map[string]bool{}
		for _, ty := range allTypes {
			x, err := gotables.NewTable("T")
			must(err)
			must(x.AppendCol("a", ty))
			sortableSet[ty] = x.AppendSortKey("a") == nil
		}
		for _, ty := range sortableTypes {
			if !sortableSet[ty] {
				panic("type " + ty + " is not sortable")
			}
		}
	}
	return sortableSet[t]
}

func (s *Snap) hasFloat() bool {
	for _, t := range s.types {
		if isFloatType(t) {
			return true
		}
	}
	return false
}
func (s *Snap) addRows(n int) {
	for i := 0; i < n; i++ {
		row := make([]interface{}, len(s.cols))
		for c := range row {
			row[c] = zeroMark{s.types[c]}
		}
		s.rows = append(s.rows, row)
	}
}
func (s *Snap) dropCol(i int) *Snap {
	n := s.clone()
	if i < 0 || i >= len(s.cols) {
		return n
	}
	name := s.cols[i]
	n.cols = append(n.cols[:i], n.cols[i+1:]...)
	n.types = append(n.types[:i], n.types[i+1:]...)
	for r := range n.rows {
		n.rows[r] = append(n.rows[r][:i], n.rows[r][i+1:]...)
	}
	n.keys = nil
	for _, k := range s.keys {
		if k.name != name {
			n.keys = append(n.keys, k)
		}
	}
	return n
}
func (s *Snap) renameCol(i int, b string) *Snap {
	n := s.clone()
	if i < 0 || i >= len(s.cols) {
		return n
	}
	for k := range n.keys {
		if n.keys[k].name == s.cols[i] {
			n.keys[k].name = b
		}
	}
	n.cols[i] = b
	return n
}
func (s *Snap) swapCols(i, j int) *Snap {
	n := s.clone()
	if i < 0 || j < 0 || i >= len(s.cols) || j >= len(s.cols) {
		return n
	}
	n.cols[i], n.cols[j] = n.cols[j], n.cols[i]
	n.types[i], n.types[j] = n.types[j], n.types[i]
	for r := range n.rows {
		n.rows[r][i], n.rows[r][j] = n.rows[r][j], n.rows[r][i]
	}
	return n
}
func (s *Snap) reordered(ord []int) *Snap {
	n := s.clone()
	for to, from := range ord {
		n.cols[to], n.types[to] = s.cols[from], s.types[from]
		for r := range n.rows {
			n.rows[r][to] = s.rows[r][from]
		}
	}
	return n
}
func (s *Snap) fill(at func(r, c int) bool, nan bool) *Snap {
	n := s.clone()
	for r := range n.rows {
		for c := range n.cols {
			if !at(r, c) {
				continue
			}
			if !nan {
				n.rows[r][c] = zeroMark{n.types[c]}
			} else if isFloatType(n.types[c]) {
				n.rows[r][c] = nanOf(n.types[c])
			}
		}
	}
	return n
}

func (m *mach) reorder() {
	nc := len(m.s.cols)
	ord := m.g.Perm(nc)
	ok := true
	switch m.g.Intn(6) {
	case 0:
		if nc > 0 {
			ord[m.g.Intn(nc)] = m.g.Intn(nc+2) - 1
		}
	case 1:
		ord = append(ord, 0)
	}
	seen := map[int]bool{}
	ok = len(ord) == nc
	for _, o := range ord {
		if o < 0 || o >= nc || seen[o] {
			ok = false
		}
		seen[o] = true
	}
	n := m.s
	if ok {
		n = m.s.reordered(ord)
	}
	names := []string{}
	for _, o := range ord {
		if o >= 0 && o < nc {
			names = append(names, m.s.cols[o])
		} else {
			names = append(names, "nosuch")
		}
	}
	switch m.g.Intn(4) {
	case 0:
		m.rec.op("ReorderColsByColIndex(%v)", ord)
		m.expect("ReorderColsByColIndex", m.t.ReorderColsByColIndex(ord...), ok, n)
	case 1:
		m.rec.op("ReorderCols(%v)", names)
		m.expect("ReorderCols", m.t.ReorderCols(names...), ok, n)
	case 2, 3:
		if m.s.nilTab {
			return
		}
		var t2 *gotables.Table
		var err error
		if m.g.Intn(2) == 0 {
			m.rec.op("NewTableReorderColsByColIndex(%v)", ord)
			t2, err = m.t.NewTableReorderColsByColIndex(ord...)
		} else {
			m.rec.op("NewTableReorderCols(%v)", names)
			t2, err = m.t.NewTableReorderCols(names...)
		}
		m.rec.check((err == nil) == ok, "NewTableReorderCols:err", "err=%v, must succeed=%v", err, ok)
		if err == nil {
			d := n.diffCells(snap(t2), same)
			m.rec.check(d == "", "NewTableReorderCols:state", "expected vs actual: %s", d)
			consistent(m.rec, "NewTableReorderCols", t2)
		}
		m.expect("NewTableReorderCols(original)", nil, true, m.s)
	}
}

func (m *mach) typedSet() {
	ty := pick(m.g, allTypes)
	byName := m.g.Intn(2) == 0
	var c string
	i := m.colIdx()
	if byName {
		c = m.colArg()
		i = m.s.col(c)
	}
	r := m.rowArg()
	if m.inCol(i) && m.g.Intn(5) > 0 {
		ty = m.s.types[i]
		if m.g.Intn(3) == 0 { // an alias of the col type
			for _, a := range m.g.Perm(len(allTypes)) {
				if canon(allTypes[a]) == canon(ty) {
					ty = allTypes[a]
					break
				}
			}
		}
	}
	v := genVal(m.g, ty, false)
	ok := m.inCol(i) && m.inRow(r) && canon(m.s.types[i]) == canon(ty)
	if (canon(ty) == "[]uint8" || ty == "*Table") && m.g.Intn(8) == 0 {
		v = reflect.Zero(goType(ty)).Interface()
		ok = false
	}
	n := m.s.clone()
	if ok {
		n.rows[r][i] = v
	}
	name := "Set" + helperName[ty]
	var args []interface{}
	if byName {
		args = []interface{}{c, r, v}
	} else {
		name += "ByColIndex"
		args = []interface{}{i, r, v}
	}
	if m.g.Intn(3) == 0 {
		name += "MustSet"
		m.rec.op("%s(%s)", name, showArgs(args))
		_, p := call(m.t, name, args...)
		var err error
		if p != nil {
			err = fmt.Errorf("panic %v", p)
			if re, ok := p.(interface{ RuntimeError() }); ok && re != nil {
				m.rec.fail("panic", "%s: runtime error %v", name, p)
			}
		}
		m.expect("MustSet", err, ok, n)
		return
	}
	m.rec.op("%s(%s)", name, showArgs(args))
	out, p := call(m.t, name, args...)
	if p != nil {
		m.rec.fail("panic", "%s panicked: %v", name, p)
	}
	m.expect("Set", errOf(out[0]), ok, n)
}

func showArgs(a []interface{}) string {
	var s []string
	for _, v := range a {
		s = append(s, show(v))
	}
	return strings.Join(s, ", ")
}

func (m *mach) setVal() {
	ty := pick(m.g, allTypes)
	byName := m.g.Intn(2) == 0
	var c string
	i := m.colIdx()
	if byName {
		c = m.colArg()
		i = m.s.col(c)
	}
	r := m.rowArg()
	if m.inCol(i) && m.g.Intn(4) > 0 {
		ty = m.s.types[i]
	}
	v := genVal(m.g, ty, false)
	ok := m.inCol(i) && m.inRow(r) && canon(m.s.types[i]) == canon(ty)
	n := m.s.clone()
	if ok {
		n.rows[r][i] = v
	}
	var err error
	if m.g.Intn(12) == 0 {
		switch m.g.Intn(3) {
		case 0:
			v = nil
		case 1:
			v = (*gotables.Table)(nil)
		case 2:
			v = struct{ X int }{1}
		}
		ok = false
	}
	if byName {
		m.rec.op("SetVal(%q,%d,%s)", c, r, show(v))
		err = m.t.SetVal(c, r, v)
	} else {
		m.rec.op("SetValByColIndex(%d,%d,%s)", i, r, show(v))
		err = m.t.SetValByColIndex(i, r, v)
	}
	m.expect("SetVal", err, ok, n)
}

func (m *mach) typedGet() {
	ty := pick(m.g, allTypes)
	byName := m.g.Intn(2) == 0
	var c string
	i := m.colIdx()
	if byName {
		c = m.colArg()
		i = m.s.col(c)
	}
	r := m.rowArg()
	if m.inCol(i) && m.g.Intn(4) > 0 {
		ty = m.s.types[i]
	}
	ok := m.inCol(i) && m.inRow(r) && canon(m.s.types[i]) == canon(ty)
	name := "Get" + helperName[ty]
	var args []interface{}
	if byName {
		args = []interface{}{c, r}
	} else {
		name += "ByColIndex"
		args = []interface{}{i, r}
	}
	mustGet := m.g.Intn(3) == 0
	if mustGet {
		name += "MustGet"
	}
	m.rec.op("%s(%s)", name, showArgs(args))
	out, p := call(m.t, name, args...)
	if p != nil {
		if re, isR := p.(interface{ RuntimeError() }); isR && re != nil {
			m.rec.fail("panic", "%s: runtime error %v", name, p)
		}
		m.rec.check(mustGet && !ok, "Get:panic", "%s(%s) panicked: %v", name, showArgs(args), p)
		m.expect("Get", nil, true, m.s)
		return
	}
	if mustGet {
		m.rec.check(ok, "Get:err", "%s(%s) returned %v for a cell it must refuse", name, showArgs(args), out[0])
	} else {
		err := errOf(out[1])
		m.rec.check((err == nil) == ok, "Get:err", "%s(%s): err=%v, must succeed=%v", name, showArgs(args), err, ok)
	}
	if ok {
		m.rec.check(same(m.s.rows[r][i], out[0].Interface()), "Get:val", "%s(%s) = %s, the cell holds %s", name, showArgs(args), show(out[0].Interface()), show(m.s.rows[r][i]))
	}
	m.expect("Get", nil, true, m.s)
}

// permuted: now holds the rows of before in some order, and nothing else changed.
func permuted(before, now *Snap) string {
	a, b := before.clone(), now.clone()
	if len(a.rows) != len(b.rows) {
		return fmt.Sprintf("%d rows became %d", len(a.rows), len(b.rows))
	}
	used := make([]bool, len(b.rows))
next:
	for _, r := range a.rows {
		for i, q := range b.rows {
			if used[i] {
				continue
			}
			eq := true
			for c := range r {
				if !same(r[c], q[c]) {
					eq = false
					break
				}
			}
			if eq {
				used[i] = true
				continue next
			}
		}
		return fmt.Sprintf("a row was lost: %s", showRows(&Snap{rows: [][]interface{}{r}}))
	}
	a.rows, b.rows = nil, nil
	return a.diff(b, same)
}

// cmpVal is the reference order of two cell values: numeric, false<true, strings ignoring
// case first as documented. NaN cells are compared as equal to anything (unconstrained).
func cmpVal(t string, a, b interface{}) (int, bool) {
	sgn := func(x bool, y bool) int {
		if x {
			return -1
		}
		if y {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case bool:
		y := b.(bool)
		return sgn(!x && y, x && !y), true
	case string:
		y := b.(string)
		lx, ly := strings.ToLower(x), strings.ToLower(y)
		if lx != ly {
			return sgn(lx < ly, ly < lx), true
		}
		return sgn(x < y, y < x), true
	case float64:
		y := b.(float64)
		return sgn(x < y, y < x), x == x && y == y
	case float32:
		y := b.(float32)
		return sgn(x < y, y < x), x == x && y == y
	}
	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
	switch av.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return sgn(av.Int() < bv.Int(), bv.Int() < av.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return sgn(av.Uint() < bv.Uint(), bv.Uint() < av.Uint()), true
	}
	panic("cmpVal " + t)
}

// keyCmp compares two rows by the sort keys (with reverse); ok is false when a NaN was met.
func keyCmp(s *Snap, a, b []interface{}, rev bool) (int, bool) {
	for _, k := range s.keys {
		i := s.col(k.name)
		c, ok := cmpVal(k.typ, a[i], b[i])
		if !ok {
			return 0, false
		}
		if c != 0 {
			if k.rev && rev {
				c = -c
			}
			return c, true
		}
	}
	return 0, true
}

func hasNaNKey(s *Snap) bool {
	for _, k := range s.keys {
		i := s.col(k.name)
		for _, r := range s.rows {
			if f, ok := r[i].(float64); ok && f != f {
				return true
			}
			if f, ok := r[i].(float32); ok && f != f {
				return true
			}
		}
	}
	return false
}

func checkSorted(rec *Rec, s *Snap) {
	if hasNaNKey(s) {
		return
	}
	for i := 0; i+1 < len(s.rows); i++ {
		c, _ := keyCmp(s, s.rows[i], s.rows[i+1], true)
		rec.check(c <= 0, "Sort:order", "keys %v: rows %d and %d are out of order: %s", s.keys, i, i+1, showRows(&Snap{rows: s.rows[i : i+2]}))
	}
}

func machineDriver(rule string, types []string, small bool, groups ...string) *Driver {
	return &Driver{
		rule: rule,
		rnd: func(r *Rec, g *rand.Rand) {
			m := &mach{g: g, rec: r}
			m.t, m.s = genTable(g, r, types, 4, 4, small)
			m.valid("build")
			if g.Intn(25) == 0 {
				m.t = gotables.NewNilTable()
				m.s = snap(m.t)
				r.op("NewNilTable()")
			}
			var ops []mop
			for _, gr := range groups {
				ops = append(ops, mops[gr]...)
			}
			if g.Intn(2) == 0 { // few kinds of operation
				var few []mop
				for i := 2 + g.Intn(4); i > 0; i-- {
					few = append(few, ops[g.Intn(len(ops))])
				}
				ops = few
			}
			n := 4 + g.Intn(14)
			for i := 0; i < n; i++ {
				o := ops[g.Intn(len(ops))]
				r.safe(o.name, func() { o.f(m) })
			}
		},
	}
}

var _ = sort.Ints

func init() {
	const rule = "random operation histories on a real table and on a model of it; a case is non-trivial when its history differs from every earlier one"
	drivers["machine"] = machineDriver(rule, allTypes, false, "rows", "cols", "cells", "fill", "order", "keys", "copies")
	drivers["C01"] = machineDriver(rule, allTypes, false, "cells", "cells", "cells", "cells", "rows", "cols")
	drivers["C02"] = machineDriver(rule, allTypes, false, "rows", "cols", "cells", "fill", "order")
	drivers["C03"] = drivers["machine"]
	drivers["C04"] = machineDriver(rule, allTypes, false, "rows", "rows", "rows", "cols", "cells", "copies")
	drivers["C05"] = machineDriver(rule, allTypes, false, "cols", "cols", "cols", "keys", "rows", "cells", "order")
	drivers["C06"] = machineDriver(rule, allTypes, false, "order", "order", "order", "keys", "cols", "rows")
	drivers["C16"] = machineDriver(rule, allTypes, false, "fill", "fill", "fill", "rows", "cols", "cells")
	drivers["C25"] = machineDriver(rule, append(append([]string{}, sortableTypes...), sortableTypes...), true, "keys", "keys", "keys", "cols", "order", "cells")
}
