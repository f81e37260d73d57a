package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/urban-wombat/gotables"
)

// eqCell is equality of cells as the package documents it: floats by ==, byte slices by content,
// times by instant, tables recursively.
func eqCell(a, b interface{}) bool {
	if x, ok := a.(*gotables.Table); ok {
		y, ok := b.(*gotables.Table)
		return ok && x != nil && y != nil && eqSnap(snap(x), snap(y))
	}
	if isNaNVal(a) || isNaNVal(b) {
		return false
	}
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	}
	return same(a, b)
}

// eqSnap: same name, same columns in any order, same rows.
func eqSnap(s, o *Snap) bool {
	if s.nilTab != o.nilTab || s.name != o.name || len(s.cols) != len(o.cols) || len(s.rows) != len(o.rows) {
		return false
	}
	for i, n := range s.cols {
		j := o.col(n)
		if j < 0 || s.types[i] != o.types[j] {
			return false
		}
		for r := range s.rows {
			if !eqCell(s.rows[r][i], o.rows[r][j]) {
				return false
			}
		}
	}
	return true
}

// rebuild makes a new table with the content of s, its columns in the order perm.
func rebuild(s *Snap, perm []int) *gotables.Table {
	if s.nilTab {
		return gotables.NewNilTable()
	}
	t, err := gotables.NewTable(s.name)
	must(err)
	for _, i := range perm {
		must(t.AppendCol(s.cols[i], s.types[i]))
	}
	must(t.AppendRows(len(s.rows)))
	for r := range s.rows {
		for c, i := range perm {
			v := s.rows[r][i]
			switch x := v.(type) {
			case []byte:
				v = append([]byte{}, x...)
			case *gotables.Table:
				if x != nil {
					in := snap(x)
					p := make([]int, len(in.cols))
					for k := range p {
						p[k] = k
					}
					v = rebuild(in, p)
				}
			}
			must(t.SetValByColIndex(c, r, v))
		}
	}
	return t
}

// tweak gives a value as close to v as can be.
func tweak(g *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case bool:
		return !x
	case string:
		b := []byte(x)
		switch k := g.Intn(4); {
		case len(b) == 0 || k == 0:
			return x + pick(g, []string{" ", "a", "\x00", "0"})
		case k == 1:
			return x[:len(x)-1]
		case k == 2:
			i := g.Intn(len(b))
			b[i] ^= 1 << uint(g.Intn(8))
			return string(b)
		default:
			return strings.ToUpper(x)
		}
	case []byte:
		b := append([]byte{}, x...)
		if len(b) == 0 || g.Intn(4) == 0 {
			return append(b, 0)
		}
		if g.Intn(4) == 0 {
			return b[:len(b)-1]
		}
		i := g.Intn(len(b))
		if g.Intn(2) == 0 {
			i = len(b) - 1
		}
		b[i] ^= 1 << uint(g.Intn(8))
		return b
	case float64:
		if g.Intn(2) == 0 {
			return -x
		}
		return math.Nextafter(x, math.Inf(1))
	case float32:
		if g.Intn(2) == 0 {
			return -x
		}
		return math.Nextafter32(x, float32(math.Inf(1)))
	case time.Time:
		return x.Add(time.Duration([]int64{1, -1, 1000, 1e9, 86400e9}[g.Intn(5)]))
	case *gotables.Table:
		if x == nil {
			return gotables.NewNilTable()
		}
		in := snap(x)
		p := make([]int, len(in.cols))
		for k := range p {
			p[k] = k
		}
		y := rebuild(in, p)
		if len(in.rows) > 0 && len(p) > 0 {
			c, q := g.Intn(len(p)), g.Intn(len(in.rows))
			o, err := y.GetValByColIndex(c, q)
			must(err)
			must(y.SetValByColIndex(c, q, tweak(g, o)))
		}
		return y
	}
	a := reflect.ValueOf(v)
	o := reflect.New(a.Type()).Elem()
	bit := uint(g.Intn(int(a.Type().Size()) * 8))
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		o.SetInt((a.Int() ^ 1<<bit) << (64 - 8*a.Type().Size()) >> (64 - 8*a.Type().Size()))
	default:
		o.SetUint((a.Uint() ^ 1<<bit) << (64 - 8*a.Type().Size()) >> (64 - 8*a.Type().Size()))
	}
	return o.Interface()
}

func equalsCase(r *Rec, g *rand.Rand) {
	t, s := genTable(g, r, allTypes, 5, 4, g.Intn(2) == 0)
	if g.Intn(30) == 0 {
		t = gotables.NewNilTable()
		s = snap(t)
	}
	for c, ty := range s.types { // a nil table in a cell
		if ty == "*Table" && len(s.rows) > 0 && g.Intn(6) == 0 {
			q := g.Intn(len(s.rows))
			if t.SetValByColIndex(c, q, (*gotables.Table)(nil)) == nil {
				r.op("nil table at (%d,%d)", c, q)
			}
		}
	}
	s = snap(t)
	perm := g.Perm(len(s.cols))
	if g.Intn(3) > 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	u := rebuild(s, perm)
	r.op("U = T rebuilt, columns %v", perm)
	// at most one small difference
	what := ""
	if nt, _ := u.IsNilTable(); !nt {
		nc, nr := u.ColCount(), u.RowCount()
		switch g.Intn(9) {
		case 0, 1, 2:
			if nc > 0 && nr > 0 {
				c, q := g.Intn(nc), g.Intn(nr)
				ty, _ := u.ColTypeByColIndex(c)
				v := genVal(g, ty, g.Intn(2) == 0)
				if g.Intn(2) == 0 {
					old, err := u.GetValByColIndex(c, q)
					must(err)
					v = tweak(g, old)
				}
				what = fmt.Sprintf("SetValByColIndex(%d,%d,%s)", c, q, show(v))
				must(u.SetValByColIndex(c, q, v))
			}
		case 3:
			what = "SetName(Other)"
			must(u.SetName("Other"))
		case 4:
			if nr > 0 {
				what = "DeleteRow(last)"
				must(u.DeleteRow(nr - 1))
			} else {
				what = "AppendRow()"
				must(u.AppendRow())
			}
		case 5:
			if nc > 0 {
				n, _ := u.ColName(g.Intn(nc))
				what = "RenameCol(" + n + ",zz9)"
				must(u.RenameCol(n, "zz9"))
			}
		case 6:
			if nc > 0 {
				c := g.Intn(nc)
				n, _ := u.ColName(c)
				ty := pick(g, allTypes)
				must(u.DeleteCol(n))
				must(u.AppendCol(n, ty))
				what = fmt.Sprintf("column %s replaced by an empty one of type %s", n, ty)
			}
		case 7:
			if nc > 0 {
				what = "DeleteColByColIndex(last)"
				must(u.DeleteColByColIndex(nc - 1))
			}
		}
		if what != "" {
			r.op("U.%s", what)
		}
	}
	o := snap(u)
	check := func(a, b *gotables.Table, sa, sb *Snap, label string) {
		var eq bool
		var err error
		r.safe(label, func() { eq, err = a.Equals(b) })
		want := eqSnap(sa, sb)
		r.check(eq == want, "equals", "%s = %v (%v), want %v", label, eq, err, want)
		r.check(eq == (err == nil), "err", "%s = %v with error %v", label, eq, err)
	}
	check(t, u, s, o, "T.Equals(U)")
	check(u, t, o, s, "U.Equals(T)")
	check(t, t, s, s, "T.Equals(T)")
	r.check(s.diff(snap(t), same) == "" && o.diff(snap(u), same) == "", "changed", "Equals changed a table")
	// sets
	if g.Intn(4) == 0 {
		a, _ := gotables.NewTableSet("A")
		b, _ := gotables.NewTableSet("B")
		for i := g.Intn(3); i > 0; i-- {
			x, _ := gotables.NewTable(fmt.Sprintf("x%d", i))
			y, _ := gotables.NewTable(fmt.Sprintf("x%d", i))
			must(a.AppendTable(x))
			must(b.AppendTable(y))
		}
		want := eqSnap(s, o)
		if g.Intn(3) > 0 && a.AppendTable(t) == nil && b.AppendTable(u) == nil {
			if g.Intn(4) == 0 {
				z, _ := gotables.NewTable("zzz")
				must(b.AppendTable(z))
				want = false
			}
		} else {
			want = true
		}
		if a.TableCount() != b.TableCount() {
			want = false
		}
		var eq bool
		var err error
		r.safe("TableSet.Equals", func() { eq, err = a.Equals(b) })
		r.check(eq == want && (err == nil) == eq, "set", "TableSet.Equals = %v (%v), want %v", eq, err, want)
	}
}

func init() {
	drivers["C11"] = &Driver{rule: "random pairs of tables that differ in at most one small respect, compared with an own definition of equality; a case is non-trivial when its tables differ from every earlier case", rnd: equalsCase}
}
