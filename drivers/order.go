package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/urban-wombat/gotables"
)

// totCmp is the documented total order of cell values: like cmpVal, with NaN below every other
// value and equal to itself.
func totCmp(t string, a, b interface{}) int {
	na, nb := isNaNVal(a), isNaNVal(b)
	switch {
	case na && nb:
		return 0
	case na:
		return -1
	case nb:
		return 1
	}
	c, _ := cmpVal(t, a, b)
	return c
}

func isNaNVal(v interface{}) bool {
	switch x := v.(type) {
	case float64:
		return x != x
	case float32:
		return x != x
	}
	return false
}

// rowCmp compares two rows by the keys of s, with the direction of the keys when dir.
func rowCmp(s *Snap, a, b []interface{}, dir bool) int {
	for _, k := range s.keys {
		i := s.col(k.name)
		c := totCmp(k.typ, a[i], b[i])
		if c != 0 {
			if dir && k.rev {
				c = -c
			}
			return c
		}
	}
	return 0
}

// hardVals are values of one type that orderings tend to get wrong.
func hardVals(t string) []interface{} {
	var out []interface{}
	switch t {
	case "bool":
		return []interface{}{false, true}
	case "string":
		for _, s := range []string{"", "a", "A", "b", "B", "aa", "aA", "Aa", "AA", "ab", "aB", "z", "Z", "é", "É", "_", "0", " ", "[", "`", "~", "\x00", "a\x00", "日", "ß", "ss", "\xff", "K", "k"} {
			out = append(out, s)
		}
		return out
	case "float64":
		for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 0.30000000000000004, 0.3, 1e15 + 0.5, 1e15, 1 << 53, 1<<53 + 2} {
			out = append(out, f)
		}
		return out
	case "float32":
		for _, f := range []float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 0.1 + 1e-8, 0.25, 1 << 24, 1<<24 + 2} {
			out = append(out, f)
		}
		return out
	}
	rt := goType(t)
	mk := func(i int64) { out = append(out, convInt(rt.Name(), i)) }
	bits := uint(rt.Bits())
	for _, i := range []int64{0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1} {
		if (bits < 64 && i < 1<<(bits-1)) || bits == 64 || (rt.Name()[0] == 'u' && i < 1<<bits) {
			mk(i)
		}
	}
	if rt.Name()[0] == 'u' {
		if bits == 64 {
			mk(-1)
			mk(-2)
			mk(math.MinInt64)
		}
	} else {
		for _, i := range []int64{-1, -2, -128, -129, -32768, -1 << 31, -1<<31 - 1, -1<<53 - 1, math.MinInt64 + 1, math.MinInt64} {
			if i >= -1<<(bits-1) {
				mk(i)
			}
		}
	}
	return out
}

func convInt(name string, i int64) interface{} {
	switch name {
	case "int":
		return int(i)
	case "int8":
		return int8(i)
	case "int16":
		return int16(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(i)
	case "uint8":
		return uint8(i)
	case "uint16":
		return uint16(i)
	case "uint32":
		return uint32(i)
	case "uint64":
		return uint64(i)
	}
	panic(name)
}

// twoRows makes a one-column table with the two values.
func compareTwo(r *Rec, ty string, vals []interface{}) {
	t, err := gotables.NewTable("T")
	must(err)
	must(t.AppendCol("a", ty))
	must(t.AppendRows(len(vals)))
	for i, v := range vals {
		must(t.SetVal("a", i, v))
	}
	must(t.SetSortKeys("a"))
	n := len(vals)
	got := make([][]int, n)
	r.op("all pairs of %d %s values", n, ty)
	for i := 0; i < n; i++ {
		got[i] = make([]int, n)
		for j := 0; j < n; j++ {
			c, err := t.CompareRows(i, j)
			r.check(err == nil, "CompareRows:err", "%s CompareRows(%d,%d): %v", ty, i, j, err)
			got[i][j] = c
			want := totCmp(ty, vals[i], vals[j])
			r.check(sgn(c) == want, "CompareRows:value", "%s: compare %s with %s gives %d, want %d", ty, show(vals[i]), show(vals[j]), c, want)
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			r.check(sgn(got[i][j]) == -sgn(got[j][i]), "antisymmetry", "%s: %s and %s compare as %d and %d", ty, show(vals[i]), show(vals[j]), got[i][j], got[j][i])
			for k := 0; k < n; k++ {
				if got[i][j] <= 0 && got[j][k] <= 0 {
					r.check(got[i][k] <= 0, "transitivity", "%s: %s <= %s <= %s but not %s <= %s", ty, show(vals[i]), show(vals[j]), show(vals[k]), show(vals[i]), show(vals[k]))
				}
			}
		}
	}
}

func sgn(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

// keyedTable makes a table with sort keys on some of its columns.
func keyedTable(g *rand.Rand, rec *Rec, maxRows int, cmd string) (*gotables.Table, *Snap) {
	types := append(append([]string{}, sortableTypes...), "byte", "rune", "[]byte", "time.Time", "*Table")
	if g.Intn(2) == 0 {
		types = sortableTypes[:1+g.Intn(len(sortableTypes))]
	}
	t, s := genTable(g, rec, types, 5, maxRows, g.Intn(3) > 0)
	var names []string
	for _, i := range g.Perm(len(s.cols)) {
		if sortableType(s.types[i]) && g.Intn(3) > 0 {
			names = append(names, s.cols[i])
			if g.Intn(25) == 0 {
				names = append(names, s.cols[i]) // the same key twice
			}
		}
	}
	if len(names) > 3 && g.Intn(3) > 0 {
		names = names[:3]
	}
	must(t.SetSortKeys(names...))
	for _, n := range names {
		if g.Intn(3) == 0 {
			must(t.SetSortKeysReverse(n))
		}
	}
	s = snap(t)
	rec.op("%s with keys %v", cmd, s.keys)
	return t, s
}

func compareCase(r *Rec, g *rand.Rand) {
	t, s := keyedTable(g, r, 6, "compare rows")
	if len(s.rows) == 0 {
		return
	}
	for i := -1; i <= len(s.rows); i++ {
		for j := -1; j <= len(s.rows); j++ {
			c, err := t.CompareRows(i, j)
			in := i >= 0 && j >= 0 && i < len(s.rows) && j < len(s.rows)
			r.check((err == nil) == (in && len(s.keys) > 0), "CompareRows:iff", "CompareRows(%d,%d) of %d rows, %d keys: %v", i, j, len(s.rows), len(s.keys), err)
			if err != nil {
				continue
			}
			want := rowCmp(s, s.rows[i], s.rows[j], false)
			r.check(sgn(c) == want, "CompareRows:rows", "CompareRows(%d,%d) = %d, want %d; keys %v rows %s", i, j, c, want, s.keys, showRows(&Snap{rows: [][]interface{}{s.rows[i], s.rows[j]}}))
		}
	}
	r.check(s.diff(snap(t), same) == "", "CompareRows:pure", "CompareRows changed the table: %s", s.diff(snap(t), same))
}

func checkTotSorted(rec *Rec, s *Snap) {
	for i := 0; i+1 < len(s.rows); i++ {
		c := rowCmp(s, s.rows[i], s.rows[i+1], true)
		rec.check(c <= 0, "Sort:order", "keys %v: rows %d and %d are out of order: %s", s.keys, i, i+1, showRows(&Snap{rows: s.rows[i : i+2]}))
	}
}

func sortCase(r *Rec, g *rand.Rand) {
	maxRows := 8
	if g.Intn(6) == 0 {
		maxRows = 60
	}
	t, s := keyedTable(g, r, maxRows, "table")
	var cols []string
	mode := g.Intn(4)
	if mode > 0 {
		for _, i := range g.Perm(len(s.cols)) {
			if (sortableType(s.types[i]) || g.Intn(10) == 0) && g.Intn(2) == 0 {
				cols = append(cols, s.cols[i])
			}
		}
		if g.Intn(12) == 0 {
			cols = append(cols, "nosuchcol")
		}
	}
	ok := true
	next := s.clone()
	if len(cols) > 0 {
		next.keys = nil
		for _, c := range cols {
			i := s.col(c)
			if i < 0 || !sortableType(s.types[i]) {
				ok = false
				break
			}
			next.keys = append(next.keys, sk{c, s.types[i], false})
		}
	} else if len(s.keys) == 0 || mode == 3 {
		ok = false
	}
	var err error
	if mode == 3 {
		r.op("SortSimple(%v)", cols)
		r.safe("SortSimple", func() { err = t.SortSimple(cols...) })
	} else {
		r.op("Sort(%v)", cols)
		r.safe("Sort", func() { err = t.Sort(cols...) })
	}
	r.check((err == nil) == ok, "Sort:iff", "Sort(%v) with keys %v: %v", cols, s.keys, err)
	now := snap(t)
	if err != nil {
		r.check(s.diff(now, same) == "", "Sort:failed", "a failing Sort changed the table: %s", s.diff(now, same))
		return
	}
	r.check(permuted(next, now) == "", "Sort:rows", "Sort(%v): %s", cols, permuted(next, now))
	checkTotSorted(r, now)
	ok2, err := t.IsValidTable()
	r.check(ok2 && err == nil, "Sort:valid", "after Sort: %v", err)
	consistent(r, "Sort", t)
}

func searchCase(r *Rec, g *rand.Rand) {
	maxRows := 7
	if g.Intn(8) == 0 {
		maxRows = 40
	}
	t, s := keyedTable(g, r, maxRows, "table")
	if len(s.keys) > 0 {
		must(t.Sort())
		s = snap(t)
	}
	r.op("sorted rows %s", showRows(s))
	for try := 0; try < 8; try++ {
		var vals []interface{}
		okArgs := len(s.keys) > 0
		for _, k := range s.keys {
			i := s.col(k.name)
			var v interface{}
			if len(s.rows) > 0 && g.Intn(4) > 0 {
				v = s.rows[g.Intn(len(s.rows))][i]
			} else {
				v = genVal(g, k.typ, true)
			}
			vals = append(vals, v)
		}
		if len(s.rows) > 0 && g.Intn(3) == 0 { // a tuple that is there
			row := s.rows[g.Intn(len(s.rows))]
			for i, k := range s.keys {
				vals[i] = row[s.col(k.name)]
			}
			if n := len(vals); n > 0 && g.Intn(3) == 0 { // or all but one of its values
				i := n - 1
				if g.Intn(3) == 0 {
					i = g.Intn(n)
				}
				vals[i] = genVal(g, s.keys[i].typ, g.Intn(4) > 0)
			}
		}
		switch g.Intn(16) {
		case 0:
			vals = append(vals, 1)
			okArgs = false
		case 1:
			if len(vals) > 0 {
				vals = vals[:len(vals)-1]
				okArgs = false
			}
		case 2:
			if len(vals) > 0 {
				i := g.Intn(len(vals))
				vals[i] = genVal(g, pick(g, allTypes), true)
				if goType(s.keys[i].typ).String() != fmt.Sprintf("%T", vals[i]) {
					okArgs = false
				}
			}
		case 3:
			if len(vals) > 0 {
				vals[g.Intn(len(vals))] = nil
				okArgs = false
			}
		}
		first, last := -1, -1
		if okArgs {
			for i, row := range s.rows {
				eq := true
				for j, k := range s.keys {
					if totCmp(k.typ, row[s.col(k.name)], vals[j]) != 0 {
						eq = false
					}
				}
				if eq {
					if first < 0 {
						first = i
					}
					last = i
				}
			}
		}
		found := first >= 0
		what := ""
		for _, v := range vals {
			what += " " + show(v)
		}
		r.op("search%s", what)
		one := func(name string, want int, f func(...interface{}) (int, error)) {
			var i int
			var err error
			r.safe(name, func() { i, err = f(vals...) })
			r.check((err == nil) == found, name+":found", "%s(%s) keys %v: %d, %v; a linear scan finds %d..%d in %s", name, what, s.keys, i, err, first, last, showRows(s))
			if found {
				r.check(i == want, name+":row", "%s(%s) keys %v = %d, a linear scan finds %d..%d in %s", name, what, s.keys, i, first, last, showRows(s))
			} else {
				r.check(i == -1, name+":norow", "%s(%s) failed and gave row %d", name, what, i)
			}
		}
		one("Search", first, t.Search)
		one("SearchFirst", first, t.SearchFirst)
		one("SearchLast", last, t.SearchLast)
		var a, b int
		var err error
		r.safe("SearchRange", func() { a, b, err = t.SearchRange(vals...) })
		r.check((err == nil) == found, "SearchRange:found", "SearchRange(%s): %d, %d, %v; a linear scan finds %d..%d", what, a, b, err, first, last)
		if found {
			r.check(a == first && b == last, "SearchRange:rows", "SearchRange(%s) = %d, %d; a linear scan finds %d..%d in %s", what, a, b, first, last, showRows(s))
		} else {
			r.check(a == -1 && b == -1, "SearchRange:norow", "SearchRange(%s) failed and gave rows %d, %d", what, a, b)
		}
	}
	r.check(s.diff(snap(t), same) == "", "Search:pure", "searching changed the table: %s", s.diff(snap(t), same))
}

func init() {
	const rule = "random tables with random sort keys; a case is non-trivial when its table, keys and operations differ from every earlier one"
	drivers["C07"] = &Driver{rule: rule, fixed: func(r *Rec, i int) bool {
		if i >= len(sortableTypes) {
			return false
		}
		compareTwo(r, sortableTypes[i], hardVals(sortableTypes[i]))
		return i+1 < len(sortableTypes)
	}, rnd: func(r *Rec, g *rand.Rand) {
		if g.Intn(8) == 0 {
			ty := pick(g, sortableTypes)
			var vals []interface{}
			for i := 0; i < 6; i++ {
				vals = append(vals, genVal(g, ty, false))
			}
			compareTwo(r, ty, vals)
			return
		}
		compareCase(r, g)
	}}
	drivers["C08"] = &Driver{rule: rule, rnd: sortCase}
	drivers["C09"] = &Driver{rule: rule, rnd: searchCase}
}
