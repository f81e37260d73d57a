package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/urban-wombat/gotables"
)

// mergeTables makes two tables whose key columns agree.
func mergeTables(r *Rec, g *rand.Rand, only bool) (t, u *gotables.Table) {
	nk := 1 + g.Intn(2)
	types := append(append([]string{}, sortableTypes...), "byte", "rune", "[]byte", "[]uint8", "time.Time")
	var keyTypes []string
	for i := 0; i < nk; i++ {
		keyTypes = append(keyTypes, pick(g, sortableTypes))
	}
	shared := map[string]string{}
	mk := func(name string, own string) *gotables.Table {
		t, err := gotables.NewTable(name)
		must(err)
		type col struct {
			n, ty string
			key   bool
		}
		var cols []col
		for i, k := range keyTypes {
			cols = append(cols, col{fmt.Sprintf("k%d", i), k, true})
		}
		for i := g.Intn(4); i > 0; i-- {
			n := pick(g, []string{"a", "b", "c"})
			if g.Intn(3) == 0 {
				n = own + n
			}
			dup := false
			for _, c := range cols {
				dup = dup || c.n == n
			}
			if dup {
				continue
			}
			if shared[n] == "" {
				shared[n] = pick(g, types)
			}
			cols = append(cols, col{n, shared[n], false})
		}
		g.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		for _, c := range cols {
			must(t.AppendCol(c.n, c.ty))
		}
		nr := g.Intn(6)
		if g.Intn(15) == 0 {
			nr = 20
		}
		must(t.AppendRows(nr))
		for q := 0; q < nr; q++ {
			for c, k := range cols {
				if !k.key && g.Intn(3) == 0 {
					continue
				}
				v := genVal(g, k.ty, k.key || g.Intn(2) == 0)
				must(t.SetValByColIndex(c, q, v))
			}
		}
		r.op("table %s %v rows %s", name, cols, showRows(snap(t)))
		return t
	}
	t = mk("T", "t")
	if !only {
		u = mk("U", "u")
	}
	var keys []string
	for i := 0; i < nk; i++ {
		if i == 0 || g.Intn(2) == 0 {
			keys = append(keys, fmt.Sprintf("k%d", i))
		}
	}
	if g.Intn(3) == 0 && len(keys) > 1 {
		keys[0], keys[1] = keys[1], keys[0]
	}
	holder := t
	if !only && g.Intn(3) == 0 {
		holder = u
	}
	must(holder.SetSortKeys(keys...))
	r.op("%s.SetSortKeys(%v)", holder.Name(), keys)
	if g.Intn(3) == 0 {
		must(holder.SetSortKeysReverse(keys[0]))
		r.op("SetSortKeysReverse(%s)", keys[0])
	}
	return
}

// 0: missing (zero of the type), 1: NaN, 2: a value
func weight(v interface{}) int {
	switch x := v.(type) {
	case float32:
		if math.IsNaN(float64(x)) {
			return 1
		}
		if x == 0 {
			return 0
		}
		return 2
	case float64:
		if math.IsNaN(x) {
			return 1
		}
		if x == 0 {
			return 0
		}
		return 2
	case []byte:
		if len(x) == 0 {
			return 0
		}
		return 2
	case string:
		if x == "" {
			return 0
		}
		return 2
	case bool:
		if !x {
			return 0
		}
		return 2
	case time.Time:
		if x.IsZero() || x.Equal(minTime()) {
			return 0
		}
		return 2
	}
	if fmt.Sprint(v) == "0" {
		return 0
	}
	return 2
}

// cellsFor lists the values the merged cell of the column may have.
func cellsFor(groups [][]interface{}, isFloat bool) (out []interface{}) {
	for _, vs := range groups {
		for _, v := range vs {
			if weight(v) == 2 {
				out = append(out, v)
			}
		}
		if len(out) > 0 {
			return
		}
	}
	for _, vs := range groups {
		for _, v := range vs {
			if weight(v) == 0 {
				out = append(out, v)
			}
		}
	}
	if len(out) > 0 {
		return
	}
	for _, vs := range groups {
		out = append(out, vs...)
	}
	return
}

func mergeCase(r *Rec, g *rand.Rand) {
	only := g.Intn(3) == 0
	t, u := mergeTables(r, g, only)
	st := snap(t)
	var m *gotables.Table
	var err error
	ins := []*Snap{st}
	if only {
		if g.Intn(3) == 0 {
			var cols []string
			for _, k := range st.keys {
				cols = append(cols, k.name)
			}
			r.op("M = T.SortUnique(%v)", cols)
			m, err = t.SortUnique(cols...)
			for i := range st.keys { // keys given by name are not reversed
				st.keys[i].rev = false
			}
		} else {
			r.op("M = T.SortUnique()")
			m, err = t.SortUnique()
		}
	} else {
		su := snap(u)
		ins = append(ins, su)
		if len(st.keys) == 0 {
			st.keys = su.keys
		}
		r.op("M = T.Merge(U)")
		m, err = t.Merge(u)
	}
	r.check(err == nil, "merge:error", "merging tables with agreeing keys: %v", err)
	consistent(r, "merge", m)
	r.check(m != t && m != u, "merge:alias", "the result is one of the tables given")
	now := snap(t)
	if len(ins) == 2 {
		d := ins[1].diffCells(snap(u), same)
		r.check(d == "", "merge:input", "merging changed the argument: %s", d)
	}
	d := st.diffCells(now, same)
	r.check(d == "", "merge:input", "merging changed the receiver: %s", d)
	sm := snap(m)
	sm.keys = st.keys
	// with a table without rows the result is the other one's rows, sorted
	if len(ins) == 2 && (len(ins[0].rows) == 0 || len(ins[1].rows) == 0) {
		src := ins[1]
		if len(ins[1].rows) == 0 {
			src = ins[0]
		}
		if len(src.rows) == 0 {
			return
		}
		r.check(strings.Join(sm.cols, ",") == strings.Join(src.cols, ","), "merge:empty", "merging with a table without rows: columns %v, want %v", sm.cols, src.cols)
		keys := src.keys
		if len(keys) == 0 {
			keys = ins[0].keys
		}
		sm.keys, src.keys = keys, keys
		d := permuted(src, sm)
		r.check(d == "", "merge:empty", "merging with a table without rows: %s", d)
		checkTotSorted(r, sm)
		independent(r, g, t, m, "T", "M")
		independent(r, g, u, m, "U", "M")
		return
	}
	// columns: the union, with their types
	want := map[string]string{}
	for _, s := range ins {
		for i, c := range s.cols {
			want[c] = s.types[i]
		}
	}
	r.check(len(want) == len(sm.cols), "merge:columns", "columns %v, want the union %v", sm.cols, want)
	for i, c := range sm.cols {
		r.check(want[c] == sm.types[i], "merge:columns", "column %s %s, want the union %v", c, sm.types[i], want)
	}
	checkTotSorted(r, sm)
	// groups of input rows by key
	type ref struct{ s, row int }
	keyEq := func(a *Snap, ra int, b *Snap, rb int) bool {
		for _, k := range st.keys {
			if totCmp(k.typ, a.rows[ra][a.col(k.name)], b.rows[rb][b.col(k.name)]) != 0 {
				return false
			}
		}
		return true
	}
	var groups [][]ref
	for si, s := range ins {
		for q := range s.rows {
			found := false
			for gi := range groups {
				h := groups[gi][0]
				if keyEq(ins[h.s], h.row, s, q) {
					groups[gi] = append(groups[gi], ref{si, q})
					found = true
					break
				}
			}
			if !found {
				groups = append(groups, []ref{{si, q}})
			}
		}
	}
	r.check(len(groups) == len(sm.rows), "merge:rows", "%d rows for %d distinct keys", len(sm.rows), len(groups))
	for q := range sm.rows {
		n := 0
		for _, gr := range groups {
			if !keyEq(ins[gr[0].s], gr[0].row, sm, q) {
				continue
			}
			n++
			for c, name := range sm.cols {
				var parts [][]interface{}
				for si, s := range ins {
					var vs []interface{}
					for _, x := range gr {
						if x.s != si {
							continue
						}
						if i := s.col(name); i >= 0 {
							vs = append(vs, s.rows[x.row][i])
						} else if sm.types[c] == "float32" {
							vs = append(vs, float32(math.NaN()))
						} else if sm.types[c] == "float64" {
							vs = append(vs, math.NaN())
						} else {
							vs = append(vs, zeroMark{sm.types[c]})
						}
					}
					parts = append(parts, vs)
				}
				ok := false
				clean := [][]interface{}{}
				zero := false
				for _, p := range parts {
					var vs []interface{}
					for _, v := range p {
						if _, z := v.(zeroMark); z {
							zero = true
						} else {
							vs = append(vs, v)
						}
					}
					clean = append(clean, vs)
				}
				can := cellsFor(clean, false)
				for _, v := range can {
					ok = ok || same(v, sm.rows[q][c])
				}
				if zero && (len(can) == 0 || weight(can[0]) == 0) {
					ok = ok || weight(sm.rows[q][c]) == 0
				}
				r.check(ok, "merge:cell", "row %d column %s: %s, want one of %v", q, name, show(sm.rows[q][c]), can)
			}
		}
		r.check(n == 1, "merge:rows", "row %d has a key no input row has", q)
	}
	for i := range sm.rows {
		for j := i + 1; j < len(sm.rows); j++ {
			r.check(!keyEq(sm, i, sm, j), "merge:rows", "rows %d and %d have the same key", i, j)
		}
	}
	r.check(only && sm.name == st.name || !only, "merge:name", "SortUnique names the result %q, want %q", sm.name, st.name)
	independent(r, g, t, m, "T", "M")
	if u != nil {
		independent(r, g, u, m, "U", "M")
	}
}

func init() {
	drivers["C10"] = &Driver{
		rule: "random pairs of tables with 1 or 2 agreeing key columns (either direction) of every ordered type, up to 4 other columns (shared and own) of 19 types and 0 to 20 rows with few distinct keys; columns, sortedness, rows against the groups of input rows by key, each cell against the documented merge rules; a case is non-trivial when its tables differ from every earlier case",
		rnd:  mergeCase,
	}
}
