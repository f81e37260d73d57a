package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/urban-wombat/gotables"
)

// C17: every exported method of *Table and *TableSet, called with good and bad arguments and on nil receivers.

var tableT = reflect.TypeOf((*gotables.Table)(nil))
var setT = reflect.TypeOf((*gotables.TableSet)(nil))

// methods under test: all but the Must variants (they panic by contract) and the ones writing files.
func methodsOf(t reflect.Type) (out []reflect.Method) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if strings.Contains(m.Name, "Must") || strings.HasSuffix(m.Name, "WriteFile") {
			continue
		}
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return
}

var errT = reflect.TypeOf((*error)(nil)).Elem()
var anyT = reflect.TypeOf((*interface{})(nil)).Elem()
var modeT = reflect.TypeOf(os.FileMode(0))

type npCtx struct {
	t, u *gotables.Table
	s    *gotables.TableSet
}

func badInt(g *rand.Rand, n int) int {
	switch g.Intn(8) {
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n + 1
	case 3:
		return []int{math.MaxInt32, math.MinInt32, -2, -n, 1 << 20}[g.Intn(5)]
	}
	if n > 0 {
		return g.Intn(n)
	}
	return 0
}

// arg makes one argument of type p.
func (x *npCtx) arg(g *rand.Rand, m string, p reflect.Type) reflect.Value {
	switch p {
	case tableT:
		switch g.Intn(6) {
		case 0:
			return reflect.Zero(p)
		case 1:
			return reflect.ValueOf(gotables.NewNilTable())
		case 2:
			return reflect.ValueOf(x.t)
		case 3:
			return reflect.ValueOf(genLeafTable(g))
		}
		return reflect.ValueOf(x.u)
	case setT:
		if g.Intn(4) == 0 {
			return reflect.Zero(p)
		}
		return reflect.ValueOf(x.s)
	case anyT:
		v := reflect.New(anyT).Elem()
		if g.Intn(8) == 0 {
			return v
		}
		if g.Intn(12) == 0 {
			v.Set(reflect.ValueOf([]interface{}{[]string{"a"}, struct{}{}, map[string]int{}, func() {}, (*gotables.Table)(nil), 3i}[g.Intn(6)]))
			return v
		}
		v.Set(reflect.ValueOf(genVal(g, pick(g, allTypes), g.Intn(2) == 0)))
		return v
	}
	switch p.Kind() {
	case reflect.String:
		n := x.t.ColCount()
		switch {
		case g.Intn(3) > 0 && n > 0:
			c, _ := x.t.ColName(g.Intn(n))
			return reflect.ValueOf(c).Convert(p)
		case g.Intn(3) == 0:
			return reflect.ValueOf(pick(g, allTypes)).Convert(p)
		case g.Intn(2) == 0:
			return reflect.ValueOf(pick(g, badNames)).Convert(p)
		}
		return reflect.ValueOf(pick(g, namePool)).Convert(p)
	case reflect.Int:
		n := x.t.RowCount()
		if g.Intn(2) == 0 {
			n = x.t.ColCount()
		}
		if g.Intn(4) == 0 {
			n = x.s.TableCount()
		}
		k := badInt(g, n)
		if m == "AppendRows" && k > 1000 { // a request for that many rows is granted
			k = 3
		}
		if strings.HasPrefix(m, "NewTreeTable") {
			k = g.Intn(6) - 2
		}
		return reflect.ValueOf(k)
	case reflect.Bool:
		return reflect.ValueOf(g.Intn(2) == 0)
	case reflect.Func:
		if g.Intn(3) == 0 {
			return reflect.Zero(p)
		}
		fail := g.Intn(6) == 0
		return reflect.MakeFunc(p, func([]reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < p.NumOut(); i++ {
				v := reflect.New(p.Out(i)).Elem()
				if fail && p.Out(i) == errT {
					v.Set(reflect.ValueOf(fmt.Errorf("visitor error")))
				}
				out = append(out, v)
			}
			return out
		})
	case reflect.Map:
		if g.Intn(4) == 0 {
			return reflect.Zero(p)
		}
		return reflect.MakeMap(p)
	case reflect.Slice:
		if p.Elem().Kind() == reflect.Uint8 {
			if g.Intn(4) == 0 {
				return reflect.Zero(p)
			}
			return reflect.ValueOf([]byte{1, 2, 3}[:g.Intn(4)])
		}
		n := g.Intn(4)
		v := reflect.MakeSlice(p, 0, n)
		for i := 0; i < n; i++ {
			v = reflect.Append(v, x.arg(g, m, p.Elem()))
		}
		return v
	}
	switch p {
	case modeT:
		return reflect.ValueOf(os.FileMode(0600))
	}
	for _, ty := range allTypes {
		if goType(ty) == p {
			return reflect.ValueOf(genVal(g, ty, g.Intn(2) == 0))
		}
	}
	if p.Kind() == reflect.Int { // named ints
		return reflect.Zero(p)
	}
	return reflect.Zero(p)
}

func (x *npCtx) call(r *Rec, g *rand.Rand, recv reflect.Value, m reflect.Method, isNil bool) {
	var in []reflect.Value
	in = append(in, recv)
	mt := m.Type
	np := mt.NumIn()
	for i := 1; i < np; i++ {
		p := mt.In(i)
		if mt.IsVariadic() && i == np-1 {
			n := g.Intn(4)
			if (m.Name == "ReorderCols" || strings.Contains(m.Name, "Reorder") || strings.HasPrefix(m.Name, "GetTableAsCSV")) && g.Intn(2) == 0 {
				n = x.t.ColCount()
			}
			if strings.Contains(m.Name, "Search") {
				n = x.t.SortKeyCount()
				if g.Intn(4) == 0 {
					n = g.Intn(4)
				}
			}
			for k := 0; k < n; k++ {
				in = append(in, x.arg(g, m.Name, p.Elem()))
			}
			break
		}
		in = append(in, x.arg(g, m.Name, p))
	}
	var args []interface{}
	for _, v := range in[1:] {
		if v.Kind() == reflect.Func || v.Kind() == reflect.Map {
			args = append(args, v.Type().String())
		} else if v.CanInterface() {
			args = append(args, v.Interface())
		}
	}
	name := "T"
	if recv.Type() == setT {
		name = "S"
	}
	if isNil {
		name = "nil " + recv.Type().String()
	}
	r.op("%s.%s(%s)", name, m.Name, showArgs(args))
	var out []reflect.Value
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.fail("panic:"+m.Name, "%s.%s(%s) panicked: %v", name, m.Name, showArgs(args), p)
			}
		}()
		out = m.Func.Call(in)
	}()
	r.n++
	if isNil {
		if n := len(out); n > 0 && out[n-1].Type() == errT {
			r.check(!out[n-1].IsNil(), "nilreceiver:"+m.Name, "%s.%s(%s) on a nil receiver returned no error", name, m.Name, showArgs(args))
		}
	}
}

// some cells hold tables with rows of their own
func npTable(r *Rec, g *rand.Rand) *gotables.Table {
	if g.Intn(25) == 0 {
		r.op("table NilTable")
		return gotables.NewNilTable()
	}
	t, _ := genTable(g, r, allTypes, 4, 4, g.Intn(2) == 0)
	shake(r, g, t)
	for c := 0; c < t.ColCount(); c++ {
		if ty, _ := t.ColTypeByColIndex(c); sortableType(ty) && g.Intn(2) == 0 {
			n, _ := t.ColName(c)
			must(t.AppendSortKey(n))
			r.op("AppendSortKey(%s)", n)
		}
	}
	if t.SortKeyCount() > 0 && g.Intn(2) == 0 {
		must(t.Sort())
		r.op("Sort()")
	}
	if g.Intn(6) == 0 {
		must(t.SetStructShape(true))
		r.op("SetStructShape(true)")
	}
	return t
}

func noPanicCase(r *Rec, g *rand.Rand) {
	x := &npCtx{}
	x.t = npTable(r, g)
	x.u = npTable(r, g)
	s, err := gotables.NewTableSet("S")
	must(err)
	for i := g.Intn(3); i > 0; i-- {
		l := npTable(r, g)
		if nt, _ := l.IsNilTable(); nt {
			continue
		}
		must(l.SetName(fmt.Sprintf("L%d", i)))
		must(s.AppendTable(l))
	}
	x.s = s
	r.op("set S of %d tables", s.TableCount())
	n := 1 + g.Intn(5)
	for i := 0; i < n; i++ {
		if g.Intn(6) == 0 {
			ms := methodsOf(setT)
			m := ms[g.Intn(len(ms))]
			if g.Intn(8) == 0 {
				x.call(r, g, reflect.Zero(setT), m, true)
			} else {
				x.call(r, g, reflect.ValueOf(x.s), m, false)
			}
			continue
		}
		ms := methodsOf(tableT)
		m := ms[g.Intn(len(ms))]
		switch g.Intn(10) {
		case 0:
			x.call(r, g, reflect.Zero(tableT), m, true)
		case 1:
			x.call(r, g, reflect.ValueOf(x.u), m, false)
		default:
			x.call(r, g, reflect.ValueOf(x.t), m, false)
		}
	}
}

func init() {
	nt, ns := methodsOf(tableT), methodsOf(setT)
	drivers["C17"] = &Driver{
		rule: fmt.Sprintf("every one of the %d non-Must methods of *Table and %d of *TableSet on nil receivers, then random sequences of up to 5 calls with valid, invalid, out-of-range, nil and wrongly typed arguments on random tables of all 20 column types; a panic, a hang or a missing error for a nil receiver fails", len(nt), len(ns)),
		fixed: func(r *Rec, i int) bool {
			g := rand.New(rand.NewSource(int64(i)))
			x := &npCtx{}
			x.t, _ = genTable(g, r, allTypes, 4, 4, true)
			x.u = x.t
			x.s, _ = gotables.NewTableSet("S")
			switch {
			case i < len(nt):
				x.call(r, g, reflect.Zero(tableT), nt[i], true)
			case i < len(nt)+len(ns):
				x.call(r, g, reflect.Zero(setT), ns[i-len(nt)], true)
			default:
				return false
			}
			return true
		},
		rnd: noPanicCase,
	}
}
