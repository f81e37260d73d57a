package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/urban-wombat/gotables"
)

var allTypes = []string{"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8",
	"rune", "string", "uint", "uint16", "uint32", "uint64", "uint8", "*Table", "time.Time"}

var sortableTypes = []string{"bool", "float32", "float64", "int", "int16", "int32", "int64", "int8",
	"string", "uint", "uint16", "uint32", "uint64", "uint8"}

var helperName = map[string]string{"[]byte": "ByteSlice", "[]uint8": "Uint8Slice", "bool": "Bool", "byte": "Byte",
	"float32": "Float32", "float64": "Float64", "int": "Int", "int16": "Int16", "int32": "Int32", "int64": "Int64",
	"int8": "Int8", "rune": "Rune", "string": "String", "uint": "Uint", "uint16": "Uint16", "uint32": "Uint32",
	"uint64": "Uint64", "uint8": "Uint8", "*Table": "Table", "time.Time": "Time"}

func canon(t string) string {
	switch t {
	case "[]byte", "[]uint8":
		return "[]uint8"
	case "byte", "uint8":
		return "uint8"
	case "rune", "int32":
		return "int32"
	}
	return t
}

func goType(t string) reflect.Type {
	switch canon(t) {
	case "[]uint8":
		return reflect.TypeOf([]byte{})
	case "bool":
		return reflect.TypeOf(false)
	case "uint8":
		return reflect.TypeOf(uint8(0))
	case "float32":
		return reflect.TypeOf(float32(0))
	case "float64":
		return reflect.TypeOf(float64(0))
	case "int":
		return reflect.TypeOf(int(0))
	case "int16":
		return reflect.TypeOf(int16(0))
	case "int32":
		return reflect.TypeOf(int32(0))
	case "int64":
		return reflect.TypeOf(int64(0))
	case "int8":
		return reflect.TypeOf(int8(0))
	case "string":
		return reflect.TypeOf("")
	case "uint":
		return reflect.TypeOf(uint(0))
	case "uint16":
		return reflect.TypeOf(uint16(0))
	case "uint32":
		return reflect.TypeOf(uint32(0))
	case "uint64":
		return reflect.TypeOf(uint64(0))
	case "*Table":
		return reflect.TypeOf((*gotables.Table)(nil))
	case "time.Time":
		return reflect.TypeOf(time.Time{})
	}
	return nil
}

func pick(g *rand.Rand, s []string) string { return s[g.Intn(len(s))] }

var stringsPool = []string{"", "a", "b", "A", "B", "aa", "aB", "Ab", "ab", "AB", "z", " ", "é", "\"q\"", "x y", "0", "日本", "zz", "ß", "a\\n", "\t", "İ", "K"}

// genVal makes a value for a column of the given type; small picks from few values (collisions).
func genVal(g *rand.Rand, t string, small bool) interface{} {
	iv := func(bits uint) int64 {
		if small {
			return int64(g.Intn(4)) - 1
		}
		switch g.Intn(6) {
		case 5:
			return dictInt(g) << (64 - bits) >> (64 - bits)
		case 0:
			return -1 << (bits - 1)
		case 1:
			return 1<<(bits-1) - 1
		case 2:
			return int64(g.Uint64()) >> (64 - bits)
		}
		return int64(g.Intn(7)) - 3
	}
	uv := func(bits uint) uint64 {
		if small {
			return uint64(g.Intn(4))
		}
		switch g.Intn(5) {
		case 4:
			return uint64(dictInt(g)) << (64 - bits) >> (64 - bits)
		case 0:
			return 1<<bits - 1
		case 1:
			return g.Uint64() >> (64 - bits)
		case 2:
			return 1 << (bits - 1)
		}
		return uint64(g.Intn(5))
	}
	fv := func() float64 {
		if small {
			return []float64{0, 1, -1, 0.5, math.NaN(), math.Inf(1)}[g.Intn(6)]
		}
		switch g.Intn(10) {
		case 9:
			return dictFloat(g)
		case 0:
			return math.NaN()
		case 1:
			return math.Inf(1)
		case 2:
			return math.Inf(-1)
		case 3:
			return math.Copysign(0, -1)
		case 4:
			return math.MaxFloat64
		case 5:
			return g.NormFloat64()
		case 6:
			return float64(int64(1)<<53 + int64(g.Intn(3)))
		}
		return float64(g.Intn(5)) - 2
	}
	switch canon(t) {
	case "[]uint8":
		n := g.Intn(4)
		if g.Intn(6) == 0 {
			n = g.Intn(40)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(uv(8))
		}
		return b
	case "bool":
		return g.Intn(2) == 0
	case "uint8":
		return uint8(uv(8))
	case "float32":
		f := fv()
		if f == math.MaxFloat64 {
			return float32(math.MaxFloat32)
		}
		return float32(f)
	case "float64":
		return fv()
	case "int":
		return int(iv(64))
	case "int16":
		return int16(iv(16))
	case "int32":
		return int32(iv(32))
	case "int64":
		return iv(64)
	case "int8":
		return int8(iv(8))
	case "string":
		if small {
			return stringsPool[g.Intn(8)]
		}
		if g.Intn(60) == 0 {
			return strings.Repeat(pick(g, stringsPool[1:]), 1+g.Intn(300))
		}
		if g.Intn(5) == 0 {
			return dictStr(g)
		}
		return pick(g, stringsPool)
	case "uint":
		return uint(uv(64))
	case "uint16":
		return uint16(uv(16))
	case "uint32":
		return uint32(uv(32))
	case "uint64":
		return uv(64)
	case "*Table":
		return genLeafTable(g)
	case "time.Time":
		if !small && g.Intn(2) == 0 {
			// any date of the years 1 to 9999, any fraction of a second (down to one nanosecond)
			ns := [...]int64{0, 1, 600, 999, 1000, 123456, 1000000, 120000000, 999999999, g.Int63n(1000000000)}[g.Intn(10)]
			return time.Unix(-62135596800+g.Int63n(315537897600), ns).UTC()
		}
		return time.Unix(int64(g.Intn(5))*86400*365, int64(g.Intn(3))*500000000).UTC()
	}
	panic("type " + t)
}

func genLeafTable(g *rand.Rand) *gotables.Table {
	if g.Intn(4) == 0 {
		return gotables.NewNilTable()
	}
	t, err := gotables.NewTable(pick(g, []string{"inner", "leaf", "T1"}))
	if err != nil {
		panic(err)
	}
	n := g.Intn(3)
	for i := 0; i < n; i++ {
		must(t.AppendCol(fmt.Sprintf("n%d", i), pick(g, []string{"int", "string", "float64", "bool"})))
	}
	if n > 0 {
		r := g.Intn(3)
		must(t.AppendRows(r))
		for c := 0; c < n; c++ {
			for q := 0; q < r; q++ {
				ty, _ := t.ColTypeByColIndex(c)
				must(t.SetValByColIndex(c, q, genVal(g, ty, true)))
			}
		}
	}
	return t
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// same is exact identity of cell values: NaN equals NaN, -0 differs from 0, tables by pointer,
// byte slices by content.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	case float32:
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || x != x && y != y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case *gotables.Table:
		y, ok := b.(*gotables.Table)
		return ok && x == y
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && a == b
}

// alike is same, except that nested tables are compared by content.
func alike(a, b interface{}) bool {
	x, ok := a.(*gotables.Table)
	if !ok {
		return same(a, b)
	}
	y, ok := b.(*gotables.Table)
	if !ok || (x == nil) != (y == nil) {
		return false
	}
	if x == y {
		return true
	}
	return snap(x).diff(snap(y), alike) == ""
}

func zeroFor(t string) interface{} {
	if t == "*Table" {
		return (*gotables.Table)(nil) // compared as "an empty NilTable"
	}
	if canon(t) == "[]uint8" {
		return []byte{}
	}
	return reflect.Zero(goType(t)).Interface()
}

func isZero(t string, v interface{}) bool {
	if t == "*Table" {
		x, ok := v.(*gotables.Table)
		if !ok || x == nil {
			return false
		}
		nt, _ := x.IsNilTable()
		return nt && x.ColCount() == 0 && x.RowCount() == 0
	}
	if reflect.TypeOf(v) != goType(t) {
		return false
	}
	if tm, ok := v.(time.Time); ok {
		return tm.IsZero() || tm.Equal(minTime())
	}
	return same(v, zeroFor(t))
}

// minTime is the zero value gotables gives a time.Time cell, observed once from a fresh row.
var minTimeV *time.Time

func minTime() time.Time {
	if minTimeV == nil {
		t, err := gotables.NewTable("z")
		must(err)
		must(t.AppendCol("t", "time.Time"))
		must(t.AppendRow())
		v, err := t.GetTime("t", 0)
		must(err)
		minTimeV = &v
	}
	return *minTimeV
}

type sk struct {
	name, typ string
	rev       bool
}

// Snap is everything observable about a table.
type Snap struct {
	name   string
	cols   []string
	types  []string
	rows   [][]interface{}
	keys   []sk
	shape  bool
	nilTab bool
}

func snap(t *gotables.Table) *Snap {
	s := &Snap{name: t.Name()}
	s.shape, _ = t.IsStructShape()
	s.nilTab, _ = t.IsNilTable()
	for c := 0; c < t.ColCount(); c++ {
		n, err := t.ColName(c)
		if err != nil {
			n = "ERR " + err.Error()
		}
		ty, err := t.ColTypeByColIndex(c)
		if err != nil {
			ty = "ERR " + err.Error()
		}
		s.cols = append(s.cols, n)
		s.types = append(s.types, ty)
	}
	for r := 0; r < t.RowCount(); r++ {
		row := make([]interface{}, len(s.cols))
		for c := range s.cols {
			if s.nilTab {
				continue
			}
			v, err := t.GetValByColIndex(c, r)
			if err != nil {
				v = "ERR " + err.Error()
			}
			if b, ok := v.([]byte); ok { // keep the content of now
				v = append([]byte{}, b...)
			}
			row[c] = v
		}
		s.rows = append(s.rows, row)
	}
	if kt, err := t.GetSortKeysAsTable(); err == nil {
		for i := 0; i < kt.RowCount(); i++ {
			n, _ := kt.GetString("colName", i)
			ty, _ := kt.GetString("colType", i)
			rv, _ := kt.GetBool("reverse", i)
			s.keys = append(s.keys, sk{n, ty, rv})
		}
	}
	return s
}

func (s *Snap) clone() *Snap {
	n := *s
	n.cols = append([]string{}, s.cols...)
	n.types = append([]string{}, s.types...)
	n.keys = append([]sk{}, s.keys...)
	n.rows = nil
	for _, r := range s.rows {
		n.rows = append(n.rows, append([]interface{}{}, r...))
	}
	return &n
}

func (s *Snap) col(n string) int {
	for i, c := range s.cols {
		if c == n {
			return i
		}
	}
	return -1
}

// diff describes the first difference ("" when none).
func (s *Snap) diff(o *Snap, eq func(a, b interface{}) bool) string {
	if s.name != o.name {
		return fmt.Sprintf("name %q vs %q", s.name, o.name)
	}
	if d := s.diffCells(o, eq); d != "" {
		return d
	}
	if s.shape != o.shape {
		return fmt.Sprintf("struct shape %v vs %v", s.shape, o.shape)
	}
	if s.nilTab != o.nilTab {
		return fmt.Sprintf("NilTable %v vs %v", s.nilTab, o.nilTab)
	}
	if len(s.keys) != len(o.keys) {
		return fmt.Sprintf("sort keys %v vs %v", s.keys, o.keys)
	}
	for i := range s.keys {
		if s.keys[i] != o.keys[i] {
			return fmt.Sprintf("sort keys %v vs %v", s.keys, o.keys)
		}
	}
	return ""
}

func (s *Snap) diffCells(o *Snap, eq func(a, b interface{}) bool) string {
	if strings.Join(s.cols, ",") != strings.Join(o.cols, ",") {
		return fmt.Sprintf("col names %v vs %v", s.cols, o.cols)
	}
	if strings.Join(s.types, ",") != strings.Join(o.types, ",") {
		return fmt.Sprintf("col types %v vs %v", s.types, o.types)
	}
	if len(s.rows) != len(o.rows) {
		return fmt.Sprintf("%d rows vs %d", len(s.rows), len(o.rows))
	}
	for r := range s.rows {
		for c := range s.cols {
			a, b := s.rows[r][c], o.rows[r][c]
			if z, ok := a.(zeroMark); ok {
				if !isZero(z.t, b) {
					return fmt.Sprintf("cell (%d,%d %s): want the zero value, have %s", r, c, s.cols[c], show(b))
				}
				continue
			}
			if !eq(a, b) {
				return fmt.Sprintf("cell (%d,%d %s): %s vs %s", r, c, s.cols[c], show(a), show(b))
			}
		}
	}
	return ""
}

// zeroMark stands for "the zero value of this column type" in a model.
type zeroMark struct{ t string }

func show(v interface{}) string {
	switch x := v.(type) {
	case *gotables.Table:
		if x == nil {
			return "<nil table>"
		}
		return fmt.Sprintf("table %q %p (%d cols, %d rows)", x.Name(), x, x.ColCount(), x.RowCount())
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("[]byte%v", []byte(x))
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

var namePool = []string{"a", "b", "c", "d", "e1", "_x", "Z9", "A", "B", "int_", "k10", "Long_Column_Name_01", "x", "y", "z", "aa", "col_index", "T"}
var badNames = []string{"", "1a", "a b", "é", "a-b", "a.b", "_", "[x]", "a\n", "aé", "9", "int", "string", "uint8", "time.Time", "*Table"}

// genTable builds a table through the API, together with its model.
func genTable(g *rand.Rand, rec *Rec, types []string, maxCols, maxRows int, small bool) (*gotables.Table, *Snap) {
	t, err := gotables.NewTable("T")
	must(err)
	big := 0
	switch g.Intn(40) { // now and then a larger table
	case 0, 1:
		maxRows = maxRows*2 + 10
	case 2:
		maxRows, maxCols = 6, maxCols*2+8
	case 3:
		maxRows, maxCols = 70, 3
	case 4:
		big = 1
		maxCols = 3
	case 5:
		big = 2
		maxRows = 3
	}
	nc := g.Intn(maxCols + 1)
	if big == 2 {
		nc = dictSize(g, 80)
	}
	base := 0
	if g.Intn(4) == 0 {
		base = g.Intn(len(namePool))
	}
	var desc []string
	for i := 0; i < nc; i++ {
		ty := pick(g, types)
		n := namePool[(base+i)%len(namePool)]
		if i >= len(namePool) {
			n = fmt.Sprintf("%s_%d", n, i)
		}
		must(t.AppendCol(n, ty))
		desc = append(desc, n+" "+ty)
	}
	nr := g.Intn(maxRows + 1)
	if big == 1 {
		nr = dictSize(g, 300)
	}
	must(t.AppendRows(nr))
	for r := 0; r < nr; r++ {
		for c := 0; c < nc; c++ {
			ty, _ := t.ColTypeByColIndex(c)
			if g.Intn(6) == 0 {
				continue // leave the zero value
			}
			must(t.SetValByColIndex(c, r, genVal(g, ty, small)))
		}
	}
	if g.Intn(3) == 0 {
		for i := g.Intn(4); i > 0 && nc > 0; i-- {
			c := g.Intn(nc)
			if n, _ := t.ColName(c); t.AppendSortKey(n) == nil {
				desc = append(desc, "key "+n)
				if g.Intn(3) == 0 {
					must(t.SetSortKeysReverse(n))
					desc = append(desc, "reversed")
				}
			}
		}
	}
	if g.Intn(6) == 0 {
		must(t.SetStructShape(true))
		desc = append(desc, "struct shape")
	}
	s := snap(t)
	rec.op("table T (%s) rows %s", strings.Join(desc, ", "), showRows(s))
	return t, s
}

func showRows(s *Snap) string {
	var sb strings.Builder
	for _, r := range s.rows {
		sb.WriteByte('[')
		for i, v := range r {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(show(v))
		}
		sb.WriteByte(']')
	}
	return sb.String()
}
