package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/urban-wombat/gotables"
)

// Values of every kind the formats can carry.

var rtStrings = append([]string{"\x00", "\x01\x02", "\a\b\f\v", "\r\n", "a\tb", "\\", "\\\\n", "`", "'", "''", "\x7f", "\u0080", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\U0001F600", "\U000E0001",
	"null", "~", "true", "yes", "123", "1.5", "0x10", "1e3", "NaN", "- a", "a: b", "a # b", "#", "[x]", "{x}", "*x", "&x", "!x", "|", ">", "%d", "%", "@", "\n", "\n\n", "a\n", " a", "a ", "<&>", "=", "<<", "2020-01-01", "2020-01-01T00:00:00Z", "[]", "T1", "\"", "\"\"", "key: \"v\"", "é\u0301", "😀\x00"}, stringsPool...)

var rtBadStrings = []string{"\xff", "a\xc3", "\xed\xa0\x80", "\x80abc"}

var rtRunes = []rune{0, 1, 7, 8, 9, 10, 11, 12, 13, 27, ' ', '"', '\'', '\\', '/', '0', 'a', 'Z', 0x7f, 0x80, 0xa0, 0xad, 0xe9, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1F600, 0x10ffff}

func rtString(g *rand.Rand, bad bool) string {
	if bad && g.Intn(8) == 0 {
		return pick(g, rtBadStrings)
	}
	if g.Intn(150) == 0 { // now and then a long one
		n := []int{255, 256, 300, 1024, 5000, 70000}[g.Intn(6)]
		return strings.Repeat(pick(g, []string{"x", "ab ", "é", "\\", "\""}), n)[:n/2*2]
	}
	if g.Intn(8) == 0 {
		if s := dictStr(g); utf8.ValidString(s) {
			return s
		}
	}
	if g.Intn(4) == 0 {
		var sb strings.Builder
		for i := g.Intn(5); i >= 0; i-- {
			if g.Intn(2) == 0 {
				sb.WriteString(pick(g, rtStrings))
			} else {
				sb.WriteRune(rtRunes[g.Intn(len(rtRunes))])
			}
		}
		return sb.String()
	}
	return pick(g, rtStrings)
}

func rtFloat(g *rand.Rand, bits int) (f float64) {
	for {
		switch g.Intn(9) {
		case 8: // whole numbers of up to 16 digits
			f = float64(g.Int63n([]int64{1e5, 1e6, 1e7, 1e12, 1e16}[g.Intn(5)]))
			if g.Intn(3) == 0 {
				f = -f
			}
		case 0:
			f = []float64{0, math.Copysign(0, -1), 1, -1, 10, 100, 1e6, 1e20, 1e21, 1e22, 123456789, 0.1, 1e-5, 1e-7, 3.0000001}[g.Intn(15)]
		case 1:
			f = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 1<<53 + 2, 1 << 62, 1 << 63, 1 << 64}[g.Intn(10)]
		case 2:
			f = math.Float64frombits(g.Uint64())
		case 3:
			f = float64(math.Float32frombits(g.Uint32()))
		case 4:
			f = float64(g.Int63() - g.Int63())
		case 5:
			f = float64(g.Intn(2000)-1000) / float64([]int{1, 2, 10, 100, 1000}[g.Intn(5)])
		default:
			f = g.NormFloat64()
		}
		if bits == 32 {
			f = float64(float32(f))
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return
		}
	}
}

func rtTime(g *rand.Rand) time.Time {
	sec := []int64{0, 1, -1, 951782400, 253402300799 - 86400, -62135596800 + 86400, g.Int63n(4e9)}[g.Intn(7)]
	ns := []int64{0, 0, 1, 999999999, 500000000, 120000000, 10, int64(g.Intn(1e9))}[g.Intn(8)]
	t := time.Unix(sec, ns).UTC()
	switch g.Intn(5) {
	case 0:
		t = t.In(time.FixedZone("", 10*3600))
	case 1:
		t = t.In(time.FixedZone("X", -(3*3600 + 30*60)))
	case 2:
		t = t.In(time.FixedZone("", 60))
	}
	return t
}

// rtKinds says what a format can carry.
type rtKinds struct {
	badUTF8, inf, nan, anyRune, negZero bool
	noStr                               func(string) bool // strings left out
	bareRows                            bool              // rows of a table without columns
	tables                              int               // depth of nested tables
	types                               []string
	shape                               bool
}

func rtVal(g *rand.Rand, ty string, k *rtKinds, depth int) interface{} {
	switch ty {
	case "string":
		for {
			if s := rtString(g, k.badUTF8); k.noStr == nil || !k.noStr(s) {
				return s
			}
		}
	case "rune":
		if g.Intn(2) == 0 {
			return rtRunes[g.Intn(len(rtRunes))]
		}
		r := rune(g.Intn(0x110000))
		if !utf8.ValidRune(r) && !k.anyRune {
			r = 'x'
		}
		return r
	case "float32", "float64":
		f := 0.0
		switch x := g.Intn(20); {
		case x == 0 && k.nan:
			f = math.NaN()
		case x == 1 && k.inf:
			f = math.Inf(1)
		case x == 2 && k.inf:
			f = math.Inf(-1)
		case ty == "float32":
			f = rtFloat(g, 32)
		default:
			f = rtFloat(g, 64)
		}
		if f == 0 && !k.negZero { // YAML reads -0 as the integer 0
			f = 0
		}
		if ty == "float32" {
			return float32(f)
		}
		return f
	case "[]byte", "[]uint8":
		n := g.Intn(5)
		if g.Intn(8) == 0 {
			n = g.Intn(70)
		}
		b := make([]byte, n)
		g.Read(b)
		if g.Intn(3) == 0 {
			for i := range b {
				b[i] = []byte{0, 1, 9, 10, 99, 100, 127, 128, 255}[g.Intn(9)]
			}
		}
		return b
	case "time.Time":
		return rtTime(g)
	case "*Table":
		if depth <= 0 || g.Intn(5) == 0 {
			return gotables.NewNilTable()
		}
		t, _ := rtTable(g, k, depth-1, pick(g, []string{"inner", "T1", "_", "x9"}))
		return t
	}
	return genVal(g, ty, false)
}

// rtTable builds a table of values the format can carry.
func rtTable(g *rand.Rand, k *rtKinds, depth int, name string) (*gotables.Table, *Snap) {
	if name == "_" {
		name = "_n"
	}
	t, err := gotables.NewTable(name)
	must(err)
	nc := g.Intn(6)
	if g.Intn(5) == 0 {
		nc = 1
	}
	if g.Intn(20) == 0 {
		nc = 22
	}
	base := g.Intn(len(rtCols))
	for i := 0; i < nc; i++ {
		n := rtCols[(base+i)%len(rtCols)]
		must(t.AppendCol(n, pick(g, k.types)))
	}
	nr := 0
	if nc > 0 || k.bareRows {
		nr = g.Intn(5)
		if g.Intn(40) == 0 {
			nr = 40
		}
	}
	must(t.AppendRows(nr))
	for r := 0; r < nr; r++ {
		for c := 0; c < nc; c++ {
			if g.Intn(8) == 0 {
				continue
			}
			ty, _ := t.ColTypeByColIndex(c)
			if ty == "*Table" && depth <= 0 {
				continue
			}
			v := rtVal(g, ty, k, depth)
			if u, ok := v.(*gotables.Table); ok {
				must(t.SetTableByColIndex(c, r, u))
				continue
			}
			must(t.SetValByColIndex(c, r, v))
		}
	}
	if k.shape && g.Intn(4) == 0 {
		must(t.SetStructShape(true))
	}
	return t, snap(t)
}

var rtCols = append([]string{"Y", "no_", "yes", "no", "on", "null", "true_", "Null", "NO", "data", "tableName", "metadata", "e2", "_1", "x0", "tables", strings.Repeat("long_", 20)}, namePool...)

// alikeRT: the same content, whatever the identity of nested tables
func alikeRT(a, b interface{}) bool {
	x, ok := a.(*gotables.Table)
	if !ok {
		return same(a, b)
	}
	y, ok := b.(*gotables.Table)
	if !ok || x == nil || y == nil {
		return false
	}
	return snap(x).diffRT(snap(y)) == ""
}

func (s *Snap) diffRT(o *Snap) string {
	if s.name != o.name {
		return fmt.Sprintf("name %q vs %q", s.name, o.name)
	}
	if d := s.diffCells(o, alikeRT); d != "" {
		return d
	}
	if s.shape != o.shape {
		return fmt.Sprintf("struct shape %v vs %v", s.shape, o.shape)
	}
	if s.nilTab != o.nilTab {
		return fmt.Sprintf("NilTable %v vs %v", s.nilTab, o.nilTab)
	}
	return ""
}

func describe(s *Snap) string {
	var d []string
	for i := range s.cols {
		d = append(d, s.cols[i]+" "+s.types[i])
	}
	return fmt.Sprintf("table %s (%s) shape %v rows %s", s.name, strings.Join(d, ", "), s.shape, showRows(s))
}

// rtCase writes and reads one table or set in one format.
func rtCase(r *Rec, g *rand.Rand, sig string, k *rtKinds,
	write func(*gotables.Table) (string, error), read func(string) (*gotables.Table, error),
	writeSet func(*gotables.TableSet) (string, error), readSet func(string) (*gotables.TableSet, error)) {
	if write != nil && g.Intn(2) == 0 {
		t, s := rtTable(g, k, k.tables, pick(g, []string{"T", "Table_1", "_t", "true1", "x"}))
		r.op("%s", describe(s))
		text, err := write(t)
		r.check(err == nil, sig+":write", "writing: %v", err)
		d := s.diff(snap(t), same)
		r.check(d == "", sig+":original", "writing changed the table: %s", d)
		u, err := read(text)
		r.check(err == nil, sig+":read", "reading back: %v from %q", err, text)
		d = s.diffRT(snap(u))
		r.check(d == "", sig+":content", "read back: %s from %q", d, text)
		consistent(r, sig, u)
		return
	}
	s, err := gotables.NewTableSet(pick(g, []string{"", "Set1", "x"}))
	must(err)
	var snaps []*Snap
	n := g.Intn(4)
	if n == 0 && g.Intn(3) > 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		t, sn := rtTable(g, k, k.tables, fmt.Sprintf("T%d", i))
		must(s.AppendTable(t))
		snaps = append(snaps, sn)
		r.op("%s", describe(sn))
	}
	r.op("set %q of %d tables", s.Name(), n)
	text, err := writeSet(s)
	r.check(err == nil, sig+":writeset", "writing a set: %v", err)
	u, err := readSet(text)
	r.check(err == nil, sig+":readset", "reading the set back: %v from %q", err, text)
	r.check(u.Name() == s.Name(), sig+":setname", "set %q read back as %q", s.Name(), u.Name())
	r.check(u.TableCount() == n, sig+":setcount", "%d tables read back as %d from %q", n, u.TableCount(), text)
	for i := 0; i < n; i++ {
		t, err := u.GetTableByTableIndex(i)
		must(err)
		d := snaps[i].diffRT(snap(t))
		r.check(d == "", sig+":setcontent", "table %d: %s from %q", i, d, text)
		consistent(r, sig, t)
		o, _ := s.GetTableByTableIndex(i)
		d = snaps[i].diff(snap(o), same)
		r.check(d == "", sig+":original", "writing changed table %d: %s", i, d)
	}
}

func without(types []string, drop ...string) (out []string) {
next:
	for _, t := range types {
		for _, d := range drop {
			if t == d {
				continue next
			}
		}
		out = append(out, t)
	}
	return
}

var jsonKinds = &rtKinds{bareRows: true, negZero: true, tables: 5, types: allTypes, shape: true}
var yamlKinds = &rtKinds{bareRows: true, badUTF8: true, inf: true, nan: true, anyRune: true, tables: 5, types: allTypes, shape: true, noStr: yamlBlock}
var textKinds = &rtKinds{negZero: true, badUTF8: true, nan: true, types: without(allTypes, "*Table")}

// yamlBlock: yaml.v3 writes these strings as block literals which it does not read back (known finding)
func yamlBlock(s string) bool {
	r, _ := utf8.DecodeRuneInString(s)
	return strings.Contains(s, "\n") && unicode.IsSpace(r)
}

func init() {
	drivers["C22"] = &Driver{
		rule: "random tables of all 20 column types (valid UTF-8 strings, finite floats, tables nested up to 5 deep) and sets of up to 3 of them, written as JSON, indented or not, and read back",
		rnd: func(r *Rec, g *rand.Rand) {
			w, ws := (*gotables.Table).GetTableAsJSON, (*gotables.TableSet).GetTableSetAsJSON
			if g.Intn(2) == 0 {
				w, ws = (*gotables.Table).GetTableAsJSONIndent, (*gotables.TableSet).GetTableSetAsJSONIndent
			}
			rtCase(r, g, "json", jsonKinds, w, gotables.NewTableFromJSON, ws, gotables.NewTableSetFromJSON)
		},
	}
	drivers["C23"] = &Driver{
		fixed: func(r *Rec, i int) bool {
			if i > 0 {
				return false
			}
			t, err := gotables.NewTable("T")
			must(err)
			must(t.AppendCol("s", "string"))
			must(t.AppendRow())
			must(t.SetStringByColIndex(0, 0, "\t\n"))
			s, err := gotables.NewTableSet("")
			must(err)
			must(s.AppendTable(t))
			r.op("a cell %q written as YAML", "\t\n")
			text, err := s.GetTableSetAsYAML()
			must(err)
			u, err := gotables.NewTableSetFromYAML(text)
			r.check(err == nil, "yaml:blockliteral", "reading back: %v", err)
			v, err := u.GetTableByTableIndex(0)
			must(err)
			x, err := v.GetStringByColIndex(0, 0)
			must(err)
			r.check(x == "\t\n", "yaml:blockliteral", "%q read back as %q", "\t\n", x)
			return true
		},
		rule: "random sets of up to 3 tables of all 20 column types (any bytes in strings, NaN and infinities, tables nested up to 5 deep) written as YAML and read back",
		rnd: func(r *Rec, g *rand.Rand) {
			rtCase(r, g, "yaml", yamlKinds, nil, nil, (*gotables.TableSet).GetTableSetAsYAML, gotables.NewTableSetFromYAML)
		},
	}
	drivers["C21"] = &Driver{
		rule: "random tables of the 19 column types the text format supports (any bytes in strings, NaN but no infinities) and sets of up to 3 of them, padded or not, printed and parsed",
		rnd: func(r *Rec, g *rand.Rand) {
			w, ws := func(t *gotables.Table) (string, error) { return t.StringPadded(), nil }, func(s *gotables.TableSet) (string, error) { return s.StringPadded(), nil }
			switch g.Intn(3) {
			case 0:
				w, ws = func(t *gotables.Table) (string, error) { return t.StringUnpadded(), nil }, func(s *gotables.TableSet) (string, error) { return s.StringUnpadded(), nil }
			case 1:
				w, ws = func(t *gotables.Table) (string, error) { return t.String(), nil }, func(s *gotables.TableSet) (string, error) { return s.String(), nil }
			}
			rtCase(r, g, "text", textKinds, w, gotables.NewTableFromString, ws, gotables.NewTableSetFromString)
		},
	}
}
