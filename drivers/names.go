package main

import (
	"fmt"
	"math/rand"

	"github.com/urban-wombat/gotables"
)

// checkName compares every public way of giving a name with the rule for names.
func checkName(r *Rec, n string, full bool) {
	r.op("name %q", n)
	want := validName(n)
	ok, err := gotables.IsValidColName(n)
	r.check(ok == want && (err == nil) == want, "IsValidColName", "IsValidColName(%q) = %v, %v", n, ok, err)
	ok, err = gotables.IsValidTableName(n)
	r.check(ok == want && (err == nil) == want, "IsValidTableName", "IsValidTableName(%q) = %v, %v", n, ok, err)
	wt := goType(n) != nil
	ok, err = gotables.IsValidColType(n)
	r.check(ok == wt && (err == nil) == wt, "IsValidColType", "IsValidColType(%q) = %v, %v", n, ok, err)
	if !full {
		return
	}
	t, err := gotables.NewTable(n)
	r.check((err == nil) == want && (t != nil) == want, "NewTable", "NewTable(%q): %v", n, err)
	if t != nil {
		r.check(t.Name() == n, "NewTable:name", "NewTable(%q).Name() = %q", n, t.Name())
	}
	t, err = gotables.NewTable("T")
	must(err)
	err = t.SetName(n)
	r.check((err == nil) == want && (t.Name() == n) == (want || n == "T"), "SetName", "SetName(%q): %v, name %q", n, err, t.Name())
	must(t.SetName("T"))
	err = t.RenameTable(n)
	r.check((err == nil) == want && (t.Name() == n) == (want || n == "T"), "RenameTable", "RenameTable(%q): %v, name %q", n, err, t.Name())
	must(t.SetName("T"))
	err = t.AppendCol(n, "int")
	r.check((err == nil) == want && (t.ColCount() == 1) == want, "AppendCol", "AppendCol(%q): %v, %d cols", n, err, t.ColCount())
	t, _ = gotables.NewTable("T")
	err = t.AppendCol("c", n)
	r.check((err == nil) == wt && (t.ColCount() == 1) == wt, "AppendCol:type", "AppendCol(c, %q): %v, %d cols", n, err, t.ColCount())
	t, _ = gotables.NewTable("T")
	must(t.AppendCol("c", "int"))
	err = t.RenameCol("c", n)
	wr := want && n != "c"
	r.check((err == nil) == wr, "RenameCol", "RenameCol(c, %q): %v", n, err)
	ts, err := gotables.NewTableFromMetadata("T", []string{n}, []string{"int"})
	r.check((err == nil) == want && (ts != nil) == want, "NewTableFromMetadata", "NewTableFromMetadata(%q): %v", n, err)
	ts, err = gotables.NewTableFromMetadata("T", []string{"c"}, []string{n})
	r.check((err == nil) == wt && (ts != nil) == wt, "NewTableFromMetadata:type", "NewTableFromMetadata(type %q): %v", n, err)
}

func init() {
	var fixed []string
	for i := 0; i < 256; i++ {
		fixed = append(fixed, string([]byte{byte(i)}), string([]byte{'a', byte(i)}), string([]byte{byte(i), 'a'}), string([]byte{'a', byte(i), 'b'}), string(rune(i+128)), "a"+string(rune(i*37+128)))
	}
	for _, t := range append(append([]string{}, allTypes...), "int128", "complex64", "complex128", "error", "Table", "*table", "uintptr", "any", "string ", "") {
		fixed = append(fixed, t, t+"_", "_"+t, t+"1", t+" ", " "+t, "*"+t, "[]"+t)
		for i := range t {
			b := []byte(t)
			b[i] ^= 0x20
			fixed = append(fixed, string(b), t[:i], t[i:], t[:i]+t[i+1:])
		}
	}
	chars := []byte("aZz09_ -[]*\x00\xc3\xa9@`{/:^")
	drivers["C15"] = &Driver{
		rule: "a case is one string given as table name, column name or column type to every public operation that takes one; every one-byte and many two- and three-byte strings, every type name with one edit, then random strings; non-trivial: each distinct string",
		fixed: func(r *Rec, i int) bool {
			if i < len(fixed) {
				checkName(r, fixed[i], true)
				return true
			}
			i -= len(fixed)
			if i >= 65536 {
				return false
			}
			checkName(r, string([]byte{byte(i >> 8), byte(i)}), i%16 == 0)
			return true
		},
		rnd: func(r *Rec, g *rand.Rand) {
			n := g.Intn(12)
			b := make([]byte, n)
			for i := range b {
				switch g.Intn(10) {
				case 0:
					b[i] = byte(g.Intn(256))
				case 1, 2:
					b[i] = chars[g.Intn(len(chars))]
				case 3:
					b[i] = '_'
				case 4:
					b[i] = byte('0' + g.Intn(10))
				default:
					b[i] = byte('a' + g.Intn(26) - 32*g.Intn(2))
				}
			}
			s := string(b)
			if g.Intn(4) == 0 {
				s = pick(g, allTypes) + s
			}
			if g.Intn(20) == 0 {
				s = fmt.Sprintf("%s%040d", s, g.Intn(1000))
			}
			checkName(r, s, true)
		},
	}
}
