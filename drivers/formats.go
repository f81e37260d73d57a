package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/urban-wombat/gotables"
)

// keyedAny gives a random table some sort keys and a shape.
func keyedAny(r *Rec, g *rand.Rand, types []string) *gotables.Table {
	t, _ := genTable(g, r, types, 5, 5, false)
	shake(r, g, t)
	for c := 0; c < t.ColCount(); c++ {
		if ty, _ := t.ColTypeByColIndex(c); sortableType(ty) && g.Intn(3) == 0 {
			n, _ := t.ColName(c)
			must(t.AppendSortKey(n))
			r.op("AppendSortKey(%s)", n)
			if g.Intn(3) == 0 {
				must(t.SetSortKeysReverse(n))
				r.op("SetSortKeysReverse(%s)", n)
			}
		}
	}
	if g.Intn(4) == 0 {
		must(t.SetStructShape(true))
		r.op("SetStructShape(true)")
	}
	return t
}

func gobTypes() (out []string) {
	for _, t := range allTypes {
		if t != "*Table" && t != "time.Time" {
			out = append(out, t)
		}
	}
	return
}

// sortsLike: the decoded table's keys still sort it
func sortsLike(r *Rec, t *gotables.Table) {
	if t.SortKeyCount() == 0 {
		return
	}
	before := snap(t)
	err := t.Sort()
	r.check(err == nil, "gob:sort", "sorting the decoded table: %v", err)
	now := snap(t)
	d := permuted(before, now)
	r.check(d == "", "gob:sort", "sorting the decoded table: %s", d)
	checkTotSorted(r, now)
}

func gobCase(r *Rec, g *rand.Rand) {
	if g.Intn(3) > 0 {
		t := keyedAny(r, g, gobTypes())
		st := snap(t)
		r.op("GobEncode, GobDecodeTable")
		b, err := t.GobEncode()
		r.check(err == nil, "gob:encode", "GobEncode: %v", err)
		d := st.diff(snap(t), same)
		r.check(d == "", "gob:original", "GobEncode changed the table: %s", d)
		cp := append([]byte{}, b...)
		var u *gotables.Table
		if g.Intn(2) == 0 {
			u, err = gotables.GobDecodeTable(b)
		} else {
			u, err = gotables.NewTableFromGob(b)
		}
		r.check(err == nil, "gob:decode", "GobDecodeTable: %v", err)
		r.check(bytes.Equal(cp, b), "gob:buffer", "decoding changed the buffer")
		d = st.diff(snap(u), same)
		r.check(d == "", "gob:content", "decoded table differs: %s", d)
		consistent(r, "gob", u)
		if nan := false; !nan {
			for _, row := range st.rows {
				for _, v := range row {
					nan = nan || isNaNVal(v)
				}
			}
			eq, err := t.Equals(u)
			r.check(eq || nan, "gob:equals", "the decoded table is not Equal: %v", err)
		}
		independent(r, g, t, u, "T", "U")
		sortsLike(r, u)
		return
	}
	s, err := gotables.NewTableSet(pick(g, []string{"", "Set1", "x"}))
	must(err)
	if g.Intn(2) == 0 {
		s.SetFileName(pick(g, []string{"f.got", "a b"}))
	}
	var snaps []*Snap
	n := g.Intn(4)
	for i := 0; i < n; i++ {
		t := keyedAny(r, g, gobTypes())
		must(t.SetName(fmt.Sprintf("T%d", i)))
		must(s.AppendTable(t))
		snaps = append(snaps, snap(t))
	}
	r.op("set %q file %q of %d tables: GobEncode, GobDecodeTableSet", s.Name(), s.FileName(), n)
	b, err := s.GobEncode()
	r.check(err == nil, "gob:encodeset", "GobEncode of a set: %v", err)
	var u *gotables.TableSet
	if g.Intn(2) == 0 {
		u, err = gotables.GobDecodeTableSet(b)
	} else {
		u, err = gotables.NewTableSetFromGob(b)
	}
	r.check(err == nil, "gob:decodeset", "GobDecodeTableSet: %v", err)
	r.check(u.Name() == s.Name() && u.FileName() == s.FileName(), "gob:setname", "set %q %q decoded as %q %q", s.Name(), s.FileName(), u.Name(), u.FileName())
	r.check(u.TableCount() == n, "gob:setcount", "%d tables decoded as %d", n, u.TableCount())
	for i := 0; i < n; i++ {
		t, err := u.GetTableByTableIndex(i)
		must(err)
		d := snaps[i].diff(snap(t), same)
		r.check(d == "", "gob:setcontent", "table %d: %s", i, d)
		consistent(r, "gob", t)
		o, _ := s.GetTableByTableIndex(i)
		d = snaps[i].diff(snap(o), same)
		r.check(d == "", "gob:original", "encoding changed table %d: %s", i, d)
		sortsLike(r, t)
	}
}

// cellText is the documented text of a cell.
func cellText(ty string, v interface{}) string {
	if ty == "rune" {
		return string(v.(rune))
	}
	switch x := v.(type) {
	case string:
		return x
	case float32:
		return strconv.FormatFloat(float64(x), 'f', -1, 32)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case []byte:
		var p []string
		for _, b := range x {
			p = append(p, strconv.Itoa(int(b)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *gotables.Table:
		return "[" + x.Name() + "]"
	case time.Time:
		if x.Nanosecond() > 0 {
			return x.Format(time.RFC3339Nano)
		}
		return x.Format(time.RFC3339)
	}
	return fmt.Sprint(v)
}

var csvStrings = []string{"", "a", ",", "a,b", "\"", "\"\"", "a\"b", "a\nb", "\n", " x", "x ", "#c", ";", "\t", "é,", "'", "\\", "\\.", "NaN", "a\rb", "0", "  ", "日本,語"}

func csvCase(r *Rec, g *rand.Rand) {
	t, s := genTable(g, r, allTypes, 5, 5, false)
	for c := range s.cols {
		if s.types[c] != "string" {
			continue
		}
		for q := range s.rows {
			v := pick(g, csvStrings)
			must(t.SetStringByColIndex(c, q, v))
			r.op("cell(%d,%d) = %q", c, q, v)
		}
	}
	s = snap(t)
	var heads []string
	want := append([]string{}, s.cols...)
	if g.Intn(3) == 0 {
		n := len(s.cols)
		if g.Intn(4) == 0 {
			n = g.Intn(7)
		}
		for i := 0; i < n; i++ {
			heads = append(heads, pick(g, csvStrings))
		}
		if n > 0 {
			r.op("GetTableAsCSV(%q)", heads)
			if n != len(s.cols) {
				_, err := t.GetTableAsCSV(heads...)
				r.check(err != nil, "csv:headings", "%d headings for %d columns gave no error", n, len(s.cols))
				return
			}
			for i := range heads {
				if heads[i] != "" {
					want[i] = heads[i]
				}
			}
		}
	}
	r.op("GetTableAsCSV(%q)", heads)
	text, err := t.GetTableAsCSV(heads...)
	r.check(err == nil, "csv:error", "GetTableAsCSV: %v", err)
	d := s.diff(snap(t), same)
	r.check(d == "", "csv:original", "GetTableAsCSV changed the table: %s", d)
	if len(s.cols) == 0 {
		return
	}
	recs := [][]string{want}
	for q := range s.rows {
		var f []string
		for c := range s.cols {
			x := cellText(s.types[c], s.rows[q][c])
			if isFloatType(s.types[c]) && x == "NaN" {
				x = ""
			}
			f = append(f, x)
		}
		recs = append(recs, f)
	}
	got, err := readCSV(text)
	r.check(err == nil, "csv:read", "the CSV text does not read back: %v in %q", err, text)
	if len(s.cols) > 1 { // encoding/csv skips empty lines
		std, err := csv.NewReader(strings.NewReader(text)).ReadAll()
		r.check(err == nil, "csv:read", "encoding/csv does not read the text: %v in %q", err, text)
		r.check(fmt.Sprintf("%q", std) == fmt.Sprintf("%q", got), "csv:read", "encoding/csv reads %q, RFC 4180 gives %q", std, got)
	}
	r.check(len(got) == len(recs), "csv:records", "%d records, want %d: %q", len(got), len(recs), text)
	for i := range recs {
		r.check(strings.Join(got[i], "\x00") == strings.Join(recs[i], "\x00"), "csv:fields", "record %d is %q, want %q", i, got[i], recs[i])
	}
}

// readCSV reads RFC 4180 text whose records end in a newline.
func readCSV(s string) (recs [][]string, err error) {
	i := 0
	for i < len(s) {
		var rec []string
		for {
			var f strings.Builder
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, fmt.Errorf("quote not closed")
					}
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							f.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					f.WriteByte(s[i])
					i++
				}
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' {
					if s[i] == '"' {
						return nil, fmt.Errorf("bare quote")
					}
					f.WriteByte(s[i])
					i++
				}
			}
			rec = append(rec, f.String())
			if i >= len(s) {
				return nil, fmt.Errorf("no newline after the last record")
			}
			if s[i] == ',' {
				i++
				continue
			}
			if s[i] == '\n' {
				i++
				break
			}
			return nil, fmt.Errorf("text after a quoted field")
		}
		recs = append(recs, rec)
	}
	return
}

func init() {
	drivers["C18"] = &Driver{
		rule: "random tables of the 18 column types the binary format supports, up to 5 columns and 5 rows (now and then 70), with sort keys and shapes, and sets of up to 3 of them; every observable part compared after decoding, and the decoded table sorted by its keys",
		rnd:  gobCase,
	}
	drivers["C24"] = &Driver{
		rule: "random tables of all 20 column types with strings of separators, quotes, newlines and blanks, with and without substitute headings; the text read back by encoding/csv record by record",
		rnd:  csvCase,
	}
}
