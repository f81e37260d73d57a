package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/urban-wombat/gotables"
)

// Integer literals: the oracle is arithmetic on big integers.

type intKind struct {
	name   string
	lo, hi *big.Int
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

var intKinds = func() []intKind {
	var ks []intKind
	for _, k := range []struct {
		n string
		b uint
		s bool
	}{{"int", 64, true}, {"int8", 8, true}, {"int16", 16, true}, {"int32", 32, true}, {"int64", 64, true},
		{"uint", 64, false}, {"uint8", 8, false}, {"byte", 8, false}, {"uint16", 16, false}, {"uint32", 32, false}, {"uint64", 64, false}} {
		one := big.NewInt(1)
		if k.s {
			ks = append(ks, intKind{k.n, new(big.Int).Neg(pow2(k.b - 1)), new(big.Int).Sub(pow2(k.b-1), one)})
		} else {
			ks = append(ks, intKind{k.n, big.NewInt(0), new(big.Int).Sub(pow2(k.b), one)})
		}
	}
	return ks
}()

func (k intKind) fits(v *big.Int) bool { return v.Cmp(k.lo) >= 0 && v.Cmp(k.hi) <= 0 }

// cellInt reads a cell as a number, by its dynamic type.
func cellInt(v interface{}) (*big.Int, bool) {
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(x.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(x.Uint()), true
	}
	return nil, false
}

// checkLits parses a table whose columns are ks and whose rows hold vs, in tabular or struct shape.
func checkLits(r *Rec, ks []intKind, vs [][]*big.Int, structShape bool) {
	var b strings.Builder
	b.WriteString("[T]\n")
	ok := true
	if structShape {
		for i, k := range ks {
			fmt.Fprintf(&b, "c%d %s = %s\n", i, k.name, vs[0][i])
		}
	} else {
		for i := range ks {
			fmt.Fprintf(&b, "c%d ", i)
		}
		b.WriteString("\n")
		for _, k := range ks {
			b.WriteString(k.name + " ")
		}
		b.WriteString("\n")
		for _, row := range vs {
			for _, v := range row {
				b.WriteString(v.String() + " ")
			}
			b.WriteString("\n")
		}
	}
	for _, row := range vs {
		for i, v := range row {
			ok = ok && ks[i].fits(v)
		}
	}
	r.op("parse %q", b.String())
	var t *gotables.Table
	var err error
	r.safe("NewTableFromString", func() { t, err = gotables.NewTableFromString(b.String()) })
	if !ok {
		r.check(err != nil, "accepted", "an integer out of range of its column type was accepted: %q", b.String())
		return
	}
	r.check(err == nil, "rejected", "integers in range were rejected: %q: %v", b.String(), err)
	r.check(t.RowCount() == len(vs), "rows", "%q: %d rows", b.String(), t.RowCount())
	for j, row := range vs {
		for i, v := range row {
			c, err := t.GetVal(fmt.Sprintf("c%d", i), j)
			must(err)
			n, isInt := cellInt(c)
			want := goType(ks[i].name)
			r.check(isInt && n.Cmp(v) == 0 && reflect.TypeOf(c) == want, "value", "%q: cell c%d of row %d is %v (%T)", b.String(), i, j, c, c)
		}
	}
}

func randInt(rg *rand.Rand, k intKind) *big.Int {
	one := big.NewInt(int64(rg.Intn(5) - 2))
	switch rg.Intn(6) {
	case 0:
		return new(big.Int).Add(k.lo, one)
	case 1:
		return new(big.Int).Add(k.hi, one)
	case 2: // near a power of two
		v := new(big.Int).Add(pow2(uint(rg.Intn(70))), one)
		if rg.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	case 3:
		return big.NewInt(int64(rg.Intn(21) - 10))
	case 4: // digits at random
		n := 1 + rg.Intn(24)
		s := fmt.Sprint(1 + rg.Intn(9))
		for len(s) < n {
			s += fmt.Sprint(rg.Intn(10))
		}
		v, _ := new(big.Int).SetString(s, 10)
		if rg.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	}
	// in range
	span := new(big.Int).Sub(k.hi, k.lo)
	return new(big.Int).Add(k.lo, new(big.Int).Rand(rg, span.Add(span, big.NewInt(1))))
}

func inRange(rg *rand.Rand, k intKind) *big.Int {
	for {
		if v := randInt(rg, k); k.fits(v) {
			return v
		}
	}
}

func init() {
	drivers["C14"] = &Driver{
		rule: "parses a table text with integer literals",
		fixed: func(r *Rec, i int) bool {
			k := intKinds[i%len(intKinds)]
			i /= len(intKinds)
			// every boundary of every type, one above and one below, alone, in each position of three columns and in struct shape
			pts := []*big.Int{}
			for _, q := range intKinds {
				for d := int64(-1); d <= 1; d++ {
					pts = append(pts, new(big.Int).Add(q.lo, big.NewInt(d)), new(big.Int).Add(q.hi, big.NewInt(d)))
				}
			}
			if i >= 3*len(pts) {
				return false
			}
			v := pts[i%len(pts)]
			switch i / len(pts) {
			case 0:
				checkLits(r, []intKind{k}, [][]*big.Int{{v}}, false)
			case 1:
				checkLits(r, []intKind{k}, [][]*big.Int{{v}}, true)
			case 2:
				f := intKinds[3]
				one := big.NewInt(1)
				checkLits(r, []intKind{f, k, f}, [][]*big.Int{{one, one, one}, {one, v, one}}, false)
			}
			return true
		},
		rnd: func(r *Rec, rg *rand.Rand) {
			n := 1 + rg.Intn(5)
			rows := 1 + rg.Intn(4)
			st := rg.Intn(4) == 0
			if st {
				rows = 1
			}
			var ks []intKind
			for i := 0; i < n; i++ {
				ks = append(ks, intKinds[rg.Intn(len(intKinds))])
			}
			var vs [][]*big.Int
			bad := -1
			if rg.Intn(2) == 0 {
				bad = rg.Intn(n * rows)
			}
			for j := 0; j < rows; j++ {
				var row []*big.Int
				for i, k := range ks {
					if j*n+i == bad {
						row = append(row, randInt(rg, k))
					} else {
						row = append(row, inRange(rg, k))
					}
				}
				vs = append(vs, row)
			}
			checkLits(r, ks, vs, st)
		},
	}
}
