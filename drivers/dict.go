package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The dictionary: literals of the source under test, used to choose table sizes, positions
// and cell values near them (as a fuzzer does). It steers the search only; what is judged is
// the behaviour. Literals that are not in baseconsts.txt, those of the original tree, are
// tried more often.
var dict struct {
	ints, newInts []int64
	sizes         []int
	strs, newStrs []string
	floats        []float64
}

//go:embed baseconsts.txt
var baseConsts string

func sourceLiterals(dir string) (keys []string) {
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	seen := map[string]bool{}
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, fn, nil, 0)
		if f == nil || err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok {
				k := ""
				switch l.Kind {
				case token.INT:
					k = "i" + l.Value
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
						k = fmt.Sprintf("i%d", r)
					}
				case token.FLOAT:
					k = "f" + l.Value
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) <= 16 {
						k = "s" + strconv.Quote(s)
					}
				}
				if k != "" && !seen[k] {
					seen[k] = true
					keys = append(keys, k)
				}
			}
			return true
		})
	}
	sort.Strings(keys)
	return
}

func loadDict(dir string) {
	base := map[string]bool{}
	for _, l := range strings.Split(baseConsts, "\n") {
		base[l] = true
	}
	sizes := map[int]bool{}
	for _, k := range sourceLiterals(dir) {
		switch k[0] {
		case 'i':
			v, err := strconv.ParseInt(k[1:], 0, 64)
			if err != nil {
				u, err := strconv.ParseUint(k[1:], 0, 64)
				if err != nil {
					continue
				}
				v = int64(u)
			}
			dict.ints = append(dict.ints, v)
			if !base[k] {
				dict.newInts = append(dict.newInts, v)
				if v > 4 && v <= 300 {
					sizes[int(v)] = true
				}
			}
		case 'f':
			if v, err := strconv.ParseFloat(k[1:], 64); err == nil {
				dict.floats = append(dict.floats, v)
			}
		case 's':
			s, _ := strconv.Unquote(k[1:])
			dict.strs = append(dict.strs, s)
			if !base[k] {
				dict.newStrs = append(dict.newStrs, s)
			}
		}
	}
	for n := range sizes {
		dict.sizes = append(dict.sizes, n)
	}
	sort.Ints(dict.sizes)
}

// dictInt gives an integer near a literal of the source.
func dictInt(g *rand.Rand) int64 {
	p := dict.ints
	if len(dict.newInts) > 0 && g.Intn(2) == 0 {
		p = dict.newInts
	}
	if len(p) == 0 {
		return 0
	}
	v := p[g.Intn(len(p))]
	switch g.Intn(5) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v = -v
	}
	return v
}

func dictStr(g *rand.Rand) string {
	p := dict.strs
	if len(dict.newStrs) > 0 && g.Intn(2) == 0 {
		p = dict.newStrs
	}
	if len(p) == 0 {
		return ""
	}
	return p[g.Intn(len(p))]
}

func dictFloat(g *rand.Rand) float64 {
	if len(dict.floats) == 0 || g.Intn(2) == 0 {
		return float64(dictInt(g))
	}
	return dict.floats[g.Intn(len(dict.floats))]
}

var commonSizes = []int{5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 26, 31, 32, 33, 40, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257}

// dictSize gives a size up to max at or just around a literal of the source or a common limit.
func dictSize(g *rand.Rand, max int) int {
	n := commonSizes[g.Intn(len(commonSizes))]
	if len(dict.sizes) > 0 && g.Intn(3) > 0 {
		n = dict.sizes[g.Intn(len(dict.sizes))] + g.Intn(4) - 1
	}
	if n > max {
		n = 5 + g.Intn(max-4)
	}
	return n
}

func writeLiterals(dir string) {
	for _, k := range sourceLiterals(dir) {
		fmt.Fprintln(os.Stdout, k)
	}
}

var _ = math.Pi
