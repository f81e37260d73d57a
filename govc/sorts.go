package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
)

var basicNames = map[types.BasicKind]string{
	types.Bool: "bool", types.Int: "int", types.Int8: "int8", types.Int16: "int16", types.Int32: "int32", types.Int64: "int64",
	types.Uint: "uint", types.Uint8: "uint8", types.Uint16: "uint16", types.Uint32: "uint32", types.Uint64: "uint64", types.Uintptr: "uintptr",
	types.Float32: "float32", types.Float64: "float64", types.String: "string", types.UnsafePointer: "unsafeptr",
	types.UntypedBool: "bool", types.UntypedInt: "int", types.UntypedRune: "int32", types.UntypedFloat: "float64", types.UntypedString: "string", types.UntypedNil: "nil",
	types.Complex64: "complex64", types.Complex128: "complex128",
}

// typeKey is a canonical name for a type (byte==uint8, rune==int32, any==interface{}).
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		return basicNames[u.Kind()]
	case *types.Named:
		o := u.Obj()
		if o.Pkg() == nil {
			return o.Name() // error
		}
		if o.Pkg().Name() == "gotables" {
			return o.Name()
		}
		return o.Pkg().Name() + "." + o.Name()
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.Map:
		return "map{" + typeKey(u.Key()) + "}" + typeKey(u.Elem())
	case *types.Interface:
		if u.Empty() {
			return "any"
		}
		return "iface"
	case *types.Signature:
		return "func" + fmt.Sprint(u.Params().Len()) + "_" + fmt.Sprint(u.Results().Len())
	case *types.Struct:
		return "struct" + sanitize(u.String())
	case *types.Tuple:
		return "tuple"
	case *types.Chan:
		return "chan"
	}
	return sanitize(t.String())
}

func isTime(t types.Type) bool { return typeKey(t) == "time.Time" }

// structOf returns the underlying struct if t is a (non-opaque) struct type.
func structOf(t types.Type) (*types.Struct, bool) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Name() != "gotables" {
			return nil, false // opaque external struct
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

type structInfo struct {
	name   string // sort name
	ctor   string
	fields []string // accessor names
	sorts  []string
	types  []types.Type
	fnames []string
}

var structTab = map[string]*structInfo{}
var structOrder []string
var opaqueSorts = map[string]bool{}

func structSort(t types.Type) *structInfo {
	k := typeKey(t)
	if si, ok := structTab[k]; ok {
		return si
	}
	s, _ := structOf(t)
	si := &structInfo{name: "S_" + sanitize(k), ctor: "mk_" + sanitize(k)}
	structTab[k] = si
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		si.fnames = append(si.fnames, f.Name())
		si.types = append(si.types, f.Type())
		si.fields = append(si.fields, sanitize(k)+"."+f.Name())
		si.sorts = append(si.sorts, sortOf(f.Type()))
	}
	registerCtor(si.ctor, si.fields, si.sorts)
	structOrder = append(structOrder, k)
	return si
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.Float32:
			return "F32"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Kind() == types.UntypedNil:
			return "Any"
		}
		return opaque("O_" + basicNames[u.Kind()])
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Any"
	case *types.Array:
		return arrSort(sortOf(u.Elem()))
	case *types.Struct:
		if isTime(t) {
			return "Time"
		}
		if _, ok := structOf(t); ok {
			return structSort(t).name
		}
		return opaque("O_" + sanitize(typeKey(t)))
	case *types.Tuple:
		return "Tuple"
	}
	return opaque("O_" + sanitize(typeKey(t)))
}
func opaque(n string) string { opaqueSorts[n] = true; return n }

// ---- interface boxes ----

type boxInfo struct {
	ctor, acc, srt string
	typ            types.Type
	tag            int
}

var boxTab = map[string]*boxInfo{}
var boxOrder []string

func boxOf(t types.Type) *boxInfo {
	k := typeKey(t)
	if b, ok := boxTab[k]; ok {
		return b
	}
	b := &boxInfo{ctor: "box_" + sanitize(k), acc: "unbox_" + sanitize(k), srt: sortOf(t), typ: t, tag: len(boxOrder) + 1}
	boxTab[k] = b
	boxOrder = append(boxOrder, k)
	registerCtor(b.ctor, []string{b.acc}, []string{b.srt})
	return b
}
func Box(t types.Type, v *Term) *Term { b := boxOf(t); return mk(b.ctor, "", "Any", v) }
func Unbox(t types.Type, v *Term) *Term {
	b := boxOf(t)
	return App(b.acc, b.srt, v)
}
func IsBox(t types.Type, v *Term) *Term { return IsC(boxOf(t).ctor, v) }

var AnyNil = mk("any_nil", "", "Any")

func init() {
	registerCtor("any_nil", nil, nil)
	registerCtor("mk_slice", []string{"sl_arr", "sl_off", "sl_len", "sl_cap"}, []string{"Int", "Int", "Int", "Int"})
	declFun("idx", "Int", "Int", "Int")
	o, i := BVar("o?", "Int"), BVar("i?", "Int")
	ix := mk("idx", "", "Int", o, i)
	funAxioms["idx"] = append(funAxioms["idx"], Quant("forall", []*Term{o, i}, mk("=", "", "Bool", ix, mk("+", "", "Int", o, i)), [][]*Term{{ix}}))
}

func MkSlice(arr, off, ln, cp *Term) *Term { return mk("mk_slice", "", "Slice", arr, off, ln, cp) }
func SlArr(s *Term) *Term                  { return App("sl_arr", "Int", s) }
func SlOff(s *Term) *Term                  { return App("sl_off", "Int", s) }
func SlLen(s *Term) *Term                  { return App("sl_len", "Int", s) }
func SlCap(s *Term) *Term                  { return App("sl_cap", "Int", s) }

var NilSlice = MkSlice(Int(0), Int(0), Int(0), Int(0))

func preludeText() string {
	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Time 0)\n")
	sb.WriteString(floatPrelude)
	var os []string
	for o := range opaqueSorts {
		os = append(os, o)
	}
	sort.Strings(os)
	for _, o := range os {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", o)
	}
	sb.WriteString("(declare-datatypes ((Slice 0) (Any 0)")
	for _, k := range structOrder {
		fmt.Fprintf(&sb, " (%s 0)", structTab[k].name)
	}
	sb.WriteString(") (((|mk_slice| (|sl_arr| Int) (|sl_off| Int) (|sl_len| Int) (|sl_cap| Int)))\n  ((|any_nil|) (|box_other| (|other_id| Int))")
	for _, k := range boxOrder {
		b := boxTab[k]
		fmt.Fprintf(&sb, " (%s (%s %s))", b.ctor, b.acc, b.srt)
	}
	sb.WriteString(")\n")
	for _, k := range structOrder {
		si := structTab[k]
		fmt.Fprintf(&sb, "  ((%s", si.ctor)
		for i := range si.fields {
			fmt.Fprintf(&sb, " (%s %s)", si.fields[i], si.sorts[i])
		}
		sb.WriteString("))\n")
	}
	sb.WriteString("))\n")
	return sb.String()
}

// ---- zero values ----

// Floating point is abstract: a value is a NaN or has a rank, its position in the
// order of the reals (both zeros have rank 0), which decides ==, < and <=.
// Arithmetic on floats is uninterpreted.
const floatPrelude = "(declare-sort F64 0)\n(declare-sort F32 0)\n" +
	"(declare-fun rank_F64 (F64) Real)\n(declare-fun nan_F64 (F64) Bool)\n(declare-fun rank_F32 (F32) Real)\n(declare-fun nan_F32 (F32) Bool)\n" +
	"(define-fun lt_F64 ((a F64) (b F64)) Bool (and (not (nan_F64 a)) (not (nan_F64 b)) (< (rank_F64 a) (rank_F64 b))))\n" +
	"(define-fun leq_F64 ((a F64) (b F64)) Bool (and (not (nan_F64 a)) (not (nan_F64 b)) (<= (rank_F64 a) (rank_F64 b))))\n" +
	"(define-fun eq_F64 ((a F64) (b F64)) Bool (and (not (nan_F64 a)) (not (nan_F64 b)) (= (rank_F64 a) (rank_F64 b))))\n" +
	"(define-fun lt_F32 ((a F32) (b F32)) Bool (and (not (nan_F32 a)) (not (nan_F32 b)) (< (rank_F32 a) (rank_F32 b))))\n" +
	"(define-fun leq_F32 ((a F32) (b F32)) Bool (and (not (nan_F32 a)) (not (nan_F32 b)) (<= (rank_F32 a) (rank_F32 b))))\n" +
	"(define-fun eq_F32 ((a F32) (b F32)) Bool (and (not (nan_F32 a)) (not (nan_F32 b)) (= (rank_F32 a) (rank_F32 b))))\n"

func init() {
	for _, s := range []string{"F64", "F32"} {
		for _, r := range []string{"lt_", "leq_", "eq_", "nan_", "rank_"} {
			smtBuiltins[r+s] = true
		}
	}
	declFun("cv_32to64", "F64", "F32")
	declFun("cv_64to32", "F32", "F64")
	a := BVar("f?", "F32")
	w := mk("cv_32to64", "", "F64", a)
	funAxioms["cv_32to64"] = []*Term{Quant("forall", []*Term{a}, And(Eq(fpNaN(w), fpNaN(a)), Eq(mk("rank_F64", "", "Real", w), mk("rank_F32", "", "Real", a))), [][]*Term{{w}})}
	b := BVar("g?", "F64")
	n := mk("cv_64to32", "", "F32", b)
	funAxioms["cv_64to32"] = []*Term{Quant("forall", []*Term{b}, Eq(fpNaN(n), fpNaN(b)), [][]*Term{{n}})}
}

func fpRel(op string, a, b *Term) *Term { return mk(op+"_"+a.Sort, "", "Bool", a, b) }
func fpNaN(a *Term) *Term               { return mk("nan_"+a.Sort, "", "Bool", a) }
func fpWiden(a *Term) *Term             { return mk("cv_32to64", "", "F64", a) }
func fpNarrow(a *Term) *Term            { return mk("cv_64to32", "", "F32", a) }

func fpLit(v float64, bits int) *Term {
	srt := fmt.Sprintf("F%d", bits)
	var nm string
	if bits == 32 {
		nm = fmt.Sprintf("f32lit_%08x", math.Float32bits(float32(v)))
	} else {
		nm = fmt.Sprintf("f64lit_%016x", math.Float64bits(v))
	}
	t := Sym(nm, srt)
	if _, ok := symAxioms[nm]; !ok && !math.IsInf(v, 0) && !math.IsNaN(v) {
		q := new(big.Rat).SetFloat64(v)
		txt := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(q.Num()), q.Denom())
		if q.Sign() < 0 {
			txt = "(- " + txt + ")"
		}
		symAxioms[nm] = []*Term{Not(fpNaN(t)), Eq(mk("rank_"+srt, "", "Real", t), mk("#real", txt, "Real"))}
	}
	return t
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return NilSlice
	case *types.Interface:
		return AnyNil
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		if isTime(t) {
			return Sym("time_zero", "Time")
		}
		if _, ok := structOf(t); ok {
			si := structSort(t)
			var as []*Term
			for _, ft := range si.types {
				as = append(as, zeroOf(ft))
			}
			return mk(si.ctor, "", si.name, as...)
		}
		return Sym("zero_"+sanitize(typeKey(t)), sortOf(t))
	}
	switch sortOf(t) {
	case "Int":
		return Int(0)
	case "Bool":
		return False
	case "Str":
		return StrLit("")
	case "F32":
		return fpLit(0, 32)
	case "F64":
		return fpLit(0, 64)
	}
	return Sym("zero_"+sanitize(typeKey(t)), sortOf(t))
}

// ---- integer ranges ----

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := 64
	signed := true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func inRange(t types.Type, v *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return True
	}
	if n, isN := isInt(v); isN {
		return BoolT(n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0)
	}
	return And(Le(fromBig(lo), v), Le(v, fromBig(hi)))
}

// wrapTo reduces a mathematical integer to the machine range of t.
func wrapTo(t types.Type, v *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	mod := new(big.Int).Sub(hi, lo)
	mod.Add(mod, big.NewInt(1))
	if n, isN := isInt(v); isN {
		x := new(big.Int).Sub(n, lo)
		x.Mod(x, mod)
		x.Add(x, lo)
		return fromBig(x)
	}
	r := Add(mk("mod", "", "Int", Sub(v, fromBig(lo)), fromBig(mod)), fromBig(lo))
	return Ite(inRange(t, v), v, r)
}

const maxLen = int64(1) << 60

// typeFacts are the facts true of every value of Go type t (allocated before alloc).
func typeFacts(t types.Type, v, alloc *Term) *Term {
	t = types.Unalias(t)
	if isErrorType(t) {
		return True // what an error holds is never looked at through its references
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return inRange(t, v)
	case *types.Pointer, *types.Map, *types.Chan:
		return And(Le(Int(0), v), Lt(v, alloc))
	case *types.Slice:
		if v.Op == "mk_slice" && v == NilSlice {
			return True
		}
		a, o, l, c := SlArr(v), SlOff(v), SlLen(v), SlCap(v)
		return And(Le(Int(0), a), Lt(a, alloc), Le(Int(0), o), Le(Int(0), l), Le(l, c), Le(Add(o, c), Int(maxLen)),
			Implies(Eq(a, Int(0)), And(Eq(c, Int(0)), Eq(o, Int(0)))))
	case *types.Struct:
		if _, ok := structOf(t); ok {
			si := structSort(t)
			var cs []*Term
			for i, ft := range si.types {
				cs = append(cs, typeFacts(ft, App(si.fields[i], si.sorts[i], v), alloc))
			}
			return And(cs...)
		}
		_ = u
	case *types.Interface:
		// a boxed reference is allocated
		var cs []*Term
		for _, k := range boxOrder {
			b := boxTab[k]
			switch b.typ.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				is := IsBox(b.typ, v)
				if is == False {
					continue
				}
				cs = append(cs, Implies(is, typeFacts(b.typ, Unbox(b.typ, v), alloc)))
			}
		}
		return And(cs...)
	}
	return True
}

// needsFacts tells whether heap well-formedness of type t is worth a quantified assumption.
func refLike(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}
