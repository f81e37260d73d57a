// The order of cell values and of rows.
uf lower(s string) string
extern strings.ToLower(s) (r)
  pure
  ensures r == lower(s)

pred cmpi(x, y int) = x < y ? -1 : (x > y ? 1 : 0)
pred cmpb(x, y bool) = !x && y ? -1 : (x && !y ? 1 : 0)
pred cmpraw(x, y string) = x < y ? -1 : (y < x ? 1 : 0)
pred cmps(x, y string) = lower(x) < lower(y) ? -1 : (lower(y) < lower(x) ? 1 : cmpraw(x, y))
pred cmpf64(x, y float64) = x < y ? -1 : (y < x ? 1 : (feq(x, y) ? 0 : (isNaN(x) ? (isNaN(y) ? 0 : -1) : 1)))
pred cmpf32(x, y float32) = x < y ? -1 : (y < x ? 1 : (feq(x, y) ? 0 : (isNaN(x) ? (isNaN(y) ? 0 : -1) : 1)))

// cmpc orders two cells of a column of type ct: -1, 0 or 1
uf cmpc(ct string, a interface{}, b interface{}) int
uf cmpdef(ct string) bool
axiom on cmpdef: forall ct string :: {cmpdef(ct)} cmpdef(ct)
axiom on cmpdef: forall ct string, a, b interface{} :: {cmpdef(ct), cmpc(ct, a, b)} cmpc(ct, a, b) ==
    (ct == "bool" ? cmpb(as(a, bool), as(b, bool))
  : (ct == "float32" ? cmpf32(as(a, float32), as(b, float32))
  : (ct == "float64" ? cmpf64(as(a, float64), as(b, float64))
  : (ct == "int" ? cmpi(as(a, int), as(b, int))
  : (ct == "int8" ? cmpi(as(a, int8), as(b, int8))
  : (ct == "int16" ? cmpi(as(a, int16), as(b, int16))
  : (ct == "int32" ? cmpi(as(a, int32), as(b, int32))
  : (ct == "int64" ? cmpi(as(a, int64), as(b, int64))
  : (ct == "uint" ? cmpi(as(a, uint), as(b, uint))
  : (ct == "uint8" ? cmpi(as(a, uint8), as(b, uint8))
  : (ct == "uint16" ? cmpi(as(a, uint16), as(b, uint16))
  : (ct == "uint32" ? cmpi(as(a, uint32), as(b, uint32))
  : (ct == "uint64" ? cmpi(as(a, uint64), as(b, uint64))
  : (ct == "string" ? cmps(as(a, string), as(b, string)) : 0))))))))))))))

lemma cmpc_range on cmpc: forall ct string, a, b interface{} :: {cmpc(ct, a, b)} -1 <= cmpc(ct, a, b) <= 1
  use cmpdef(ct)
lemma cmpc_refl on cmpc: forall ct string, a interface{} :: {cmpc(ct, a, a)} cmpc(ct, a, a) == 0
  use cmpdef(ct)
lemma cmpc_anti on cmpc: forall ct string, a, b interface{} :: {cmpc(ct, a, b)} cmpc(ct, a, b) == 0 - cmpc(ct, b, a)
  use cmpdef(ct)
lemma cmpc_trans on cmpc: forall ct string, a, b, c interface{} :: {cmpc(ct, a, b), cmpc(ct, b, c)}
    (cmpc(ct, a, b) <= 0 && cmpc(ct, b, c) <= 0 ==> cmpc(ct, a, c) <= 0)
 && (cmpc(ct, a, b) < 0 && cmpc(ct, b, c) <= 0 ==> cmpc(ct, a, c) < 0)
 && (cmpc(ct, a, b) <= 0 && cmpc(ct, b, c) < 0 ==> cmpc(ct, a, c) < 0)
  use cmpdef(ct)

// the comparison functions of the package
foreach $N,$T in bool:bool float32:float32 float64:float64 int:int int8:int8 int16:int16 int32:int32 int64:int64 uint:uint uint8:uint8 uint16:uint16 uint32:uint32 uint64:uint64 Alphabetic_string:string {
func compare_$N(i, j) (c)
  pure
  asvalue
  requires is(i, $T) && is(j, $T)
  ensures [order] cmpdef("$T") && c == cmpc("$T", i, j)
}

ginv compareFuncs on load: compareFuncs != nil
ginv compareFuncs on load: forall s string :: {has(compareFuncs, s)} has(compareFuncs, s) <==> sortable(s)
ginv compareFuncs on fapp_Any_Any_to_Int fpre_Any_Any_to_Int: forall s string, a, b interface{} :: {fapp(compareFuncs[s], a, b)} {fpre(compareFuncs[s], a, b)} sortable(s) && cellok(s, a) && cellok(s, b) ==> compareFuncs[s] != 0 && fpre(compareFuncs[s], a, b) && fapp(compareFuncs[s], a, b) == cmpc(s, a, b)

// rcmp compares two rows (given as arrays of cells and the offset of their first cell) by the first n keys;
// d says whether the direction of the keys counts
pred dirc(rev bool, c int) = rev ? 0 - c : c
uf rcmp(d bool, kc [0]sortKey, ko int, n int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int) int
axiom on rcmp: forall d bool, kc [0]sortKey, ko int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int :: {rcmp(d, kc, ko, 0, mv, ra, ao, rb, bo)} rcmp(d, kc, ko, 0, mv, ra, ao, rb, bo) == 0
axiom on rcmp: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int :: {rcmp(d, kc, ko, n, mv, ra, ao, rb, bo), kc[idx(ko, n)]} n >= 0 ==>
  rcmp(d, kc, ko, n + 1, mv, ra, ao, rb, bo) == (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) != 0 ? rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)
    : dirc(d && kc[idx(ko, n)].reverse, cmpc(kc[idx(ko, n)].colType, ra[idx(ao, mv[kc[idx(ko, n)].colName])], rb[idx(bo, mv[kc[idx(ko, n)].colName])])))

lemma rcmp_range on rcmp induct n: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int :: {rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)} -1 <= rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) <= 1
  use kc[idx(ko, n)]
  use rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)
lemma rcmp_refl on rcmp induct n: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int :: {rcmp(d, kc, ko, n, mv, ra, ao, ra, ao)} rcmp(d, kc, ko, n, mv, ra, ao, ra, ao) == 0
  use kc[idx(ko, n)]
  use rcmp(d, kc, ko, n, mv, ra, ao, ra, ao)
lemma rcmp_anti on rcmp induct n: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int :: {rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)} rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) == 0 - rcmp(d, kc, ko, n, mv, rb, bo, ra, ao)
  use kc[idx(ko, n)]
  use rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)
  use rcmp(d, kc, ko, n, mv, rb, bo, ra, ao)
lemma rcmp_trans on rcmp induct n: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int, rc [0]interface{}, co int :: {rcmp(d, kc, ko, n, mv, ra, ao, rb, bo), rcmp(d, kc, ko, n, mv, rb, bo, rc, co)}
    (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) <= 0 && rcmp(d, kc, ko, n, mv, rb, bo, rc, co) <= 0 ==> rcmp(d, kc, ko, n, mv, ra, ao, rc, co) <= 0)
 && (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) < 0 && rcmp(d, kc, ko, n, mv, rb, bo, rc, co) <= 0 ==> rcmp(d, kc, ko, n, mv, ra, ao, rc, co) < 0)
 && (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) <= 0 && rcmp(d, kc, ko, n, mv, rb, bo, rc, co) < 0 ==> rcmp(d, kc, ko, n, mv, ra, ao, rc, co) < 0)
  use kc[idx(ko, n)]
  use rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)
  use rcmp(d, kc, ko, n, mv, rb, bo, rc, co)
  use rcmp(d, kc, ko, n, mv, ra, ao, rc, co)
lemma rcmp_stop on rcmp induct m: forall d bool, kc [0]sortKey, ko, n, m int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int :: {rcmp(d, kc, ko, n, mv, ra, ao, rb, bo), rcmp(d, kc, ko, m, mv, ra, ao, rb, bo)}
  0 <= n <= m && rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) != 0 ==> rcmp(d, kc, ko, m, mv, ra, ao, rb, bo) == rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)
  use kc[idx(ko, m)]
  use rcmp(d, kc, ko, m, mv, ra, ao, rb, bo)
