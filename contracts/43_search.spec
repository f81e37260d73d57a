// Searching by the sort keys.

// the dynamic type of a value, written as in Go source
uf tyname(v interface{}) string
foreach $T in bool float32 float64 int int8 int16 int32 int64 string uint uint8 uint16 uint32 uint64 {
axiom on tyname: forall v interface{} :: {tyname(v)} tyname(v) == "$T" <==> is(v, $T)
}
uf rtype(t interface{}) interface{}
extern reflect.TypeOf(v) (t)
  pure
  ensures (t == nil) <==> (v == nil)
  ensures rtype(t) == v
extern $reflect.Type.String(t) (s)
  pure
  ensures s == tyname(rtype(t))

func (t *Table) IsValidCellValue(name, v) (ok, err)
  requires t != nil ==> wf(t)
  pure
  ensures [same] ok <==> err == nil
  ensures [iff] ok <==> t != nil && has(t.colNamesMap, name) && v != nil && tyname(v) == t.colTypes[t.colNamesMap[name]]

func (t *Table) IsValidColValue(name, v) (ok, err)
  requires t != nil ==> wf(t)
  pure
  ensures [same] ok <==> err == nil
  ensures [iff] ok <==> t != nil && has(t.colNamesMap, name) && v != nil && tyname(v) == t.colTypes[t.colNamesMap[name]]

// scmp compares a row with a tuple of values by the first n keys
uf scmp(d bool, kc [0]sortKey, ko int, n int, mv strmap, ra [0]interface{}, ao int, sv [0]interface{}, so int) int
axiom on scmp: forall d bool, kc [0]sortKey, ko int, mv strmap, ra [0]interface{}, ao int, sv [0]interface{}, so int :: {scmp(d, kc, ko, 0, mv, ra, ao, sv, so)} scmp(d, kc, ko, 0, mv, ra, ao, sv, so) == 0
axiom on scmp: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, sv [0]interface{}, so int :: {scmp(d, kc, ko, n, mv, ra, ao, sv, so), kc[idx(ko, n)]} n >= 0 ==>
  scmp(d, kc, ko, n + 1, mv, ra, ao, sv, so) == (scmp(d, kc, ko, n, mv, ra, ao, sv, so) != 0 ? scmp(d, kc, ko, n, mv, ra, ao, sv, so)
    : (d && kc[idx(ko, n)].reverse ? 0 - cmpc(kc[idx(ko, n)].colType, ra[idx(ao, mv[kc[idx(ko, n)].colName])], sv[idx(so, n)]) : cmpc(kc[idx(ko, n)].colType, ra[idx(ao, mv[kc[idx(ko, n)].colName])], sv[idx(so, n)])))

lemma scmp_dir on scmp induct n: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, sv [0]interface{}, so int :: {scmp(d, kc, ko, n, mv, ra, ao, sv, so)} scmp(d, kc, ko, n, mv, ra, ao, sv, so) == 0 <==> scmp(!d, kc, ko, n, mv, ra, ao, sv, so) == 0
  use kc[idx(ko, n)]
  use scmp(d, kc, ko, n, mv, ra, ao, sv, so)
  use scmp(!d, kc, ko, n, mv, ra, ao, sv, so)
lemma scmp_stop on scmp induct m: forall d bool, kc [0]sortKey, ko, n, m int, mv strmap, ra [0]interface{}, ao int, sv [0]interface{}, so int :: {scmp(d, kc, ko, n, mv, ra, ao, sv, so), scmp(d, kc, ko, m, mv, ra, ao, sv, so)}
  0 <= n <= m && scmp(d, kc, ko, n, mv, ra, ao, sv, so) != 0 ==> scmp(d, kc, ko, m, mv, ra, ao, sv, so) == scmp(d, kc, ko, n, mv, ra, ao, sv, so)
  use kc[idx(ko, m)]
  use scmp(d, kc, ko, m, mv, ra, ao, sv, so)
// a row that is not after another row is not after the values the other row is not after
lemma scmp_mono on scmp induct n: forall d bool, kc [0]sortKey, ko, n int, mv strmap, ra [0]interface{}, ao int, rb [0]interface{}, bo int, sv [0]interface{}, so int :: {rcmp(d, kc, ko, n, mv, ra, ao, rb, bo), scmp(d, kc, ko, n, mv, rb, bo, sv, so)} {scmp(d, kc, ko, n, mv, ra, ao, sv, so), scmp(d, kc, ko, n, mv, rb, bo, sv, so)}
    (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) <= 0 && scmp(d, kc, ko, n, mv, rb, bo, sv, so) <= 0 ==> scmp(d, kc, ko, n, mv, ra, ao, sv, so) <= 0)
 && (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) < 0 && scmp(d, kc, ko, n, mv, rb, bo, sv, so) <= 0 ==> scmp(d, kc, ko, n, mv, ra, ao, sv, so) < 0)
 && (rcmp(d, kc, ko, n, mv, ra, ao, rb, bo) <= 0 && scmp(d, kc, ko, n, mv, rb, bo, sv, so) < 0 ==> scmp(d, kc, ko, n, mv, ra, ao, sv, so) < 0)
  use kc[idx(ko, n)]
  use rcmp(d, kc, ko, n, mv, ra, ao, rb, bo)
  use scmp(d, kc, ko, n, mv, rb, bo, sv, so)
  use scmp(d, kc, ko, n, mv, ra, ao, sv, so)

pred valcmp(d bool, t *Table, n int, a tableRow, vals []interface{}) = scmp(d, elemsOf(t.sortKeys), off(t.sortKeys), n, mapval(t.colNamesMap), elemsOf(a), off(a), elemsOf(vals), off(vals))
// row r holds the values in its key columns
pred rowmatch(t *Table, r int, vals []interface{}) = valcmp(false, t, len(t.sortKeys), t.rows[r], vals) == 0
pred valsok(t *Table, vals []interface{}) = len(vals) == len(t.sortKeys) && (forall j int :: {t.sortKeys[j]} {vals[j]} 0 <= j < len(vals) ==> cellok(t.sortKeys[j].colType, vals[j]))

extern sort.Search(n, f) (r)
  requires n >= 0
  requires forall i int :: {fpre(f, i)} {fapp(f, i)} 0 <= i < n ==> fpre(f, i)
  pure
  ensures 0 <= r <= n
  ensures r < n ==> fapp(f, r)
  ensures r > 0 ==> !fapp(f, r - 1)

func SearchFirst(n, f) (r)
  requires n >= 0 && f != 0
  requires forall i int :: {fpre(f, i)} {fapp(f, i)} 0 <= i < n ==> fpre(f, i)
  pure
  ensures [range] 0 <= r <= n
  ensures [here] r < n ==> fapp(f, r)
  ensures [before] r > 0 ==> !fapp(f, r - 1)
  inv 0 <= lo_ <= hi_ <= n
  inv lo_ > 0 ==> !fapp(f, lo_ - 1)
  inv hi_ < n ==> fapp(f, hi_)

func search(n, f) (r)
  requires n >= 0 && f != 0
  requires forall i int :: {fpre(f, i)} {fapp(f, i)} 0 <= i < n ==> fpre(f, i)
  pure
  ensures [range] 0 <= r <= n
  ensures [here] r < n ==> fapp(f, r)
  ensures [before] r > 0 ==> !fapp(f, r - 1)
  inv 0 <= i <= j <= n
  inv i > 0 ==> !fapp(f, i - 1)
  inv j < n ==> fapp(f, j)

func SearchLast(n, f) (r)
  requires 0 <= n < 9223372036854775807 && f != 0
  requires forall i int :: {fpre(f, i)} {fapp(f, i)} 0 <= i < n ==> fpre(f, i)
  pure
  ensures [range] 0 - 1 <= r < n || (n == 0 && r == 0 - 1)
  ensures [here] r >= 0 ==> fapp(f, r)
  ensures [after] r + 1 < n ==> !fapp(f, r + 1)
  inv 0 - 1 <= i < j <= n
  inv i >= 0 ==> fapp(f, i)
  inv j < n ==> !fapp(f, j)
  inv 0 <= lo_ <= hi_ <= n
  inv lo_ > 0 ==> fapp(f, lo_ - 1)
  inv hi_ < n ==> !fapp(f, hi_)

func searchValuesMatchRowValues(t, vals, r) (ok)
  requires t != nil && wf(t) && inrow(t, r) && valsok(t, vals)
  pure
  ensures [iff] ok <==> rowmatch(t, r, vals)
  inv valcmp(false, t, $k, t.rows[r], vals) == 0

func (t *Table) searchByKeysFirst(vals) (r, err)
  requires t != nil && wf(t) && valsok(t, vals) && len(vals) > 0
  pure
  fnarg (i) (b)
  fnreq inrow(t, i)
  fnens [not-before] b <==> valcmp(true, t, len(t.sortKeys), t.rows[i], vals) >= 0
  ensures [found] err == nil ==> inrow(t, r) && rowmatch(t, r, vals)
  ensures [first] err == nil && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < r ==> !rowmatch(t, i, vals))
  ensures [none] err != nil ==> r == 0 - 1
  ensures [nomatch] err != nil && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> !rowmatch(t, i, vals))
  inv $k < len(t.sortKeys)
  inv valcmp(true, t, $k, t.rows[rowIndex], vals) == 0

func (t *Table) searchByKeysLast(vals) (r, err)
  requires t != nil && wf(t) && valsok(t, vals) && len(vals) > 0
  pure
  fnarg (i) (b)
  fnreq inrow(t, i)
  fnens [not-after] b <==> valcmp(true, t, len(t.sortKeys), t.rows[i], vals) <= 0
  ensures [found] err == nil ==> inrow(t, r) && rowmatch(t, r, vals)
  ensures [last] err == nil && rowsSorted(t) ==> (forall i int :: {t.rows[i]} r < i < len(t.rows) ==> !rowmatch(t, i, vals))
  ensures [none] err != nil ==> r == 0 - 1
  ensures [nomatch] err != nil && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> !rowmatch(t, i, vals))
  inv $k < len(t.sortKeys)
  inv valcmp(true, t, $k, t.rows[rowIndex], vals) == 0

pred searchok(t *Table, vals []interface{}) = len(vals) > 0 && valsok(t, vals)

func (t *Table) checkSearchArguments(vals) (err)
  requires t != nil ==> wf(t)
  pure
  ensures [iff] (err == nil) <==> t != nil && searchok(t, vals)
  inv forall j int :: {t.sortKeys[j]} {vals[j]} 0 <= j < $k ==> cellok(t.sortKeys[j].colType, vals[j])

foreach $F in Search SearchFirst {
func (t *Table) $F(vals) (r, err)
  requires t != nil ==> wf(t)
  pure
  ensures [found] err == nil ==> t != nil && searchok(t, vals) && inrow(t, r) && rowmatch(t, r, vals)
  ensures [first] err == nil && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < r ==> !rowmatch(t, i, vals))
  ensures [none] err != nil ==> r == 0 - 1
  ensures [nomatch] err != nil && t != nil && searchok(t, vals) && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> !rowmatch(t, i, vals))
}

func (t *Table) SearchLast(vals) (r, err)
  requires t != nil ==> wf(t)
  pure
  ensures [found] err == nil ==> t != nil && searchok(t, vals) && inrow(t, r) && rowmatch(t, r, vals)
  ensures [last] err == nil && rowsSorted(t) ==> (forall i int :: {t.rows[i]} r < i < len(t.rows) ==> !rowmatch(t, i, vals))
  ensures [none] err != nil ==> r == 0 - 1
  ensures [nomatch] err != nil && t != nil && searchok(t, vals) && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> !rowmatch(t, i, vals))

func (t *Table) SearchRange(vals) (a, b, err)
  requires t != nil ==> wf(t)
  pure
  ensures [found] err == nil ==> t != nil && searchok(t, vals) && inrow(t, a) && inrow(t, b) && rowmatch(t, a, vals) && rowmatch(t, b, vals)
  ensures [range] err == nil && rowsSorted(t) ==> a <= b && (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> (rowmatch(t, i, vals) <==> a <= i <= b))
  ensures [none] err != nil && (t == nil || rowsSorted(t)) ==> a == 0 - 1 && b == 0 - 1
  ensures [nomatch] err != nil && t != nil && searchok(t, vals) && rowsSorted(t) ==> (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> !rowmatch(t, i, vals))
