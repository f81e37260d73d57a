// Sorting. A sort rearranges the row list: P maps each new position to the old one, Q back.
uf permP(a, b [0]tableRow, o, n, i int) int
uf permQ(a, b [0]tableRow, o, n, i int) int
pred permuted(a, b [0]tableRow, o, n int) =
     (forall i int :: {b[idx(o, i)]} 0 <= i < n ==> 0 <= permP(a, b, o, n, i) < n && b[idx(o, i)] == a[idx(o, permP(a, b, o, n, i))] && permQ(a, b, o, n, permP(a, b, o, n, i)) == i)
  && (forall i int :: {a[idx(o, i)]} 0 <= i < n ==> 0 <= permQ(a, b, o, n, i) < n && a[idx(o, i)] == b[idx(o, permQ(a, b, o, n, i))] && permP(a, b, o, n, permQ(a, b, o, n, i)) == i)

pred rowsSorted(t *Table) = forall i, j int :: {t.rows[i], t.rows[j]} 0 <= i < j < len(t.rows) ==> rowcmp(true, t, len(t.sortKeys), t.rows[i], t.rows[j]) <= 0
pred samekey(a, b sortKey) = a.colName == b.colName && a.colType == b.colType && a.reverse == b.reverse && a.sortFunc == b.sortFunc

func (t *Table) sortByKeys(keys)
  requires t != nil && wf(t)
  sorts t.rows by (a, b): rowcmp(true, t, len(t.sortKeys), a, b) < 0
  modifies elems(t.rows)
  ensures [rows] permuted(old(elemsOf(t.rows)), elemsOf(t.rows), off(t.rows), len(t.rows))
  ensures [order] rowsSorted(t)
  ensures [wf] wf(t)
  inv rowcmp(true, t, $k, $a, $b) == 0

pred sortcols(t *Table, names []string) = forall i int :: {names[i]} 0 <= i < len(names) ==> keycol(t, names[i])

func (t *Table) Sort(names) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && sortcols(t, names) && len(names) > 0, t.sortKeys), when(t != nil && sortcols(t, names), elems(t.rows))
  ensures [iff] (err == nil) <==> t != nil && old(sortcols(t, names)) && (len(names) > 0 || old(len(t.sortKeys)) > 0)
  ensures [rows] err == nil ==> permuted(old(elemsOf(t.rows)), elemsOf(t.rows), off(t.rows), len(t.rows))
  ensures [fail] err != nil && t != nil ==> (forall i int :: {t.rows[i]} 0 <= i < len(t.rows) ==> t.rows[i] == old(t.rows[i]))
  ensures [order] err == nil ==> rowsSorted(t)
  ensures [keys] err == nil && len(names) > 0 ==> len(t.sortKeys) == len(names) && (forall j int :: {t.sortKeys[j]} {names[j]} 0 <= j < len(names) ==> t.sortKeys[j].colName == names[j] && !t.sortKeys[j].reverse)
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SortSimple(names) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && sortcols(t, names) && len(names) > 0, t.sortKeys), when(t != nil && sortcols(t, names) && len(names) > 0, elems(t.rows))
  ensures [iff] (err == nil) <==> t != nil && old(sortcols(t, names)) && len(names) > 0
  ensures [rows] err == nil ==> permuted(old(elemsOf(t.rows)), elemsOf(t.rows), off(t.rows), len(t.rows))
  ensures [order] err == nil ==> rowsSorted(t)
  ensures [keys] err == nil ==> len(t.sortKeys) == len(names) && (forall j int :: {t.sortKeys[j]} {names[j]} 0 <= j < len(names) ==> t.sortKeys[j].colName == names[j] && !t.sortKeys[j].reverse)
  ensures [wf] t != nil ==> wf(t)
