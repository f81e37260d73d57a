// among: one of the first j keys is on column v; nkc: the number of columns below n among the first j keys
uf among(kc [0]sortKey, ko int, mv strmap, j, v int) bool
axiom on among: forall kc [0]sortKey, ko int, mv strmap, v int :: {among(kc, ko, mv, 0, v)} !among(kc, ko, mv, 0, v)
axiom on among: forall kc [0]sortKey, ko int, mv strmap, j, v int :: {among(kc, ko, mv, j, v), kc[idx(ko, j)]} j >= 0 ==> (among(kc, ko, mv, j + 1, v) <==> among(kc, ko, mv, j, v) || mv[kc[idx(ko, j)].colName] == v)
lemma among_intro on among induct n: forall kc [0]sortKey, ko int, mv strmap, n, j, v int :: {among(kc, ko, mv, n, v), kc[idx(ko, j)]} 0 <= j < n && mv[kc[idx(ko, j)].colName] == v ==> among(kc, ko, mv, n, v)
  use kc[idx(ko, n)]
  use among(kc, ko, mv, n, v)
lemma among_elim on among induct n: forall kc [0]sortKey, ko int, mv strmap, n, v int :: {among(kc, ko, mv, n, v)} n >= 0 && among(kc, ko, mv, n, v) ==> (exists j int :: {kc[idx(ko, j)]} 0 <= j < n && mv[kc[idx(ko, j)].colName] == v)
  use kc[idx(ko, n)]
  use among(kc, ko, mv, n, v)
uf nkc(kc [0]sortKey, ko int, mv strmap, j, n int) int
axiom on nkc: forall kc [0]sortKey, ko int, mv strmap, j int :: {nkc(kc, ko, mv, j, 0)} nkc(kc, ko, mv, j, 0) == 0
axiom on nkc: forall kc [0]sortKey, ko int, mv strmap, j, n int :: {nkc(kc, ko, mv, j, n), among(kc, ko, mv, j, n)} n >= 0 ==> nkc(kc, ko, mv, j, n + 1) == nkc(kc, ko, mv, j, n) + (among(kc, ko, mv, j, n) ? 1 : 0)
lemma nkc_zero on nkc induct n: forall kc [0]sortKey, ko int, mv strmap, n int :: {nkc(kc, ko, mv, 0, n)} n >= 0 ==> nkc(kc, ko, mv, 0, n) == 0
  use nkc(kc, ko, mv, 0, n)
  use among(kc, ko, mv, 0, n)
lemma nkc_pos on nkc induct n: forall kc [0]sortKey, ko int, mv strmap, j, n int :: {nkc(kc, ko, mv, j, n)} n >= 0 ==> nkc(kc, ko, mv, j, n) >= 0
  use nkc(kc, ko, mv, j, n)
  use among(kc, ko, mv, j, n)
lemma nkc_step on nkc induct n: forall kc [0]sortKey, ko int, mv strmap, j, n int :: {nkc(kc, ko, mv, j, n), kc[idx(ko, j)]} n >= 0 && j >= 0 && mv[kc[idx(ko, j)].colName] >= 0 ==>
  nkc(kc, ko, mv, j + 1, n) == nkc(kc, ko, mv, j, n) + (mv[kc[idx(ko, j)].colName] < n && !among(kc, ko, mv, j, mv[kc[idx(ko, j)].colName]) ? 1 : 0)
  use kc[idx(ko, j)]
  use nkc(kc, ko, mv, j, n)
  use nkc(kc, ko, mv, j + 1, n)
  use among(kc, ko, mv, j, n)
  use among(kc, ko, mv, j + 1, n)
  use among(kc, ko, mv, j, mv[kc[idx(ko, j)].colName])

pred keyamong(t *Table, j, v int) = among(elemsOf(t.sortKeys), off(t.sortKeys), mapval(t.colNamesMap), j, v)
pred nkeycols(t *Table, j, n int) = nkc(elemsOf(t.sortKeys), off(t.sortKeys), mapval(t.colNamesMap), j, n)

// the column that name i has in the old table
func (t *Table) OrderColsBySortKeys() (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil, elems(t.colNames)), when(t != nil, elems(t.colTypes)), when(t != nil, mapof(t.colNamesMap)), when(t != nil, each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> t != nil
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} incol(t, i) ==> old(mapdom(t.colNamesMap))[t.colNames[i]])
  ensures [types] err == nil ==> (forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] == old(elemsOf(t.colTypes))[idx(old(off(t.colTypes)), old(mapval(t.colNamesMap))[t.colNames[i]])])
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> t.rows[r][i] == old(elemsOf(t.rows[r]))[idx(old(off(t.rows[r])), old(mapval(t.colNamesMap))[t.colNames[i]])])
  ensures [keys-first] err == nil ==> (forall a, b int :: {t.colNames[a], t.colNames[b]} 0 <= a < b < len(t.colNames) && haskey(t, t.colNames[b]) ==> haskey(t, t.colNames[a]))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv $k <= len(t.sortKeys)
  inv $k <= len(t.colNames)
  inv arr(newOrder) != 0
  inv len(newOrder) == nkeycols(t, $k, len(t.colNames))
  inv len(newOrder) == nkeycols(t, $k0, len(t.colNames))
  inv nkeycols(t, len(t.sortKeys), $k) + (keyamong(t, len(t.sortKeys), $k) ? 1 : 0) >= 0
  inv forall i int :: {newOrder[i]} 0 <= i < len(newOrder) ==> has(t.colNamesMap, newOrder[i]) && keyamong(t, $k, t.colNamesMap[newOrder[i]])
  inv forall i int :: {newOrder[i]} 0 <= i < len(newOrder) ==> has(t.colNamesMap, newOrder[i]) && keyamong(t, $k0, t.colNamesMap[newOrder[i]])
  inv forall i, j int :: {newOrder[i], newOrder[j]} 0 <= i < j < len(newOrder) ==> newOrder[i] != newOrder[j]
  inv forall j int :: {t.sortKeys[j]} 0 <= j < $k ==> listed(newOrder, len(newOrder), t.sortKeys[j].colName)
  inv forall j int :: {t.sortKeys[j]} 0 <= j < $k0 ==> listed(newOrder, len(newOrder), t.sortKeys[j].colName)
  inv duplicate ==> keyamong(t, $k0, t.colNamesMap[keyName])
  inv forall i int :: {newOrder[i]} 0 <= i < $k ==> newOrder[i] != keyName
  inv !duplicate ==> (forall i int :: {newOrder[i]} 0 <= i < $k ==> newOrder[i] != keyName)
  inv len(newOrder) == nkeycols(t, len(t.sortKeys), len(t.colNames)) + $k - nkeycols(t, len(t.sortKeys), $k)
  inv forall i int :: {newOrder[i]} 0 <= i < len(newOrder) ==> has(t.colNamesMap, newOrder[i]) && (keyamong(t, len(t.sortKeys), t.colNamesMap[newOrder[i]]) || t.colNamesMap[newOrder[i]] < $k)
  inv forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> listed(newOrder, len(newOrder), t.sortKeys[j].colName)
  inv forall v int :: {t.colNames[v]} {mark(v)} 0 <= v < $k ==> listed(newOrder, len(newOrder), t.colNames[v])
  inv forall a, b int :: {newOrder[a], newOrder[b]} 0 <= a < b < len(newOrder) && keyamong(t, len(t.sortKeys), t.colNamesMap[newOrder[b]]) ==> keyamong(t, len(t.sortKeys), t.colNamesMap[newOrder[a]])
