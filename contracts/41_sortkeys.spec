// Sort keys.
pred keycol(t *Table, name string) = t != nil && has(t.colNamesMap, name) && sortable(t.colTypes[t.colNamesMap[name]])

func (t *Table) getColInfo(name) (ci, err)
  requires t != nil ==> wfcols(t)
  pure
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures [val] err == nil ==> ci.colName == name && ci.colType == t.colTypes[t.colNamesMap[name]]

func newSortKeys() (r)
  ensures len(r) == 0 && fresh(r)

func (t *Table) SortKeyCount() (n)
  pure
  ensures n == (t == nil ? 0 - 1 : len(t.sortKeys))

func (t *Table) AppendSortKey(name) (err)
  requires t != nil ==> wf(t)
  modifies when(keycol(t, name), t.sortKeys), when(keycol(t, name), spare(t.sortKeys))
  ensures [iff] (err == nil) <==> old(keycol(t, name))
  ensures [count] err == nil ==> len(t.sortKeys) == old(len(t.sortKeys)) + 1
  ensures [keep] err == nil ==> (forall j int :: {t.sortKeys[j]} 0 <= j < old(len(t.sortKeys)) ==> t.sortKeys[j] == old(t.sortKeys[j]))
  ensures [new] err == nil ==> t.sortKeys[len(t.sortKeys)-1].colName == name && !t.sortKeys[len(t.sortKeys)-1].reverse
  ensures [backing] err == nil ==> fresh(t.sortKeys) || samebase(t.sortKeys, old(t.sortKeys))
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetSortKeys(names) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && (forall i int :: {names[i]} 0 <= i < len(names) ==> keycol(t, names[i])), t.sortKeys)
  ensures [iff] (err == nil) <==> t != nil && (forall i int :: {names[i]} 0 <= i < len(names) ==> keycol(t, names[i]))
  ensures [count] err == nil ==> len(t.sortKeys) == len(names)
  ensures [keys] err == nil ==> (forall j int :: {t.sortKeys[j]} {names[j]} 0 <= j < len(t.sortKeys) ==> t.sortKeys[j].colName == names[j] && !t.sortKeys[j].reverse)
  ensures [backing] err == nil ==> fresh(t.sortKeys)
  ensures [wf] t != nil ==> wf(t)
  inv wf(t) && fresh(t.sortKeys) && len(t.sortKeys) == $k
  inv forall j int :: {t.sortKeys[j]} 0 <= j < $k ==> t.sortKeys[j].colName == names[j] && !t.sortKeys[j].reverse
  inv forall i int :: {names[i]} 0 <= i < $k ==> keycol(t, names[i])

pred haskey(t *Table, name string) = exists j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) && t.sortKeys[j].colName == name
pred keyrev(o, n sortKey, rev bool) = n.colName == o.colName && n.colType == o.colType && n.sortFunc == o.sortFunc && n.reverse == rev

func (t *Table) setSortKeyReverse(name) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && haskey(t, name), elems(t.sortKeys))
  ensures [iff] (err == nil) <==> old(t != nil && haskey(t, name))
  ensures [keys] err == nil ==> (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> keyrev(old(t.sortKeys[j]), t.sortKeys[j], old(t.sortKeys[j]).reverse || old(t.sortKeys[j]).colName == name))
  ensures [wf] t != nil ==> wf(t)
  inv forall j int :: {t.sortKeys[j]} 0 <= j < $k ==> keyrev(old(t.sortKeys[j]), t.sortKeys[j], old(t.sortKeys[j]).reverse || old(t.sortKeys[j]).colName == name)
  inv forall j int :: {t.sortKeys[j]} $k <= j < len(t.sortKeys) ==> t.sortKeys[j] == old(t.sortKeys[j])
  inv found ==> (exists j int :: {old(t.sortKeys[j])} 0 <= j < $k && old(t.sortKeys[j]).colName == name)
  inv forall j int :: {old(t.sortKeys[j])} 0 <= j < $k && old(t.sortKeys[j]).colName == name ==> found

pred listed(names []string, n int, s string) = exists i int :: {names[i]} 0 <= i < n && names[i] == s

func (t *Table) SetSortKeysReverse(names) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil, elems(t.sortKeys))
  ensures [iff] (err == nil) <==> t != nil && old(forall i int :: {names[i]} 0 <= i < len(names) ==> haskey(t, names[i]))
  ensures [keys] err == nil ==> (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> keyrev(old(t.sortKeys[j]), t.sortKeys[j], old(t.sortKeys[j]).reverse || listed(names, len(names), old(t.sortKeys[j]).colName)))
  ensures [wf] t != nil ==> wf(t)
  inv forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> keyrev(old(t.sortKeys[j]), t.sortKeys[j], old(t.sortKeys[j]).reverse || listed(names, $k, old(t.sortKeys[j]).colName))
  inv forall i int :: {names[i]} 0 <= i < $k ==> old(haskey(t, names[i]))
  inv forall j int :: {old(t.sortKeys[j])} 0 <= j < len(t.sortKeys) ==> t.sortKeys[j].colName == old(t.sortKeys[j]).colName
  inv forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> t.sortKeys[j].colName == old(t.sortKeys[j]).colName

func (t *Table) DeleteSortKey(name) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && haskey(t, name), t.sortKeys), when(t != nil && haskey(t, name), elems(t.sortKeys))
  ensures [iff] (err == nil) <==> old(t != nil && haskey(t, name))
  ensures [count] err == nil ==> len(t.sortKeys) == old(len(t.sortKeys)) - 1
  ensures [keys] err == nil ==> (exists d int :: {old(t.sortKeys[d])} 0 <= d < old(len(t.sortKeys)) && old(t.sortKeys[d]).colName == name
     && (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> t.sortKeys[j] == old(t.sortKeys[j < d ? j : j + 1])))
  ensures [wf] t != nil ==> wf(t)
  inv forall j int :: {t.sortKeys[j]} 0 <= j < $k ==> t.sortKeys[j].colName != name

func (t *Table) IsSortKey(name) (b, err)
  requires t != nil ==> wf(t)
  pure
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures [val] err == nil ==> (b <==> haskey(t, name))
  ensures [bad] err != nil ==> !b
  inv forall j int :: {t.sortKeys[j]} 0 <= j < $k ==> t.sortKeys[j].colName != name

pred keycols(k *Table) = k != nil && !k.isNilTable && len(k.colNames) == 4
  && k.colNames[0] == "index" && k.colNames[1] == "colName" && k.colNames[2] == "colType" && k.colNames[3] == "reverse"
  && has(k.colNamesMap, "index") && has(k.colNamesMap, "colName") && has(k.colNamesMap, "colType") && has(k.colNamesMap, "reverse")
  && k.colNamesMap["index"] == 0 && k.colNamesMap["colName"] == 1 && k.colNamesMap["colType"] == 2 && k.colNamesMap["reverse"] == 3
  && k.colTypes[0] == "int" && k.colTypes[1] == "string" && k.colTypes[2] == "string" && k.colTypes[3] == "bool"
pred keystab(k *Table) = keycols(k) && wf(k)
pred keysrow(k *Table, j int, key sortKey) = k.rows[j][0] == box(j, int) && k.rows[j][1] == box(key.colName, string) && k.rows[j][2] == box(key.colType, string) && k.rows[j][3] == box(key.reverse, bool)

func (t *Table) GetSortKeysAsTable() (k, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> t != nil
  ensures [nil] err != nil ==> k == nil
  ensures [shape] err == nil ==> keystab(k) && fresh(k) && len(k.rows) == len(t.sortKeys)
  ensures [rows] err == nil ==> (forall j int :: {k.rows[j]} inrow(k, j) ==> keysrow(k, j, t.sortKeys[j]))
  inv keycols(keysTable) && fresh(keysTable)
  inv wf(keysTable)
  inv len(keysTable.rows) == $k
  inv fresh(keysTable.rows) && fresh(keysTable.colNames) && fresh(keysTable.colTypes) && fresh(keysTable.colNamesMap)
  inv forall j int :: {keysTable.rows[j]} inrow(keysTable, j) ==> fresh(keysTable.rows[j])
  inv forall j int :: {keysTable.rows[j]} 0 <= j < $k ==> keysrow(keysTable, j, t.sortKeys[j])

// revkey: one of the first n keys is a reversed key for column c
uf revkey(ks [0]sortKey, o int, n int, c string) bool
axiom on revkey: forall ks [0]sortKey, o int, c string :: {revkey(ks, o, 0, c)} !revkey(ks, o, 0, c)
axiom on revkey: forall ks [0]sortKey, o, n int, c string :: {revkey(ks, o, n, c), ks[idx(o, n)]} n >= 0 ==> (revkey(ks, o, n + 1, c) <==> revkey(ks, o, n, c) || (ks[idx(o, n)].colName == c && ks[idx(o, n)].reverse))
lemma revkey_intro on revkey induct n: forall ks [0]sortKey, o, n, j int, c string :: {revkey(ks, o, n, c), ks[idx(o, j)]} 0 <= j < n && ks[idx(o, j)].colName == c && ks[idx(o, j)].reverse ==> revkey(ks, o, n, c)
  use ks[idx(o, n)]
  use revkey(ks, o, n, c)
lemma revkey_elim on revkey induct n: forall ks [0]sortKey, o, n int, c string :: {revkey(ks, o, n, c)} n >= 0 && revkey(ks, o, n, c) ==> (exists j int :: {ks[idx(o, j)]} 0 <= j < n && ks[idx(o, j)].colName == c && ks[idx(o, j)].reverse)
  use ks[idx(o, n)]
  use revkey(ks, o, n, c)

func (t *Table) SetSortKeysFromTable(f) (err)
  requires t != nil ==> wf(t)
  requires f != nil ==> wf(f)
  modifies when(t != nil && f != nil, t.sortKeys)
  ensures [iff] (err == nil) <==> t != nil && f != nil && old(len(f.sortKeys)) > 0 && old(forall j int :: {f.sortKeys[j]} 0 <= j < len(f.sortKeys) ==> keycol(t, f.sortKeys[j].colName))
  ensures [count] err == nil ==> len(t.sortKeys) == old(len(f.sortKeys))
  ensures [names] err == nil ==> (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> t.sortKeys[j].colName == old(f.sortKeys[j]).colName)
  ensures [rev] err == nil ==> (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> (t.sortKeys[j].reverse <==> revkey(old(elemsOf(f.sortKeys)), old(off(f.sortKeys)), old(len(f.sortKeys)), t.sortKeys[j].colName)))
  ensures [wf] t != nil ==> wf(t)
  inv $k <= len(keysTable.rows)
  inv keycols(keysTable)
  inv wf(keysTable)
  inv arr(ascending) == 0 || arr(ascending) != arr(descending)
  inv len(ascending) == $k
  inv forall j int :: {ascending[j]} 0 <= j < $k ==> ascending[j] == old(f.sortKeys[j]).colName
  inv forall j int :: {old(f.sortKeys[j])} 0 <= j < $k ==> ascending[j] == old(f.sortKeys[j]).colName
  inv forall i int :: {descending[i]} 0 <= i < len(descending) ==> revkey(old(elemsOf(f.sortKeys)), old(off(f.sortKeys)), $k, descending[i])
  inv forall j int :: {old(f.sortKeys[j])} 0 <= j < $k && old(f.sortKeys[j]).reverse ==> listed(descending, len(descending), old(f.sortKeys[j]).colName)

func (t *Table) CompareRows(a, b) (c, err)
  requires t != nil ==> wf(t)
  pure
  ensures [iff] (err == nil) <==> t != nil && inrow(t, a) && inrow(t, b) && len(t.sortKeys) > 0
  ensures [cmp] err == nil ==> c == rowcmp(false, t, len(t.sortKeys), t.rows[a], t.rows[b])
  ensures [bad] err != nil ==> c == 0 - 2
  inv rowcmp(false, t, $k, t.rows[a], t.rows[b]) == 0

// by the first n keys of t
pred rowcmp(d bool, t *Table, n int, a, b tableRow) = rcmp(d, elemsOf(t.sortKeys), off(t.sortKeys), n, mapval(t.colNamesMap), elemsOf(a), off(a), elemsOf(b), off(b))
