// Cell and row descriptors, small helpers, unique sorting and merging.

func (t *Table) GetCellInfoByColIndex(c, r) (ci, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> t != nil && incol(t, c)
  ensures [val] err == nil ==> ci.Table == t && ci.ColIndex == c && ci.RowIndex == r && ci.ColName == t.colNames[c] && ci.ColType == t.colTypes[c]

func (t *Table) GetCellInfo(name, r) (ci, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures [val] err == nil ==> ci.Table == t && ci.ColIndex == t.colNamesMap[name] && ci.RowIndex == r && ci.ColName == name && ci.ColType == t.colTypes[t.colNamesMap[name]]

func (t *Table) getColNames() (s)
  ensures t != nil ==> s == t.colNames
  ensures t == nil ==> s == nil

func (t *Table) getColTypes() (s)
  ensures t != nil ==> s == t.colTypes
  ensures t == nil ==> s == nil

func (t *Table) appendRowOfNil() (err)
  ensures (err == nil) <==> t != nil

func Uint8SliceEquals(a, b) (eq, err)
  pure
  ensures eq <==> err == nil
  ensures eq <==> (a == nil <==> b == nil) && len(a) == len(b) && (forall i int :: {a[i]} {b[i]} 0 <= i < len(a) ==> a[i] == b[i])
  inv forall i int :: {a[i]} {b[i]} 0 <= i < $k ==> a[i] == b[i]

func (s *TableSet) IsValidTableSet() (ok, err)
  requires s != nil ==> (forall i int :: {s.tables[i]} intab(s, i) ==> s.tables[i] != nil && wf(s.tables[i]))
  modifies allof(Table.depth)
  ensures ok <==> err == nil
  ensures ok ==> s != nil && (forall i int :: {s.tables[i]} intab(s, i) ==> validName(s.tables[i].tableName))
  inv forall i int :: {s.tables[i]} 0 <= i < $k ==> validName(s.tables[i].tableName)

func (t *Table) NewTableFromRowsBySearchRange(name, vals) (u, err)
  requires t != nil ==> wf(t)
  ensures [bad] t == nil || t.isNilTable || !validName(name) || !searchok(t, vals) ==> err != nil
  ensures [nil] err != nil ==> u == nil
  ensures [new] err == nil ==> u != nil && wf(u) && freshtable(u) && u.tableName == name && !u.isNilTable
  ensures [cols] err == nil ==> samecols(u, t)
  ensures [rows] err == nil && rowsSorted(t) ==> len(u.rows) > 0 && (forall f, l int :: {t.rows[f], t.rows[l]} inrow(t, f) && inrow(t, l) && rowmatch(t, f, vals) && rowmatch(t, l, vals)
     && (f == 0 || !rowmatch(t, f-1, vals)) && (l == len(t.rows)-1 || !rowmatch(t, l+1, vals)) ==> len(u.rows) == l - f + 1
     && (forall r, i int :: {u.rows[r][i]} inrow(u, r) && incol(u, i) ==> u.rows[r][i] == t.rows[f + r][i]))

func (t *Table) copyTableCells(begin, u) (err)
  requires t != nil && wf(t) && u != nil && wf(u) && sep(t, u) && t != u
  requires 0 <= begin < 1152921504606846976
  modifies each(r, 0, len(u.rows), elems(u.rows[r]))
  ensures [ok] err == nil && len(t.rows) > 0 && len(t.colNames) > 0 ==> begin + len(t.rows) <= len(u.rows) && (forall c int :: {t.colNames[c]} incol(t, c) ==> has(u.colNamesMap, t.colNames[c]))
  ensures [cells] err == nil ==> (forall r, c int :: {t.rows[r][c]} inrow(t, r) && incol(t, c) ==> u.rows[begin + r][u.colNamesMap[t.colNames[c]]] == t.rows[r][c])
  ensures [else] (forall q, i int :: {u.rows[q][i]} inrow(u, q) && incol(u, i) && (q < begin || q >= begin + len(t.rows) || !has(t.colNamesMap, u.colNames[i])) ==> u.rows[q][i] == old(u.rows[q][i]))
  ensures [wf] wf(u)
  inv wf(u)
  inv0 $k > 0 && len(t.rows) > 0 ==> begin + len(t.rows) <= len(u.rows)
  inv1 $k0 > 0 && len(t.rows) > 0 ==> begin + len(t.rows) <= len(u.rows)
  inv1 begin + $k <= len(u.rows) || $k == 0
  inv1 $k <= len(t.rows)
  inv0 len(t.rows) > 0 ==> (forall c int :: {t.colNames[c]} 0 <= c < $k ==> has(u.colNamesMap, t.colNames[c]))
  inv1 len(t.rows) > 0 ==> (forall c int :: {t.colNames[c]} 0 <= c < $k0 ==> has(u.colNamesMap, t.colNames[c]))
  inv1 $k > 0 ==> has(u.colNamesMap, t.colNames[$k0])
  inv0 forall r, c int :: {t.rows[r][c]} inrow(t, r) && 0 <= c < $k ==> u.rows[begin + r][u.colNamesMap[t.colNames[c]]] == t.rows[r][c]
  inv1 forall r, c int :: {t.rows[r][c]} inrow(t, r) && 0 <= c < $k0 ==> u.rows[begin + r][u.colNamesMap[t.colNames[c]]] == t.rows[r][c]
  inv1 forall r int :: {t.rows[r]} 0 <= r < $k ==> u.rows[begin + r][u.colNamesMap[t.colNames[$k0]]] == t.rows[r][$k0]
  inv forall q, i int :: {u.rows[q][i]} inrow(u, q) && incol(u, i) && (q < begin || q >= begin + len(t.rows) || !has(t.colNamesMap, u.colNames[i])) ==> u.rows[q][i] == old(u.rows[q][i])
