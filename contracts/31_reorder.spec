// names lists the table's columns, each once
pred colperm(t *Table, names []string) = len(names) == len(t.colNames) && (forall i int :: {names[i]} 0 <= i < len(names) ==> has(t.colNamesMap, names[i]))
   && (forall i, j int :: {names[i], names[j]} 0 <= i < j < len(names) ==> names[i] != names[j])
   && (forall v int :: {mark(v)} 0 <= v < len(t.colNames) && mark(v) ==> (exists i int :: {names[i]} 0 <= i < len(names) && names[i] == t.colNames[v]))

func (t *Table) ReorderCols(names) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && colperm(t, names), elems(t.colNames)), when(t != nil && colperm(t, names), elems(t.colTypes)), when(t != nil && colperm(t, names), mapof(t.colNamesMap)), when(t != nil && colperm(t, names), each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> old(t != nil && colperm(t, names))
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} incol(t, i) ==> t.colNames[i] == old(names[i]))
  ensures [types] err == nil ==> (forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] == old(t.colTypes[t.colNamesMap[names[i]]]))
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][t.colNamesMap[names[i]]]))
  ensures [wf] t != nil ==> wf(t)
  inv forall i int :: {orderIndices[i]} 0 <= i < $k ==> has(t.colNamesMap, names[i]) && orderIndices[i] == t.colNamesMap[names[i]]
  inv forall i int :: {names[i]} 0 <= i < $k ==> has(t.colNamesMap, names[i]) && orderIndices[i] == t.colNamesMap[names[i]]

func (t *Table) NewTableReorderColsByColIndex(o) (u, err)
  requires t != nil ==> wf(t)
  ensures [bad] t == nil || !isperm(o, len(t.colNames)) ==> err != nil
  ensures [nil] err != nil ==> u == nil
  ensures [ok] err == nil ==> u != nil && fresh(u) && wf(u) && u.tableName == t.tableName && len(u.colNames) == len(t.colNames) && len(u.rows) == len(t.rows) && allperm(o, len(t.colNames))
  ensures [names] err == nil ==> (forall i int :: {u.colNames[i]} incol(u, i) ==> u.colNames[i] == t.colNames[o[i]] && u.colTypes[i] == t.colTypes[o[i]])
  ensures [cells] err == nil ==> (forall r, i int :: {u.rows[r][i]} inrow(u, r) && incol(u, i) ==> u.rows[r][i] == t.rows[r][o[i]])
  inv mark($k)
  inv forall v int :: {mark(v)} 0 <= v < $k && mark(v) ==> s[v] == v
  inv forall v int :: {s[v]} 0 <= v < $k ==> s[v] == v
  inv allperm(o, len(t.colNames))
  inv wf(reorderedTable) && fresh(reorderedTable) && !reorderedTable.isNilTable
  inv fresh(reorderedTable.rows) && fresh(reorderedTable.colNames) && fresh(reorderedTable.colTypes) && fresh(reorderedTable.colNamesMap)
  inv forall r int :: {reorderedTable.rows[r]} inrow(reorderedTable, r) ==> fresh(reorderedTable.rows[r])
  inv reorderedTable.tableName == t.tableName
  inv len(reorderedTable.rows) == len(t.rows)
  inv len(reorderedTable.colNames) == $k && $k <= len(t.colNames)
  inv forall i int :: {reorderedTable.colNames[i]} 0 <= i < $k ==> reorderedTable.colNames[i] == t.colNames[o[i]] && reorderedTable.colTypes[i] == t.colTypes[o[i]]
  inv forall r, i int :: {reorderedTable.rows[r][i]} inrow(reorderedTable, r) && 0 <= i < $k ==> reorderedTable.rows[r][i] == t.rows[r][o[i]]
  inv forall r, i int :: {reorderedTable.rows[r][i]} inrow(reorderedTable, r) && 0 <= i < $k0 ==> reorderedTable.rows[r][i] == t.rows[r][o[i]]
  inv forall r int :: {reorderedTable.rows[r]} 0 <= r < $k ==> reorderedTable.rows[r][$k0] == t.rows[r][o[$k0]]

func (t *Table) NewTableReorderCols(names) (u, err)
  requires t != nil ==> wf(t)
  ensures [bad] t == nil || !colperm(t, names) ==> err != nil
  ensures [ok] err == nil ==> u != nil && fresh(u) && wf(u) && u.tableName == t.tableName && len(u.colNames) == len(t.colNames) && len(u.rows) == len(t.rows)
  ensures [names] err == nil ==> (forall i int :: {u.colNames[i]} incol(u, i) ==> u.colNames[i] == names[i] && u.colTypes[i] == t.colTypes[t.colNamesMap[names[i]]])
  ensures [cells] err == nil ==> (forall r, i int :: {u.rows[r][i]} inrow(u, r) && incol(u, i) ==> u.rows[r][i] == t.rows[r][t.colNamesMap[names[i]]])
  inv forall i int :: {orderIndices[i]} 0 <= i < $k ==> has(t.colNamesMap, names[i]) && orderIndices[i] == t.colNamesMap[names[i]]
  inv forall i int :: {names[i]} 0 <= i < $k ==> has(t.colNamesMap, names[i]) && orderIndices[i] == t.colNamesMap[names[i]]
