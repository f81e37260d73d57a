// Two tables share no storage (or are the same table).
pred sep(t, u *Table) = t == u || (t.colNamesMap != u.colNamesMap
  && (arr(t.colNames) != 0 ==> arr(t.colNames) != arr(u.colNames) && arr(t.colNames) != arr(u.colTypes))
  && (arr(t.colTypes) != 0 ==> arr(t.colTypes) != arr(u.colNames) && arr(t.colTypes) != arr(u.colTypes))
  && (arr(t.rows) != 0 ==> arr(t.rows) != arr(u.rows))
  && (forall r, q int :: {t.rows[r], u.rows[q]} inrow(t, r) && inrow(u, q) && cap(t.rows[r]) > 0 && cap(u.rows[q]) > 0 ==> arr(t.rows[r]) != arr(u.rows[q])))

// every part of the table was allocated during the call
pred freshtable(t *Table) = fresh(t) && fresh(t.colNamesMap) && fresh(t.colNames) && fresh(t.colTypes) && fresh(t.rows)
  && (forall r int :: {t.rows[r]} inrow(t, r) ==> fresh(t.rows[r]))

func (t *Table) GetColInfoAsSlices() (names, tys, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> t != nil && !t.isNilTable
  ensures [len] err == nil ==> len(names) == len(t.colNames) && len(tys) == len(t.colNames) && fresh(names) && fresh(tys)
  ensures [names] err == nil ==> (forall i int :: {names[i]} 0 <= i < len(names) ==> names[i] == t.colNames[i])
  ensures [types] err == nil ==> (forall i int :: {tys[i]} 0 <= i < len(tys) ==> tys[i] == t.colTypes[i])
  ensures [nil] err != nil ==> names == nil && tys == nil
  inv $k <= len(t.colNames)
  inv arr(colNames) != arr(colTypes)
  inv len(colNames) == $k && len(colTypes) == $k
  inv forall i int :: {colNames[i]} 0 <= i < $k ==> colNames[i] == t.colNames[i]
  inv forall i int :: {colTypes[i]} 0 <= i < $k ==> colTypes[i] == t.colTypes[i]

func (t *Table) GetColInfoAsTable() (u, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> t != nil && !t.isNilTable
  ensures [nil] err != nil ==> u == nil
  ensures [new] err == nil ==> u != nil && wf(u) && freshtable(u) && !u.isNilTable && len(u.rows) == len(t.colNames)
  ensures [cols] err == nil ==> len(u.colNames) == 3 && u.colNames[0] == "index" && u.colNames[1] == "colName" && u.colNames[2] == "colType"
     && u.colTypes[0] == "int" && u.colTypes[1] == "string" && u.colTypes[2] == "string"
  ensures [cells] err == nil ==> (forall r int :: {u.rows[r]} inrow(u, r) ==> u.rows[r][0] == box(r, int) && u.rows[r][1] == box(t.colNames[r], string) && u.rows[r][2] == box(t.colTypes[r], string))
  inv $k <= len(t.colNames)
  inv wf(colsTable) && freshtable(colsTable) && !colsTable.isNilTable && len(colsTable.rows) == $k
  inv colsTable.colNames[0] == "index" && colsTable.colNames[1] == "colName" && colsTable.colNames[2] == "colType"
  inv colsTable.colTypes[0] == "int" && colsTable.colTypes[1] == "string" && colsTable.colTypes[2] == "string"
  inv len(colsTable.colNames) == 3
  inv forall r int :: {colsTable.rows[r]} 0 <= r < $k ==> colsTable.rows[r][0] == box(r, int) && colsTable.rows[r][1] == box(t.colNames[r], string) && colsTable.rows[r][2] == box(t.colTypes[r], string)

pred bothtables(t, u *Table) = t != nil && u != nil && !t.isNilTable && !u.isNilTable
// columns of one name have one type
pred colscompat(t, u *Table) = forall i int :: {u.colNames[i]} incol(u, i) && has(t.colNamesMap, u.colNames[i]) ==> t.colTypes[t.colNamesMap[u.colNames[i]]] == u.colTypes[i]

func (t *Table) AppendColsFromTable(u) (err)
  requires t != nil ==> wf(t)
  requires u != nil ==> wf(u)
  requires t != nil && u != nil ==> sep(t, u)
  modifies when(bothtables(t, u), t.colNames), when(bothtables(t, u), t.colTypes), when(bothtables(t, u), mapof(t.colNamesMap)),
           when(bothtables(t, u), spare(t.colNames)), when(bothtables(t, u), spare(t.colTypes)),
           when(bothtables(t, u), elems(t.rows)), when(bothtables(t, u), each(r, 0, len(t.rows), spare(t.rows[r])))
  ensures [iff] (err == nil) <==> bothtables(t, u) && old(colscompat(t, u))
  ensures [rows] t != nil ==> len(t.rows) == old(len(t.rows))
  ensures [keep] t != nil ==> len(t.colNames) >= old(len(t.colNames)) && (forall i int :: {t.colNames[i]} 0 <= i < old(len(t.colNames)) ==> t.colNames[i] == old(t.colNames[i]) && t.colTypes[i] == old(t.colTypes[i]))
  ensures [cells] t != nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && 0 <= i < old(len(t.colNames)) ==> t.rows[r][i] == old(t.rows[r][i]))
  ensures [zero] t != nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && old(len(t.colNames)) <= i < len(t.colNames) ==> zerocell(t.colTypes[i], t.rows[r][i]))
  ensures [has] err == nil ==> (forall j int :: {u.colNames[j]} incol(u, j) ==> has(t.colNamesMap, u.colNames[j]) && t.colTypes[t.colNamesMap[u.colNames[j]]] == u.colTypes[j])
  ensures [only] err == nil ==> (forall i int :: {t.colNames[i]} old(len(t.colNames)) <= i < len(t.colNames) ==> has(u.colNamesMap, t.colNames[i]))
  ensures [order] err == nil ==> (forall i, j int :: {t.colNames[i], t.colNames[j]} old(len(t.colNames)) <= i < j < len(t.colNames) ==> u.colNamesMap[t.colNames[i]] < u.colNamesMap[t.colNames[j]])
  ensures [whole] err == nil && old(len(t.colNames)) == 0 ==> len(t.colNames) == len(u.colNames) && (forall i int :: {t.colNames[i]} {t.colTypes[i]} incol(t, i) ==> t.colNames[i] == u.colNames[i] && t.colTypes[i] == u.colTypes[i])
  ensures [own] t != nil ==> (fresh(t.colNames) || samebase(t.colNames, old(t.colNames))) && (fresh(t.colTypes) || samebase(t.colTypes, old(t.colTypes)))
     && (forall r int :: {t.rows[r]} inrow(t, r) ==> fresh(t.rows[r]) || samebase(t.rows[r], old(t.rows[r])))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv wf(u)
  inv sep(t, u)
  inv wf(colsTable)
  inv freshtable(colsTable)
  inv sep(t, colsTable)
  inv len(colsTable.rows) == old(len(u.colNames))
  inv forall r int :: {colsTable.rows[r]} inrow(colsTable, r) ==> colsTable.rows[r][0] == box(r, int) && colsTable.rows[r][1] == box(old(u.colNames[r]), string) && colsTable.rows[r][2] == box(old(u.colTypes[r]), string)
  inv len(colsTable.colNames) == 3 && colsTable.colNames[0] == "index" && colsTable.colNames[1] == "colName" && colsTable.colNames[2] == "colType" && colsTable.colTypes[0] == "int" && colsTable.colTypes[1] == "string" && colsTable.colTypes[2] == "string" && !colsTable.isNilTable
  inv $k <= len(u.colNames)
  inv len(u.colNames) == old(len(u.colNames))
  inv forall j int :: {u.colNames[j]} {old(u.colNames[j])} incol(u, j) ==> u.colNames[j] == old(u.colNames[j])
  inv forall j int :: {u.colTypes[j]} {old(u.colTypes[j])} incol(u, j) ==> u.colTypes[j] == old(u.colTypes[j])
  inv forall s string :: {has(u.colNamesMap, s)} {old(has(u.colNamesMap, s))} has(u.colNamesMap, s) == old(has(u.colNamesMap, s)) && u.colNamesMap[s] == old(u.colNamesMap[s])
  inv len(t.rows) == old(len(t.rows)) && len(t.colNames) >= old(len(t.colNames))
  inv (fresh(t.colNames) || samebase(t.colNames, old(t.colNames))) && (fresh(t.colTypes) || samebase(t.colTypes, old(t.colTypes)))
  inv forall r int :: {t.rows[r]} inrow(t, r) ==> fresh(t.rows[r]) || samebase(t.rows[r], old(t.rows[r]))
  inv forall i int :: {t.colNames[i]} 0 <= i < old(len(t.colNames)) ==> t.colNames[i] == old(t.colNames[i]) && t.colTypes[i] == old(t.colTypes[i])
  inv forall r, i int :: {t.rows[r][i]} inrow(t, r) && 0 <= i < old(len(t.colNames)) ==> t.rows[r][i] == old(t.rows[r][i])
  inv forall r, i int :: {t.rows[r][i]} inrow(t, r) && old(len(t.colNames)) <= i < len(t.colNames) ==> zerocell(t.colTypes[i], t.rows[r][i])
  inv forall j int :: {u.colNames[j]} 0 <= j < $k ==> has(t.colNamesMap, u.colNames[j]) && t.colTypes[t.colNamesMap[u.colNames[j]]] == u.colTypes[j]
  inv forall i int :: {t.colNames[i]} old(len(t.colNames)) <= i < len(t.colNames) ==> has(u.colNamesMap, t.colNames[i]) && u.colNamesMap[t.colNames[i]] < $k
  inv forall i, j int :: {t.colNames[i], t.colNames[j]} old(len(t.colNames)) <= i < j < len(t.colNames) ==> u.colNamesMap[t.colNames[i]] < u.colNamesMap[t.colNames[j]]
  inv old(len(t.colNames)) == 0 ==> len(t.colNames) == $k && (forall i int :: {t.colNames[i]} incol(t, i) ==> t.colNames[i] == u.colNames[i] && t.colTypes[i] == u.colTypes[i])
  inv forall s string :: {has(t.colNamesMap, s)} old(has(t.colNamesMap, s)) ==> has(t.colNamesMap, s) && t.colNamesMap[s] == old(t.colNamesMap[s])

// the cell of row r (of the appended rows, the first being row n) in column i comes from row a + (r - n) of u
pred copiedcell(t, u *Table, r, i, q, k int) = (has(u.colNamesMap, t.colNames[i]) && u.colNamesMap[t.colNames[i]] < k
   ? t.rows[r][i] == u.rows[q][u.colNamesMap[t.colNames[i]]] : zerocell(t.colTypes[i], t.rows[r][i]))

func (t *Table) AppendRowsFromTable(u, a, b) (err)
  requires t != nil ==> wf(t)
  requires u != nil ==> wf(u)
  requires t != nil && u != nil ==> sep(t, u)
  modifies when(bothtables(t, u), t.rows), when(bothtables(t, u), each(i, len(t.rows), cap(t.rows), elem(t.rows, i)))
  ensures [bad] !bothtables(t, u) ==> err != nil
  ensures [range] err == nil && a <= b ==> 0 <= a && b < old(len(u.rows))
  ensures [count] err == nil ==> len(t.rows) == old(len(t.rows)) + (a <= b ? b - a + 1 : 0)
  ensures [keep] t != nil ==> len(t.rows) >= old(len(t.rows)) && (forall r int :: {t.rows[r]} 0 <= r < old(len(t.rows)) ==> t.rows[r] == old(t.rows[r]))
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} old(len(t.rows)) <= r < len(t.rows) && incol(t, i) ==> copiedcell(t, u, r, i, a + r - old(len(t.rows)), len(u.colNames)))
  ensures [has] err == nil && a <= b ==> (forall j int :: {u.colNames[j]} incol(u, j) ==> has(t.colNamesMap, u.colNames[j]))
  ensures [fail] bothtables(t, u) && a <= b && (a < 0 || b >= old(len(u.rows))) ==> len(t.rows) == old(len(t.rows))
  ensures [empty] bothtables(t, u) && a > b ==> err == nil
  ensures [ok] bothtables(t, u) && t != u && 0 <= a && b < len(u.rows)
     && (forall j int :: {u.colNames[j]} incol(u, j) ==> has(t.colNamesMap, u.colNames[j]) && u.colTypes[j] == t.colTypes[t.colNamesMap[u.colNames[j]]] && u.colTypes[j] != "*Table") ==> err == nil
  ensures [new] t != nil ==> (forall r int :: {t.rows[r]} old(len(t.rows)) <= r < len(t.rows) ==> fresh(t.rows[r]))
  ensures [backing] t != nil ==> fresh(t.rows) || arr(t.rows) == old(arr(t.rows)) && cap(t.rows) == old(cap(t.rows)) && off(t.rows) == old(off(t.rows))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv wf(u)
  inv sep(t, u)
  inv0 $k <= (a <= b ? b - a + 1 : 0)
  inv1 $k0 < b - a + 1
  inv1 $k <= len(u.colNames)
  inv0 len(t.rows) == old(len(t.rows)) + $k
  inv1 len(t.rows) == old(len(t.rows)) + $k0 + 1
  inv fresh(t.rows) || arr(t.rows) == old(arr(t.rows)) && cap(t.rows) == old(cap(t.rows)) && off(t.rows) == old(off(t.rows))
  inv forall r int :: {t.rows[r]} 0 <= r < old(len(t.rows)) ==> t.rows[r] == old(t.rows[r])
  inv forall r int :: {t.rows[r]} old(len(t.rows)) <= r < len(t.rows) ==> fresh(t.rows[r])
  inv0 forall r, i int :: {t.rows[r][i]} old(len(t.rows)) <= r < old(len(t.rows)) + $k && incol(t, i) ==> copiedcell(t, u, r, i, a + r - old(len(t.rows)), len(u.colNames))
  inv1 forall r, i int :: {t.rows[r][i]} old(len(t.rows)) <= r < old(len(t.rows)) + $k0 && incol(t, i) ==> copiedcell(t, u, r, i, a + r - old(len(t.rows)), len(u.colNames))
  inv1 forall i int :: {t.rows[old(len(t.rows)) + $k0][i]} incol(t, i) ==> copiedcell(t, u, old(len(t.rows)) + $k0, i, a + $k0, $k)
  inv a <= b ==> 0 <= a && b < old(len(u.rows))
  inv len(u.rows) >= old(len(u.rows))
  inv0 $k > 0 ==> (forall j int :: {u.colNames[j]} incol(u, j) ==> has(t.colNamesMap, u.colNames[j]))
  inv1 $k0 > 0 ==> (forall j int :: {u.colNames[j]} incol(u, j) ==> has(t.colNamesMap, u.colNames[j]))
  inv1 forall j int :: {u.colNames[j]} 0 <= j < $k ==> has(t.colNamesMap, u.colNames[j])

pred notables(t *Table) = forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] != "*Table"
pred samecols(t, u *Table) = len(t.colNames) == len(u.colNames) && len(t.colTypes) == len(u.colTypes)
  && (forall i int :: {t.colNames[i]} {u.colNames[i]} incol(t, i) ==> t.colNames[i] == u.colNames[i])
  && (forall i int :: {t.colTypes[i]} {u.colTypes[i]} incol(t, i) ==> t.colTypes[i] == u.colTypes[i])

func (t *Table) NewTableFromRows(name, a, b) (u, err)
  requires t != nil ==> wf(t)
  ensures [bad] t == nil || t.isNilTable || !validName(name) ==> err != nil
  ensures [range] err == nil && a <= b ==> 0 <= a && b < len(t.rows)
  ensures [ok] t != nil && !t.isNilTable && validName(name) && (a > b || 0 <= a && b < len(t.rows)) && notables(t) ==> err == nil
  ensures [nil] err != nil ==> u == nil
  ensures [new] err == nil ==> u != nil && wf(u) && freshtable(u) && u.tableName == name && !u.isNilTable
  ensures [cols] err == nil ==> samecols(u, t)
  ensures [count] err == nil ==> len(u.rows) == (a <= b ? b - a + 1 : 0)
  ensures [cells] err == nil ==> (forall r, i int :: {u.rows[r][i]} inrow(u, r) && incol(u, i) ==> u.rows[r][i] == t.rows[a + r][i])
  ensures [sep] err == nil ==> sep(u, t)

func (t *Table) HasCircularReference() (circular, err)
  requires t != nil ==> wf(t)
  modifies allof(Table.depth)
  ensures [err] circular ==> err != nil
  ensures [tree] !circular && t != nil ==> tree(t)
  ensures [flat] t != nil && notables(t) ==> !circular && err == nil

func (t *Table) CopyCols() (u, err)
  requires t != nil ==> wf(t)
  modifies allof(Table.depth)
  ensures [bad] t == nil || t.isNilTable || !validName(t.tableName) ==> err != nil
  ensures [ok] t != nil && !t.isNilTable && validName(t.tableName) && notables(t) ==> err == nil
  ensures [nil] err != nil ==> u == nil
  ensures [new] err == nil ==> u != nil && wf(u) && freshtable(u) && u.tableName == t.tableName && !u.isNilTable
  ensures [cols] err == nil ==> samecols(u, t)
  ensures [rows] err == nil ==> len(u.rows) == 0
  ensures [sep] err == nil ==> sep(u, t)

func (t *Table) Copy() (u, err)
  requires t != nil ==> wf(t)
  modifies allof(Table.depth)
  ensures [bad] t == nil || t.isNilTable || !validName(t.tableName) ==> err != nil
  ensures [ok] t != nil && !t.isNilTable && validName(t.tableName) && notables(t) ==> err == nil
  ensures [nil] err != nil ==> u == nil
  ensures [new] err == nil ==> u != nil && wf(u) && freshtable(u) && u.tableName == t.tableName && !u.isNilTable
  ensures [cols] err == nil ==> samecols(u, t)
  ensures [count] err == nil ==> len(u.rows) == len(t.rows)
  ensures [cells] err == nil ==> (forall r, i int :: {u.rows[r][i]} inrow(u, r) && incol(u, i) ==> u.rows[r][i] == t.rows[r][i])
  ensures [sep] err == nil ==> sep(u, t)

pred samecells(t, u *Table) = forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> t.rows[r][i] == u.rows[r][i]
pred copyof(t, u *Table) = wf(t) && t.tableName == u.tableName && !t.isNilTable && samecols(t, u) && len(t.rows) == len(u.rows) && samecells(t, u)

func (s *TableSet) Copy() (c, err)
  requires s != nil ==> wfs(s)
  requires s != nil ==> (forall i int :: {s.tables[i]} intab(s, i) ==> wf(s.tables[i]))
  modifies allof(Table.depth)
  ensures [bad] s == nil ==> err != nil
  ensures [ok] s != nil && (forall i int :: {s.tables[i]} intab(s, i) ==> !s.tables[i].isNilTable && validName(s.tables[i].tableName) && notables(s.tables[i])) ==> err == nil
  ensures [nil] err != nil ==> c == nil
  ensures [new] err == nil ==> fresh(c) && wfs(c) && c.tableSetName == s.tableSetName && c.fileName == s.fileName && len(c.tables) == len(s.tables)
  ensures [own] err == nil ==> fresh(c.tables) && (forall i int :: {c.tables[i]} intab(c, i) ==> freshtable(c.tables[i]))
  ensures [copies] err == nil ==> (forall i int :: {c.tables[i]} intab(c, i) ==> copyof(c.tables[i], s.tables[i]))
  inv $k <= len(s.tables)
  inv wfs(tableSetCopy)
  inv fresh(tableSetCopy) && fresh(tableSetCopy.tables) && tableSetCopy.tableSetName == s.tableSetName && tableSetCopy.fileName == s.fileName
  inv len(tableSetCopy.tables) == $k
  inv forall i int :: {tableSetCopy.tables[i]} 0 <= i < $k ==> freshtable(tableSetCopy.tables[i])
  inv forall i int :: {tableSetCopy.tables[i]} 0 <= i < $k ==> wf(tableSetCopy.tables[i])
  inv forall i int :: {tableSetCopy.tables[i]} 0 <= i < $k ==> tableSetCopy.tables[i].tableName == s.tables[i].tableName
  inv forall i int :: {tableSetCopy.tables[i]} 0 <= i < $k ==> copyof(tableSetCopy.tables[i], s.tables[i])
