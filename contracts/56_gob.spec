// Binary export: the exported form of a table, and the table made from it. encoding/gob itself
// (bytes to exported form and back) is assumed to return what it was given.

pred wfxcols(x *TableExported) =
     len(x.ColNames) == len(x.ColTypes)
  && x.ColNamesMap != nil
  && (forall i int :: {x.ColNames[i]} 0 <= i < len(x.ColNames) ==> has(x.ColNamesMap, x.ColNames[i]) && x.ColNamesMap[x.ColNames[i]] == i)
  && (forall s str :: {has(x.ColNamesMap, s)} has(x.ColNamesMap, s) ==> 0 <= x.ColNamesMap[s] < len(x.ColNames) && x.ColNames[x.ColNamesMap[s]] == s)
  && (forall i int :: {x.ColTypes[i]} 0 <= i < len(x.ColTypes) ==> validType(x.ColTypes[i]))
  && (forall i int :: {x.ColNames[i]} 0 <= i < len(x.ColNames) ==> validName(x.ColNames[i]))
pred wfxrows(x *TableExported) =
     (forall r int :: {x.Rows[r]} 0 <= r < len(x.Rows) ==> len(x.Rows[r]) == len(x.ColNames))
  && (forall r, q int :: {x.Rows[r], x.Rows[q]} 0 <= r < q < len(x.Rows) && cap(x.Rows[r]) > 0 && cap(x.Rows[q]) > 0 ==> arr(x.Rows[r]) != arr(x.Rows[q]))
  && (forall r, c int :: {x.Rows[r][c]} 0 <= r < len(x.Rows) && 0 <= c < len(x.ColTypes) ==> cellok(x.ColTypes[c], x.Rows[r][c]))
pred wfxkeys(x *TableExported) = forall j int :: {x.SortKeys[j]} 0 <= j < len(x.SortKeys) ==>
     has(x.ColNamesMap, x.SortKeys[j].ColName) && x.SortKeys[j].ColType == x.ColTypes[x.ColNamesMap[x.SortKeys[j].ColName]] && sortable(x.SortKeys[j].ColType)
pred wfx(x *TableExported) = wfxcols(x) && wfxrows(x) && wfxkeys(x)

func (x *TableExported) setTableNameExported(name) (err)
  requires x != nil
  modifies x.TableName
  ensures (err == nil) <==> validName(name)
  ensures err == nil ==> x.TableName == name
  ensures err != nil ==> x.TableName == old(x.TableName)

func newTableExported(name) (x, err)
  ensures (err == nil) <==> validName(name)
  ensures err == nil ==> fresh(x) && x.TableName == name && !x.IsNilTable && !x.StructShape && x.ParentTable == nil
  ensures err != nil ==> x == nil

func (t *Table) exportTable() (x, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> t != nil && validName(t.tableName)
  ensures [nil] err != nil ==> x == nil
  ensures [new] err == nil ==> fresh(x) && x.TableName == t.tableName && x.StructShape == t.isStructShape
  ensures [names] err == nil ==> len(x.ColNames) == len(t.colNames) && (forall i int :: {x.ColNames[i]} incol(t, i) ==> x.ColNames[i] == t.colNames[i])
  ensures [types] err == nil ==> len(x.ColTypes) == len(t.colTypes) && (forall i int :: {x.ColTypes[i]} incol(t, i) ==> x.ColTypes[i] == t.colTypes[i])
  ensures [map] err == nil ==> x.ColNamesMap != nil && (forall s str :: {has(x.ColNamesMap, s)} has(x.ColNamesMap, s) <==> has(t.colNamesMap, s))
     && (forall s str :: {x.ColNamesMap[s]} has(t.colNamesMap, s) ==> x.ColNamesMap[s] == t.colNamesMap[s])
  ensures [rows] err == nil ==> len(x.Rows) == len(t.rows) && (forall r int :: {x.Rows[r]} inrow(t, r) ==> x.Rows[r] == t.rows[r])
  ensures [keys] err == nil ==> len(x.SortKeys) == len(t.sortKeys) && (forall j int :: {x.SortKeys[j]} 0 <= j < len(t.sortKeys) ==>
     x.SortKeys[j].ColName == t.sortKeys[j].colName && x.SortKeys[j].ColType == t.sortKeys[j].colType && x.SortKeys[j].Reverse == t.sortKeys[j].reverse)
  ensures [wf] err == nil ==> wfx(x)
  inv fresh(tableExported) && tableExported.TableName == t.tableName
  inv fresh(tableExported.ColNamesMap)
  inv len(tableExported.ColNames) == len(t.colNames) && (forall i int :: {tableExported.ColNames[i]} incol(t, i) ==> tableExported.ColNames[i] == t.colNames[i])
  inv len(tableExported.ColTypes) == len(t.colTypes) && (forall i int :: {tableExported.ColTypes[i]} incol(t, i) ==> tableExported.ColTypes[i] == t.colTypes[i])
  inv len(tableExported.ColNames) == len(t.colNames)
  inv len(tableExported.ColTypes) == len(t.colTypes)
  inv len(tableExported.Rows) == len(t.rows)
  inv forall i int :: {tableExported.ColNames[i]} 0 <= i < $k && incol(t, i) ==> tableExported.ColNames[i] == t.colNames[i]
  inv forall i int :: {tableExported.ColTypes[i]} 0 <= i < $k && incol(t, i) ==> tableExported.ColTypes[i] == t.colTypes[i]
  inv forall r int :: {tableExported.Rows[r]} 0 <= r < $k && inrow(t, r) ==> tableExported.Rows[r] == t.rows[r]
  inv forall s str :: {has(tableExported.ColNamesMap, s)} has(tableExported.ColNamesMap, s) ==> has(t.colNamesMap, s) && tableExported.ColNamesMap[s] == t.colNamesMap[s]
  inv forall s str :: {has(t.colNamesMap, s)} seen(s) && has(t.colNamesMap, s) ==> has(tableExported.ColNamesMap, s)
  inv forall r int :: {tableExported.Rows[r]} inrow(t, r) ==> tableExported.Rows[r] == t.rows[r]
  inv forall j int :: {tableExported.SortKeys[j]} 0 <= j < len(tableExported.SortKeys) && j < $k ==>
     tableExported.SortKeys[j].ColName == t.sortKeys[j].colName && tableExported.SortKeys[j].ColType == t.sortKeys[j].colType && tableExported.SortKeys[j].Reverse == t.sortKeys[j].reverse

func (x *TableExported) importTable() (t, err)
  requires x != nil ==> wfx(x)
  modifies allof(Table.depth)
  ensures [bad] x == nil || !validName(x.TableName) ==> err != nil
  ensures [nil] err != nil ==> t == nil
  ensures [new] err == nil ==> fresh(t) && wf(t) && t.tableName == x.TableName && t.isStructShape == x.StructShape && !t.isNilTable
  ensures [names] err == nil ==> len(t.colNames) == len(x.ColNames) && (forall i int :: {t.colNames[i]} incol(t, i) ==> t.colNames[i] == x.ColNames[i])
  ensures [types] err == nil ==> len(t.colTypes) == len(x.ColTypes) && (forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] == x.ColTypes[i])
  ensures [rows] err == nil ==> len(t.rows) == len(x.Rows) && (forall r int :: {t.rows[r]} inrow(t, r) ==> t.rows[r] == x.Rows[r])
  ensures [keys] err == nil ==> len(t.sortKeys) == len(x.SortKeys) && (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==>
     t.sortKeys[j].colName == x.SortKeys[j].ColName && t.sortKeys[j].colType == x.SortKeys[j].ColType && t.sortKeys[j].reverse == x.SortKeys[j].Reverse)
  inv fresh(table) && table.tableName == x.TableName && !table.isNilTable && fresh(table.colNamesMap) && fresh(table.colNames) && fresh(table.colTypes)
  inv len(table.colNames) == len(x.ColNames) && (forall i int :: {table.colNames[i]} incol(table, i) ==> table.colNames[i] == x.ColNames[i])
  inv len(table.colTypes) == len(x.ColTypes) && (forall i int :: {table.colTypes[i]} 0 <= i < len(table.colTypes) ==> table.colTypes[i] == x.ColTypes[i])
  inv forall i int :: {table.colNames[i]} 0 <= i < $k && i < len(table.colNames) ==> table.colNames[i] == x.ColNames[i]
  inv len(table.colTypes) == len(x.ColTypes)
  inv forall i int :: {table.colTypes[i]} 0 <= i < $k && i < len(table.colTypes) ==> table.colTypes[i] == x.ColTypes[i]
  inv forall r int :: {table.rows[r]} 0 <= r < $k && r < len(table.rows) ==> table.rows[r] == x.Rows[r]
  inv forall s str :: {has(table.colNamesMap, s)} has(table.colNamesMap, s) ==> has(x.ColNamesMap, s) && table.colNamesMap[s] == x.ColNamesMap[s]
  inv forall s str :: {has(x.ColNamesMap, s)} seen(s) && has(x.ColNamesMap, s) ==> has(table.colNamesMap, s)
  inv forall r int :: {table.rows[r]} inrow(table, r) ==> table.rows[r] == x.Rows[r]
  inv forall j int :: {table.sortKeys[j]} 0 <= j < len(table.sortKeys) && j < $k ==>
     table.sortKeys[j].colName == x.SortKeys[j].ColName && table.sortKeys[j].colType == x.SortKeys[j].ColType && table.sortKeys[j].reverse == x.SortKeys[j].Reverse
  inv forall j int :: {table.sortKeys[j]} 0 <= j < len(table.sortKeys) && j < $k && sortable(x.SortKeys[j].ColType) ==> table.sortKeys[j].sortFunc == compareFuncs[x.SortKeys[j].ColType]
