func (t *Table) Name() (r)
  pure
  ensures r == (t == nil ? "" : t.tableName)

func (t *Table) ColCount() (r)
  pure
  ensures r == (t == nil ? -1 : len(t.colNames))

func (t *Table) RowCount() (r)
  pure
  ensures r == (t == nil ? -1 : len(t.rows))

func (t *Table) HasRow(r) (ok, err)
  ensures ok <==> t != nil && inrow(t, r)
  ensures (err == nil) <==> ok

func (t *Table) HasCol(name) (ok, err)
  requires t != nil ==> wfcols(t)
  ensures ok <==> t != nil && has(t.colNamesMap, name)
  ensures (err == nil) <==> ok

func (t *Table) HasColByColIndex(c) (ok, err)
  ensures ok <==> t != nil && incol(t, c)
  ensures (err == nil) <==> ok

func (t *Table) HasCell(name, r) (ok, err)
  requires t != nil ==> wfcols(t)
  ensures ok <==> t != nil && has(t.colNamesMap, name) && inrow(t, r)
  ensures (err == nil) <==> ok

func (t *Table) HasCellByColIndex(c, r) (ok, err)
  requires t != nil ==> wfcols(t) && wfshape(t)
  ensures ok <==> t != nil && incol(t, c) && inrow(t, r)
  ensures (err == nil) <==> ok

func (t *Table) ColType(name) (ct, err)
  requires t != nil ==> wfcols(t)
  ensures (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures err == nil ==> ct == t.colTypes[t.colNamesMap[name]]

func (t *Table) ColTypeByColIndex(c) (ct, err)
  requires t != nil ==> wfcols(t)
  ensures (err == nil) <==> t != nil && incol(t, c)
  ensures err == nil ==> ct == t.colTypes[c]

func (t *Table) ColIndex(name) (c, err)
  ensures (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures c == (err == nil ? t.colNamesMap[name] : -1)

func (t *Table) ColName(c) (name, err)
  ensures (err == nil) <==> t != nil && incol(t, c)
  ensures err == nil ==> name == t.colNames[c]

func (t *Table) ColNameByColIndex(c) (name, err)
  ensures (err == nil) <==> t != nil && incol(t, c)
  ensures err == nil ==> name == t.colNames[c]

func (t *Table) GetValByColIndex(c, r) (v, err)
  requires t != nil ==> wfcols(t) && wfshape(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && incol(t, c) && inrow(t, r)
  ensures err == nil ==> v == t.rows[r][c]
  ensures err != nil ==> v == nil

func (t *Table) GetVal(name, r) (v, err)
  requires t != nil ==> wfcols(t) && wfshape(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && has(t.colNamesMap, name) && inrow(t, r)
  ensures err == nil ==> v == t.rows[r][t.colNamesMap[name]]
  ensures err != nil ==> v == nil

func isAlias(a, b) (r)
  pure
  ensures r <==> a != b && aliasOf(a, b)
