// Reading cells as text, checks of the table's own state and other accessors.

extern fmt.Sprintf(format, a) (s)
  pure
extern strings.Join(elems, sep) (s)
  pure
uf sprintf1(format str, v any) str
uf floattext(f float64, fmt int, prec int, bits int) str
uf bytetext(c int) str
uf nanosecs(t time.Time) int
uf timetext(t time.Time, layout str) str

extern strconv.FormatFloat(f, fmt, prec, bitSize) (s)
  pure
  ensures s == floattext(f, fmt, prec, bitSize)

ghost buftext(b *bytes.Buffer) str init ""

extern (b *bytes.Buffer) WriteString(s) (n, err)
  modifies ghost(buftext, b)
  ensures buftext(b) == old(buftext(b)) + s
extern (b *bytes.Buffer) WriteByte(c) (err)
  modifies ghost(buftext, b)
  ensures buftext(b) == old(buftext(b)) + bytetext(c)
extern (b *bytes.Buffer) String() (s)
  pure
  ensures s == buftext(b)
extern (t time.Time) Nanosecond() (n)
  pure
  ensures n == nanosecs(t)
extern (t time.Time) Format(layout) (s)
  pure
  ensures s == timetext(t, layout)

// The text of a cell (slices are left open: their text depends on their elements).
pred celltext(t *Table, c int, v any, s str) =
     (t.colTypes[c] == "string" ==> s == as(v, string))
  && (t.colTypes[c] == "bool" ==> s == sprintf1("%t", v))
  && (t.colTypes[c] == "rune" ==> s == sprintf1("%c", v))
  && (t.colTypes[c] == "byte" || t.colTypes[c] == "uint8" || t.colTypes[c] == "uint16" || t.colTypes[c] == "uint32" || t.colTypes[c] == "uint64" || t.colTypes[c] == "uint"
      || t.colTypes[c] == "int" || t.colTypes[c] == "int8" || t.colTypes[c] == "int16" || t.colTypes[c] == "int32" || t.colTypes[c] == "int64" ==> s == sprintf1("%d", v))
  && (t.colTypes[c] == "float64" ==> s == floattext(as(v, float64), 102, 0 - 1, 64))
  && (t.colTypes[c] == "float32" ==> s == floattext(f64of(as(v, float32)), 102, 0 - 1, 32))
  && (t.colTypes[c] == "time.Time" ==> s == timetext(as(v, time.Time), nanosecs(as(v, time.Time)) > 0 ? "2006-01-02T15:04:05.999999999Z07:00" : "2006-01-02T15:04:05Z07:00"))
  && (t.colTypes[c] == "*Table" && as(v, *Table) != nil ==> s == bytetext(91) + as(v, *Table).tableName + bytetext(93))

func (t *Table) lastRowIndex() (i, err)
  pure
  ensures (err == nil) <==> t != nil && len(t.rows) > 0
  ensures i == (t != nil && len(t.rows) > 0 ? len(t.rows) - 1 : 0 - 1)

func (t *Table) IsTableColByColIndex(c) (is, err)
  requires t != nil ==> wf(t)
  pure
  ensures (err == nil) <==> t != nil && incol(t, c)
  ensures is <==> err == nil && t.colTypes[c] == "*Table"

func (t *Table) IsTableCol(name) (is, err)
  requires t != nil ==> wf(t)
  pure
  ensures (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures is <==> err == nil && t.colTypes[t.colNamesMap[name]] == "*Table"

func (t *Table) GetValAsStringByColIndex(c, r) (s, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && incol(t, c) && inrow(t, r)
  ensures [text] err == nil ==> celltext(t, c, t.rows[r][c], s)

func (t *Table) GetValAsString(name, r) (s, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && has(t.colNamesMap, name) && inrow(t, r)
  ensures [text] err == nil ==> celltext(t, t.colNamesMap[name], t.rows[r][t.colNamesMap[name]], s)

func (t *Table) GetColValsAsStrings(name) (s, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && (len(t.rows) == 0 || has(t.colNamesMap, name))
  ensures err == nil ==> len(s) == len(t.rows)
  ensures [text] err == nil ==> forall i int :: {s[i]} 0 <= i < len(t.rows) ==> celltext(t, t.colNamesMap[name], t.rows[i][t.colNamesMap[name]], s[i])
  inv forall i int :: {sVals[i]} 0 <= i < $k ==> celltext(t, t.colNamesMap[name], t.rows[i][t.colNamesMap[name]], sVals[i])
  ensures err != nil ==> s == nil
  inv $k > 0 ==> has(t.colNamesMap, name)
  inv $k <= len(t.rows)
  inv len(sVals) == len(t.rows)

func (t *Table) JoinColVals(name, sep) (s, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && (len(t.rows) == 0 || has(t.colNamesMap, name))

func (t *Table) JoinColValsByColIndex(c, sep) (s, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && !t.isNilTable && incol(t, c)

func (t *Table) RowByRowIndex(r) (row, err)
  pure
  ensures (err == nil) <==> t != nil
  ensures err == nil ==> row.Table == t && row.RowIndex == r

func (t *Table) IsValidRow(r) (ok, err)
  requires t != nil ==> wf(t)
  pure
  ensures ok <==> err == nil
  ensures ok <==> t != nil && inrow(t, r)

func (t *Table) isValidColNamesMap() (ok, err)
  requires t != nil ==> wf(t) && len(t.colNamesMap) <= len(t.colNames)
  pure
  ensures ok <==> err == nil
  ensures ok <==> t != nil

func (t *Table) IsValidTable() (ok, err)
  requires t != nil ==> wf(t)
  modifies allof(Table.depth)
  ensures ok <==> err == nil
  ensures t == nil ==> !ok
  ensures ok ==> validName(t.tableName)
