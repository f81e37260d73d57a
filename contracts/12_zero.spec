// The zero value of each column type.
pred zerocell(ct string, v interface{}) = zeroval(ct, v) && (ct == "*Table" ==> as(v, *Table).isNilTable)
opaque zeroval(ct string, v interface{}) =
     ((ct == "[]byte" || ct == "[]uint8") ==> is(v, []byte) && len(as(v, []byte)) == 0 && as(v, []byte) != nil)
  && (ct == "bool" ==> v == box(false, bool))
  && ((ct == "byte" || ct == "uint8") ==> v == box(0, uint8))
  && (ct == "float32" ==> v == box(zero(float32), float32))
  && (ct == "float64" ==> v == box(zero(float64), float64))
  && (ct == "int" ==> v == box(0, int))
  && (ct == "int16" ==> v == box(0, int16))
  && ((ct == "int32" || ct == "rune") ==> v == box(0, int32))
  && (ct == "int64" ==> v == box(0, int64))
  && (ct == "int8" ==> v == box(0, int8))
  && (ct == "string" ==> v == box("", string))
  && (ct == "uint" ==> v == box(0, uint))
  && (ct == "uint16" ==> v == box(0, uint16))
  && (ct == "uint32" ==> v == box(0, uint32))
  && (ct == "uint64" ==> v == box(0, uint64))
  && (ct == "*Table" ==> is(v, *Table) && as(v, *Table) != nil)
  && (ct == "time.Time" ==> v == box(zero(time.Time), time.Time))

ginv zeroVal: zeroVal.byteSliceVal != nil && len(zeroVal.byteSliceVal) == 0 && zeroVal.uint8SliceVal != nil && len(zeroVal.uint8SliceVal) == 0
  && zeroVal.boolVal == false && zeroVal.byteVal == 0 && zeroVal.float32Val == zero(float32) && zeroVal.float64Val == zero(float64)
  && zeroVal.intVal == 0 && zeroVal.int16Val == 0 && zeroVal.int32Val == 0 && zeroVal.int64Val == 0 && zeroVal.int8Val == 0
  && zeroVal.runeVal == 0 && zeroVal.stringVal == "" && zeroVal.uintVal == 0 && zeroVal.uint16Val == 0 && zeroVal.uint32Val == 0
  && zeroVal.uint64Val == 0 && zeroVal.uint8Val == 0 && zeroVal.timeVal == zero(time.Time)

func NewNilTable() (t)
  ensures [fresh] t != nil && fresh(t) && wf(t)
  ensures [empty] len(t.colNames) == 0 && len(t.rows) == 0 && t.isNilTable && t.tableName == "" && len(t.sortKeys) == 0 && t.parentTable == nil && !t.isStructShape
  ensures [own] fresh(t.colNamesMap) && fresh(t.colNames) && fresh(t.colTypes) && fresh(t.rows) && cap(t.colNames) == 0 && cap(t.colTypes) == 0 && cap(t.rows) == 0

func (t *Table) SetCellToZeroValueByColIndex(c, r) (err)
  requires t != nil ==> wfcols(t) && wfshape(t) && wfown(t)
  modifies when(t != nil && incol(t, c) && inrow(t, r), elem(t.rows[r], c))
  ensures [iff] (err == nil) <==> t != nil && incol(t, c) && inrow(t, r)
  ensures [zero] err == nil ==> zerocell(t.colTypes[c], t.rows[r][c])
  ensures [wf] t != nil && old(wfcells(t) && wfkeys(t)) ==> wf(t)

func (t *Table) SetCellToZeroValue(name, r) (err)
  requires t != nil ==> wfcols(t) && wfshape(t) && wfown(t)
  modifies when(t != nil && has(t.colNamesMap, name) && inrow(t, r), elem(t.rows[r], t.colNamesMap[name]))
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name) && inrow(t, r)
  ensures [zero] err == nil ==> zerocell(t.colTypes[t.colNamesMap[name]], t.rows[r][t.colNamesMap[name]])
  ensures [wf] t != nil && old(wfcells(t) && wfkeys(t)) ==> wf(t)

func (t *Table) SetRowCellsToZeroValue(r) (err)
  requires t != nil ==> wfcols(t) && wfshape(t) && wfown(t)
  modifies when(t != nil && !t.isNilTable && inrow(t, r), elems(t.rows[r]))
  ensures [iff] (err == nil) <==> t != nil && !t.isNilTable && inrow(t, r)
  ensures [zero] err == nil ==> (forall c int :: {t.rows[r][c]} incol(t, c) ==> zerocell(t.colTypes[c], t.rows[r][c]))
  ensures [wf] t != nil && old(wfcells(t) && wfkeys(t)) ==> wf(t)
  inv forall c int :: {t.rows[r][c]} 0 <= c < $k ==> zerocell(t.colTypes[c], t.rows[r][c])

func (t *Table) SetColCellsToZeroValueByColIndex(c) (err)
  requires t != nil ==> wfcols(t) && wfshape(t) && wfown(t)
  modifies when(t != nil && incol(t, c), each(r, 0, len(t.rows), elem(t.rows[r], c)))
  ensures [iff] (err == nil) <==> t != nil && (len(t.rows) == 0 || incol(t, c))
  ensures [zero] err == nil ==> (forall r int :: {t.rows[r][c]} inrow(t, r) ==> zerocell(t.colTypes[c], t.rows[r][c]))
  ensures [wf] t != nil && old(wfcells(t) && wfkeys(t)) ==> wf(t)
  inv $k > 0 ==> incol(t, c)
  inv forall r int :: {t.rows[r][c]} 0 <= r < $k ==> zerocell(t.colTypes[c], t.rows[r][c])

func (t *Table) SetColCellsToZeroValue(name) (err)
  requires t != nil ==> wfcols(t) && wfshape(t) && wfown(t)
  modifies when(t != nil && has(t.colNamesMap, name), each(r, 0, len(t.rows), elem(t.rows[r], t.colNamesMap[name])))
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures [zero] err == nil ==> (forall r int :: {t.rows[r][t.colNamesMap[name]]} inrow(t, r) ==> zerocell(t.colTypes[t.colNamesMap[name]], t.rows[r][t.colNamesMap[name]]))
  ensures [wf] t != nil && old(wfcells(t) && wfkeys(t)) ==> wf(t)
