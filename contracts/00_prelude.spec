// Predicates shared by every contract.

opaque validType(s string) = s == "[]byte" || s == "[]uint8" || s == "bool" || s == "byte" || s == "float32" || s == "float64"
  || s == "int" || s == "int16" || s == "int32" || s == "int64" || s == "int8" || s == "rune" || s == "string"
  || s == "uint" || s == "uint16" || s == "uint32" || s == "uint64" || s == "uint8" || s == "*Table" || s == "time.Time"

// canonical Go type behind a column type name
pred aliasOf(s, t string) = s == t || (s == "uint8" && t == "byte") || (s == "byte" && t == "uint8")
  || (s == "[]uint8" && t == "[]byte") || (s == "[]byte" && t == "[]uint8") || (s == "int32" && t == "rune") || (s == "rune" && t == "int32")

opaque tabptr(v interface{}) = is(v, *Table) && as(v, *Table) != nil
opaque cellok(ct string, v interface{}) =
     ((ct == "[]byte" || ct == "[]uint8") ==> is(v, []byte))
  && (ct == "bool" ==> is(v, bool))
  && ((ct == "byte" || ct == "uint8") ==> is(v, uint8))
  && (ct == "float32" ==> is(v, float32))
  && (ct == "float64" ==> is(v, float64))
  && (ct == "int" ==> is(v, int))
  && (ct == "int16" ==> is(v, int16))
  && ((ct == "int32" || ct == "rune") ==> is(v, int32))
  && (ct == "int64" ==> is(v, int64))
  && (ct == "int8" ==> is(v, int8))
  && (ct == "string" ==> is(v, string))
  && (ct == "uint" ==> is(v, uint))
  && (ct == "uint16" ==> is(v, uint16))
  && (ct == "uint32" ==> is(v, uint32))
  && (ct == "uint64" ==> is(v, uint64))
  && (ct == "*Table" ==> tabptr(v))
  && (ct == "time.Time" ==> is(v, time.Time))

// column bookkeeping: parallel slices, and the name map is exactly the inverse of colNames
pred wfcols(t *Table) =
     len(t.colNames) == len(t.colTypes)
  && t.colNamesMap != nil
  && (forall i int :: {t.colNames[i]} 0 <= i < len(t.colNames) ==> has(t.colNamesMap, t.colNames[i]) && t.colNamesMap[t.colNames[i]] == i)
  && (forall s str :: {has(t.colNamesMap, s)} has(t.colNamesMap, s) ==> 0 <= t.colNamesMap[s] < len(t.colNames) && t.colNames[t.colNamesMap[s]] == s)
  && (forall i int :: {t.colTypes[i]} 0 <= i < len(t.colTypes) ==> validType(t.colTypes[i]))
  && (forall i int :: {t.colNames[i]} 0 <= i < len(t.colNames) ==> validName(t.colNames[i]))
  && (arr(t.colNames) != 0 ==> arr(t.colNames) != arr(t.colTypes))

// every row has one cell per column
pred wfshape(t *Table) =
     (forall r int :: {t.rows[r]} 0 <= r < len(t.rows) ==> len(t.rows[r]) == len(t.colNames))
  && (t.isNilTable ==> len(t.rows) == 0)

// rows do not share cells
pred wfown(t *Table) =
     (forall r, q int :: {t.rows[r], t.rows[q]} 0 <= r < q < len(t.rows) && cap(t.rows[r]) > 0 && cap(t.rows[q]) > 0 ==> arr(t.rows[r]) != arr(t.rows[q]))

pred wfcells(t *Table) =
     (forall r, c int :: {t.rows[r][c]} 0 <= r < len(t.rows) && 0 <= c < len(t.colTypes) ==> cellok(t.colTypes[c], t.rows[r][c]))

// column types that have an order
opaque sortable(s string) = s == "bool" || s == "float32" || s == "float64" || s == "int" || s == "int16" || s == "int32" || s == "int64" || s == "int8"
  || s == "string" || s == "uint" || s == "uint16" || s == "uint32" || s == "uint64" || s == "uint8"

// every sort key is on an existing column of an ordered type and carries that type's comparison
pred keyok(t *Table, k sortKey) = has(t.colNamesMap, k.colName) && k.colType == t.colTypes[t.colNamesMap[k.colName]] && sortable(k.colType) && k.sortFunc == compareFuncs[k.colType]
pred wfkeys(t *Table) = (forall j int :: {t.sortKeys[j]} 0 <= j < len(t.sortKeys) ==> keyok(t, t.sortKeys[j]))

pred wf(t *Table) = wfcols(t) && wfshape(t) && wfown(t) && wfcells(t) && wfkeys(t)

pred inrow(t *Table, r int) = 0 <= r < len(t.rows)
pred incol(t *Table, c int) = 0 <= c < len(t.colNames)

// ---- assumed contracts of the standard library ----
extern fmt.Errorf(format, a) (err)
  pure
  ensures err != nil
extern errors.New(s) (err)
  pure
  ensures err != nil

// diagnostics helpers: bodies only read runtime caller information and build strings
trusted UtilFuncName() (s)
  pure
trusted UtilFuncCaller() (s)
  pure
trusted UtilFuncSource() (s)
  pure
trusted UtilPrintCaller()
  pure
