// Typed cell access: 20 types x {by name, by index} x {Set, Get, MustSet, MustGet}.
// setok(t, c, r, T): the cell exists and the column holds T.
pred setok(t *Table, c, r int, ty string) = t != nil && incol(t, c) && inrow(t, r) && aliasOf(t.colTypes[c], ty)
pred setokn(t *Table, name string, r int, ty string) = t != nil && has(t.colNamesMap, name) && inrow(t, r) && aliasOf(t.colTypes[t.colNamesMap[name]], ty)

foreach $N,$T in
  Bool:bool Float32:float32 Float64:float64 Int:int Int16:int16 Int32:int32 Int64:int64 Int8:int8
  String:string Uint:uint Uint16:uint16 Uint32:uint32 Uint64:uint64 Uint8:uint8 Byte:byte Rune:rune
  Time:time.Time {
func (t *Table) Set$N(name, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(setokn(t, name, r, "$T"), elem(t.rows[r], t.colNamesMap[name]))
  ensures [iff] (err == nil) <==> setokn(t, name, r, "$T")
  ensures [stored] err == nil ==> t.rows[r][t.colNamesMap[name]] == box(v, $T)
  ensures [wf] t != nil ==> wf(t)

func (t *Table) Set$NByColIndex(c, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(setok(t, c, r, "$T"), elem(t.rows[r], c))
  ensures [iff] (err == nil) <==> setok(t, c, r, "$T")
  ensures [stored] err == nil ==> t.rows[r][c] == box(v, $T)
  ensures [wf] t != nil ==> wf(t)

func (t *Table) Set$NMustSet(name, r, v)
  requires t != nil ==> wf(t)
  panics !setokn(t, name, r, "$T")
  modifies elem(t.rows[r], t.colNamesMap[name])
  ensures [stored] setokn(t, name, r, "$T") && t.rows[r][t.colNamesMap[name]] == box(v, $T)
  ensures [wf] wf(t)

func (t *Table) Set$NByColIndexMustSet(c, r, v)
  requires t != nil ==> wf(t)
  panics !setok(t, c, r, "$T")
  modifies elem(t.rows[r], c)
  ensures [stored] setok(t, c, r, "$T") && t.rows[r][c] == box(v, $T)
  ensures [wf] wf(t)
}

foreach $N,$T in ByteSlice:[]byte Uint8Slice:[]uint8 {
func (t *Table) Set$N(name, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(v != nil && setokn(t, name, r, "$T"), elem(t.rows[r], t.colNamesMap[name]))
  ensures [iff] (err == nil) <==> v != nil && setokn(t, name, r, "$T")
  ensures [stored] err == nil ==> t.rows[r][t.colNamesMap[name]] == box(v, $T)
  ensures [wf] t != nil ==> wf(t)

func (t *Table) Set$NByColIndex(c, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(v != nil && setok(t, c, r, "$T"), elem(t.rows[r], c))
  ensures [iff] (err == nil) <==> v != nil && setok(t, c, r, "$T")
  ensures [stored] err == nil ==> t.rows[r][c] == box(v, $T)
  ensures [wf] t != nil ==> wf(t)

func (t *Table) Set$NMustSet(name, r, v)
  requires t != nil ==> wf(t)
  panics !(v != nil && setokn(t, name, r, "$T"))
  modifies elem(t.rows[r], t.colNamesMap[name])
  ensures [stored] v != nil && setokn(t, name, r, "$T") && t.rows[r][t.colNamesMap[name]] == box(v, $T)
  ensures [wf] wf(t)

func (t *Table) Set$NByColIndexMustSet(c, r, v)
  requires t != nil ==> wf(t)
  panics !(v != nil && setok(t, c, r, "$T"))
  modifies elem(t.rows[r], c)
  ensures [stored] v != nil && setok(t, c, r, "$T") && t.rows[r][c] == box(v, $T)
  ensures [wf] wf(t)
}

func (t *Table) SetTable(name, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(v != nil && setokn(t, name, r, "*Table"), elem(t.rows[r], t.colNamesMap[name])), when(v != nil && setokn(t, name, r, "*Table"), v.parentTable)
  ensures [iff] (err == nil) <==> v != nil && setokn(t, name, r, "*Table")
  ensures [stored] err == nil ==> t.rows[r][t.colNamesMap[name]] == box(v, *Table) && v.parentTable == t
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetTableByColIndex(c, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(v != nil && setok(t, c, r, "*Table"), elem(t.rows[r], c)), when(v != nil && setok(t, c, r, "*Table"), v.parentTable)
  ensures [iff] (err == nil) <==> v != nil && setok(t, c, r, "*Table")
  ensures [stored] err == nil ==> t.rows[r][c] == box(v, *Table) && v.parentTable == t
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetTableMustSet(name, r, v)
  requires t != nil ==> wf(t)
  panics !(v != nil && setokn(t, name, r, "*Table"))
  modifies elem(t.rows[r], t.colNamesMap[name]), v.parentTable
  ensures [stored] v != nil && setokn(t, name, r, "*Table") && t.rows[r][t.colNamesMap[name]] == box(v, *Table)
  ensures [wf] wf(t)

func (t *Table) SetTableByColIndexMustSet(c, r, v)
  requires t != nil ==> wf(t)
  panics !(v != nil && setok(t, c, r, "*Table"))
  modifies elem(t.rows[r], c), v.parentTable
  ensures [stored] v != nil && setok(t, c, r, "*Table") && t.rows[r][c] == box(v, *Table)
  ensures [wf] wf(t)

foreach $N,$T in
  Bool:bool Float32:float32 Float64:float64 Int:int Int16:int16 Int32:int32 Int64:int64 Int8:int8
  String:string Uint:uint Uint16:uint16 Uint32:uint32 Uint64:uint64 Uint8:uint8 Byte:byte Rune:rune
  Time:time.Time ByteSlice:[]byte Uint8Slice:[]uint8 Table:*Table {
func (t *Table) Get$N(name, r) (v, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> setokn(t, name, r, "$T")
  ensures [value] err == nil ==> t.rows[r][t.colNamesMap[name]] == box(v, $T)

func (t *Table) Get$NByColIndex(c, r) (v, err)
  requires t != nil ==> wf(t)
  ensures [iff] (err == nil) <==> setok(t, c, r, "$T")
  ensures [value] err == nil ==> t.rows[r][c] == box(v, $T)

func (t *Table) Get$NMustGet(name, r) (v)
  requires t != nil ==> wf(t)
  panics !setokn(t, name, r, "$T")
  ensures [value] setokn(t, name, r, "$T") && t.rows[r][t.colNamesMap[name]] == box(v, $T)

func (t *Table) Get$NByColIndexMustGet(c, r) (v)
  requires t != nil ==> wf(t)
  panics !setok(t, c, r, "$T")
  ensures [value] setok(t, c, r, "$T") && t.rows[r][c] == box(v, $T)
}

// ---- untyped access ----
pred valok(ct string, v interface{}) =
     ((ct == "[]byte" || ct == "[]uint8") && is(v, []byte))
  || (ct == "bool" && is(v, bool))
  || ((ct == "byte" || ct == "uint8") && is(v, uint8))
  || (ct == "float32" && is(v, float32))
  || (ct == "float64" && is(v, float64))
  || (ct == "int" && is(v, int))
  || (ct == "int16" && is(v, int16))
  || ((ct == "int32" || ct == "rune") && is(v, int32))
  || (ct == "int64" && is(v, int64))
  || (ct == "int8" && is(v, int8))
  || (ct == "string" && is(v, string))
  || (ct == "uint" && is(v, uint))
  || (ct == "uint16" && is(v, uint16))
  || (ct == "uint32" && is(v, uint32))
  || (ct == "uint64" && is(v, uint64))
  || (ct == "*Table" && is(v, *Table) && as(v, *Table) != nil)
  || (ct == "time.Time" && is(v, time.Time))

func (t *Table) SetValByColIndex(c, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && incol(t, c) && inrow(t, r) && valok(t.colTypes[c], v), elem(t.rows[r], c))
  ensures [iff] (err == nil) <==> t != nil && incol(t, c) && inrow(t, r) && valok(t.colTypes[c], v)
  ensures [stored] err == nil ==> t.rows[r][c] == v
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetVal(name, r, v) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && has(t.colNamesMap, name) && inrow(t, r) && valok(t.colTypes[t.colNamesMap[name]], v), elem(t.rows[r], t.colNamesMap[name]))
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name) && inrow(t, r) && valok(t.colTypes[t.colNamesMap[name]], v)
  ensures [stored] err == nil ==> t.rows[r][t.colNamesMap[name]] == v
  ensures [wf] t != nil ==> wf(t)

func (t *Table) GetValMustGet(name, r) (v)
  requires t != nil && wf(t)
  panics !(!t.isNilTable && has(t.colNamesMap, name) && inrow(t, r))
  ensures [value] has(t.colNamesMap, name) && inrow(t, r) && v == t.rows[r][t.colNamesMap[name]]

func (t *Table) GetValByColIndexMustGet(c, r) (v)
  requires t != nil ==> wf(t)
  panics !(t != nil && !t.isNilTable && incol(t, c) && inrow(t, r))
  ensures [value] incol(t, c) && inrow(t, r) && v == t.rows[r][c]

func (t *Table) IsColType(name, ty) (ok, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && has(t.colNamesMap, name)
  ensures ok <==> err == nil && t.colTypes[t.colNamesMap[name]] == ty

func (t *Table) IsColTypeByColIndex(c, ty) (ok, err)
  requires t != nil ==> wf(t)
  ensures (err == nil) <==> t != nil && incol(t, c)
  ensures ok <==> err == nil && t.colTypes[c] == ty
