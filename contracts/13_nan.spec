// NaN fillers: touch exactly the float cells they are asked for.
extern math.NaN() (f)
  pure
  ensures isNaN(f)

pred nancell(ct string, v interface{}) = (ct == "float32" ==> is(v, float32) && isNaN(as(v, float32))) && (ct == "float64" ==> is(v, float64) && isNaN(as(v, float64)))
pred isfloat(ct string) = ct == "float32" || ct == "float64"

func (t *Table) SetFloatCellToNaNByColIndex(c, r) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && incol(t, c) && inrow(t, r) && isfloat(t.colTypes[c]), elem(t.rows[r], c))
  ensures [iff] (err == nil) <==> t != nil && incol(t, c) && inrow(t, r) && isfloat(t.colTypes[c])
  ensures [nan] err == nil ==> nancell(t.colTypes[c], t.rows[r][c])
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetFloatCellToNaN(name, r) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && has(t.colNamesMap, name) && inrow(t, r) && isfloat(t.colTypes[t.colNamesMap[name]]), elem(t.rows[r], t.colNamesMap[name]))
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name) && inrow(t, r) && isfloat(t.colTypes[t.colNamesMap[name]])
  ensures [nan] err == nil ==> nancell(t.colTypes[t.colNamesMap[name]], t.rows[r][t.colNamesMap[name]])
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetRowFloatCellsToNaN(r) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && inrow(t, r), elems(t.rows[r]))
  ensures [err] (err == nil) ==> t != nil
  ensures [ok] t != nil && inrow(t, r) ==> err == nil
  ensures [nan] err == nil && inrow(t, r) ==> (forall c int :: {t.rows[r][c]} incol(t, c) ==> nancell(t.colTypes[c], t.rows[r][c]) && (!isfloat(t.colTypes[c]) ==> t.rows[r][c] == old(t.rows[r][c])))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv inrow(t, r) ==> (forall c int :: {t.rows[r][c]} 0 <= c < $k ==> nancell(t.colTypes[c], t.rows[r][c]))
  inv inrow(t, r) ==> (forall c int :: {t.rows[r][c]} incol(t, c) && (!isfloat(t.colTypes[c]) || c >= $k) ==> t.rows[r][c] == old(t.rows[r][c]))

func (t *Table) SetColFloatCellsToNaNByColIndex(c) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && incol(t, c) && isfloat(t.colTypes[c]), each(r, 0, len(t.rows), elem(t.rows[r], c)))
  ensures [iff] (err == nil) <==> t != nil && (len(t.rows) == 0 || incol(t, c) && isfloat(t.colTypes[c]))
  ensures [nan] err == nil ==> (forall r int :: {t.rows[r][c]} inrow(t, r) ==> nancell(t.colTypes[c], t.rows[r][c]))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv $k > 0 ==> incol(t, c) && isfloat(t.colTypes[c])
  inv forall r int :: {t.rows[r][c]} 0 <= r < $k ==> nancell(t.colTypes[c], t.rows[r][c])

func (t *Table) SetColFloatCellsToNaN(name) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && has(t.colNamesMap, name) && isfloat(t.colTypes[t.colNamesMap[name]]), each(r, 0, len(t.rows), elem(t.rows[r], t.colNamesMap[name])))
  ensures [iff] (err == nil) <==> t != nil && has(t.colNamesMap, name) && (len(t.rows) == 0 || isfloat(t.colTypes[t.colNamesMap[name]]))
  ensures [nan] err == nil ==> (forall r int :: {t.rows[r][t.colNamesMap[name]]} inrow(t, r) ==> nancell(t.colTypes[t.colNamesMap[name]], t.rows[r][t.colNamesMap[name]]))
  ensures [wf] t != nil ==> wf(t)

func (t *Table) SetAllFloatCellsToNaN() (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil, each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] t != nil && !t.isNilTable ==> err == nil
  ensures [nil] t == nil ==> err != nil
  ensures [nan] err == nil && !t.isNilTable ==> (forall r, c int :: {t.rows[r][c]} inrow(t, r) && incol(t, c) ==> nancell(t.colTypes[c], t.rows[r][c]) && (!isfloat(t.colTypes[c]) ==> t.rows[r][c] == old(t.rows[r][c])))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv forall r, c int :: {t.rows[r][c]} inrow(t, r) && 0 <= c < $k ==> nancell(t.colTypes[c], t.rows[r][c])
  inv forall r, c int :: {t.rows[r][c]} inrow(t, r) && incol(t, c) && (!isfloat(t.colTypes[c]) || c >= $k) ==> t.rows[r][c] == old(t.rows[r][c])
