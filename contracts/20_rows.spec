// Row operations.
func (t *Table) AppendRow() (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && !t.isNilTable, t.rows), when(t != nil && !t.isNilTable, each(i, len(t.rows), cap(t.rows), elem(t.rows, i)))
  ensures [iff] (err == nil) <==> t != nil && !t.isNilTable
  ensures [count] err == nil ==> len(t.rows) == old(len(t.rows)) + 1
  ensures [keep] err == nil ==> (forall r int :: {t.rows[r]} 0 <= r < old(len(t.rows)) ==> t.rows[r] == old(t.rows[r]))
  ensures [keepcells] err == nil ==> (forall r, i int :: {t.rows[r][i]} 0 <= r < old(len(t.rows)) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][i]))
  ensures [zero] err == nil ==> (forall c int :: {t.rows[len(t.rows)-1][c]} incol(t, c) ==> zerocell(t.colTypes[c], t.rows[len(t.rows)-1][c]))
  ensures [new] err == nil ==> fresh(t.rows[len(t.rows)-1])
  ensures [backing] err == nil ==> fresh(t.rows) || arr(t.rows) == old(arr(t.rows)) && cap(t.rows) == old(cap(t.rows)) && off(t.rows) == old(off(t.rows))
  ensures [wf] t != nil ==> wf(t)

func (t *Table) AppendRows(n) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && !t.isNilTable && n >= 0, t.rows), when(t != nil && !t.isNilTable && n >= 0, each(i, len(t.rows), cap(t.rows), elem(t.rows, i)))
  ensures [iff] (err == nil) <==> t != nil && !t.isNilTable && n >= 0
  ensures [count] err == nil ==> len(t.rows) == old(len(t.rows)) + n
  ensures [keep] err == nil ==> (forall r int :: {t.rows[r]} 0 <= r < old(len(t.rows)) ==> t.rows[r] == old(t.rows[r]))
  ensures [new] err == nil ==> (forall r int :: {t.rows[r]} old(len(t.rows)) <= r < len(t.rows) ==> fresh(t.rows[r]))
  ensures [backing] err == nil ==> fresh(t.rows) || samebase(t.rows, old(t.rows)) || arr(t.rows) == old(arr(t.rows)) && cap(t.rows) == old(cap(t.rows)) && off(t.rows) == old(off(t.rows))
  ensures [zero] err == nil ==> (forall r, c int :: {t.rows[r][c]} old(len(t.rows)) <= r < len(t.rows) && incol(t, c) ==> zerocell(t.colTypes[c], t.rows[r][c]))
  ensures [wf] t != nil ==> wf(t)
  inv wf(t)
  inv len(t.rows) == old(len(t.rows)) + $k
  inv fresh(t.rows) || arr(t.rows) == old(arr(t.rows)) && cap(t.rows) == old(cap(t.rows)) && off(t.rows) == old(off(t.rows))
  inv forall r int :: {t.rows[r]} 0 <= r < old(len(t.rows)) ==> t.rows[r] == old(t.rows[r])
  inv forall r int :: {t.rows[r]} old(len(t.rows)) <= r < len(t.rows) ==> fresh(t.rows[r])
  inv forall r, c int :: {t.rows[r][c]} old(len(t.rows)) <= r < len(t.rows) && incol(t, c) ==> zerocell(t.colTypes[c], t.rows[r][c])

func (t *Table) DeleteRows(a, b) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && 0 <= a <= b < len(t.rows), t.rows), when(t != nil && 0 <= a <= b < len(t.rows), elems(t.rows))
  ensures [iff] (err == nil) <==> t != nil && 0 <= a <= b < old(len(t.rows))
  ensures [count] err == nil ==> len(t.rows) == old(len(t.rows)) - (b - a + 1)
  ensures [before] err == nil ==> (forall r int :: {t.rows[r]} 0 <= r < a ==> t.rows[r] == old(t.rows[r]))
  ensures [after] err == nil ==> (forall r int :: {t.rows[r]} a <= r < len(t.rows) ==> t.rows[r] == old(t.rows[r + (b - a + 1)]))
  ensures [wf] t != nil ==> wf(t)

func (t *Table) DeleteRow(a) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && inrow(t, a), t.rows), when(t != nil && inrow(t, a), elems(t.rows))
  ensures [iff] (err == nil) <==> t != nil && 0 <= a < old(len(t.rows))
  ensures [count] err == nil ==> len(t.rows) == old(len(t.rows)) - 1
  ensures [before] err == nil ==> (forall r int :: {t.rows[r]} 0 <= r < a ==> t.rows[r] == old(t.rows[r]))
  ensures [after] err == nil ==> (forall r int :: {t.rows[r]} a <= r < len(t.rows) ==> t.rows[r] == old(t.rows[r + 1]))
  ensures [wf] t != nil ==> wf(t)

func (t *Table) DeleteRowsAll() (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil, t.rows), when(t != nil, elems(t.rows))
  ensures [iff] (err == nil) <==> t != nil
  ensures [empty] err == nil ==> len(t.rows) == 0
  ensures [wf] t != nil ==> wf(t)

func (t *Table) appendRowSlice(row) (err)
  modifies when(t != nil, t.rows), when(t != nil, each(i, len(t.rows), cap(t.rows), elem(t.rows, i)))
  ensures [iff] (err == nil) <==> t != nil
  ensures [count] err == nil ==> len(t.rows) == old(len(t.rows)) + 1
  ensures [keep] err == nil ==> (forall r int :: {t.rows[r]} 0 <= r < old(len(t.rows)) ==> t.rows[r] == old(t.rows[r]))
  ensures [last] err == nil ==> t.rows[len(t.rows)-1] == row
