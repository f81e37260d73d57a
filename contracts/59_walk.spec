// Walking nested tables. The visits are logged in ghost state: how often each visitor was called for
// each table, row and cell, and when a table was last visited. Visitors are assumed to leave the
// tables and the set of tables met so far as they are.

ghost clock() int
ghost vtn(f int, t *Table) int
ghost vtat(f int, t *Table) int
ghost vrn(f int, t *Table, r int) int
ghost vcn(f int, t *Table, r int, c int) int
// a set of well-formed tables that contains the tables nested in its members
ghost univ(t *Table) bool

// tree: the nesting below a table ends (the least predicate that holds of a table when it holds of every table in its cells)
ghost tree(t *Table) bool
ghost step(t *Table) bool // only names the tables the definition is unfolded for
// a numbering that orders the tables of a tree without shared tables as they are met
ghost lo(t *Table) int
ghost hi(t *Table) int
// a visitor that returns no error for this table, row, cell
ghost calmt(f int, t *Table) bool
ghost calmr(f int, t *Table, r int) bool
ghost calmc(f int, t *Table, r int, c int) bool

pred tabcell(x *Table, r int, c int) = inrow(x, r) && incol(x, c) && x.colTypes[c] == "*Table"
pred closedtabs() = (forall x *Table :: {univ(x)} univ(x) ==> x != nil && wf(x))
  && (forall x *Table, r, c int :: {univ(x), x.rows[r][c]} univ(x) && tabcell(x, r, c) ==> univ(as(x.rows[r][c], *Table)))

// the non-nil table in a cell
pred kid(x *Table, r int, c int) = tabcell(x, r, c) && !as(x.rows[r][c], *Table).isNilTable
pred treedef() = (forall x *Table :: {step(x)} step(x)) && forall x *Table :: {step(x)} step(x) && univ(x) && (forall r, c int :: {x.rows[r], x.colTypes[c]} kid(x, r, c) ==> tree(as(x.rows[r][c], *Table))) ==> tree(x)
ghost numbered() bool
pred numdef() = numbered() ==> forall x *Table :: {step(x)} step(x) && univ(x) ==>
     (forall r, c int :: {x.rows[r][c]} kid(x, r, c) ==> lo(x) < lo(as(x.rows[r][c], *Table)) && lo(as(x.rows[r][c], *Table)) <= hi(as(x.rows[r][c], *Table)) && hi(as(x.rows[r][c], *Table)) <= hi(x))
  && (forall r, c, q, d int :: {x.rows[r][c], x.rows[q][d]} kid(x, r, c) && kid(x, q, d) && (r < q || (r == q && c < d)) ==> hi(as(x.rows[r][c], *Table)) < lo(as(x.rows[q][d], *Table)))
// no visitor of this walk returns an error
pred calm(vT int, vR int, vC int) =
     (vT != 0 ==> forall x *Table :: {calmt(vT, x)} univ(x) ==> calmt(vT, x))
  && (vR != 0 ==> forall x *Table, r int :: {calmr(vR, x, r)} univ(x) && inrow(x, r) ==> calmr(vR, x, r))
  && (vC != 0 ==> forall x *Table, r, c int :: {calmc(vC, x, r, c)} univ(x) && inrow(x, r) && incol(x, c) ==> calmc(vC, x, r, c))

dyn "func(*Table) error" (f, t) (err)
  modifies ghost(clock), ghost(vtn), ghost(vtat)
  ensures clock() == old(clock()) + 1
  ensures calmt(f, t) ==> err == nil
  ensures vtn(f, t) == old(vtn(f, t)) + 1
  ensures vtat(f, t) == old(clock())
  ensures forall g int, x *Table :: {vtn(g, x)} !(g == f && x == t) ==> vtn(g, x) == old(vtn(g, x))
  ensures forall g int, x *Table :: {vtat(g, x)} !(g == f && x == t) ==> vtat(g, x) == old(vtat(g, x))

dyn "func(Row) error" (f, row) (err)
  modifies ghost(vrn)
  ensures calmr(f, row.Table, row.RowIndex) ==> err == nil
  ensures vrn(f, row.Table, row.RowIndex) == old(vrn(f, row.Table, row.RowIndex)) + 1
  ensures forall g int, x *Table, r int :: {vrn(g, x, r)} !(g == f && x == row.Table && r == row.RowIndex) ==> vrn(g, x, r) == old(vrn(g, x, r))

dyn "func(bool, CellInfo) error" (f, nested, cell) (err)
  requires cell.Table != nil && univ(cell.Table) && inrow(cell.Table, cell.RowIndex) && incol(cell.Table, cell.ColIndex)
  requires cell.ColType == cell.Table.colTypes[cell.ColIndex]
  modifies ghost(vcn)
  ensures calmc(f, cell.Table, cell.RowIndex, cell.ColIndex) ==> err == nil
  ensures vcn(f, cell.Table, cell.RowIndex, cell.ColIndex) == old(vcn(f, cell.Table, cell.RowIndex, cell.ColIndex)) + 1
  ensures forall g int, x *Table, r, c int :: {vcn(g, x, r, c)} !(g == f && x == cell.Table && r == cell.RowIndex && c == cell.ColIndex) ==> vcn(g, x, r, c) == old(vcn(g, x, r, c))

pred newly(ws WalkSafe, x *Table) = has(ws, x) && !old(has(ws, x))
pred visible(x *Table) = univ(x) && !x.isNilTable

func (t *Table) Walk(nested, ws, vT, vR, vC) (err)
  split vT == nil; vR == nil; vC == nil; !nested
  rec
  requires closedtabs()
  requires t != nil ==> univ(t)
  requires treedef()
  requires numdef()
  modifies allof(Table.depth), when(ws != nil, mapof(ws)), ghost(clock), ghost(vtn), ghost(vtat), ghost(vrn), ghost(vcn)
  ensures [bad] t == nil || (nested && ws == nil) ==> err != nil
  ensures [leaf] t != nil && (nested ==> ws != nil && (notables(t) || t.isNilTable)) && (vT != nil ==> calmt(vT, t)) && (vR != nil ==> forall r int :: {calmr(vR, t, r)} inrow(t, r) ==> calmr(vR, t, r)) && (vC != nil ==> forall r, c int :: {calmc(vC, t, r, c)} inrow(t, r) && incol(t, c) ==> calmc(vC, t, r, c)) ==> err == nil
  ensures [grow] forall x *Table :: {has(ws, x)} old(has(ws, x)) ==> has(ws, x)
  ensures [niltable] t != nil && t.isNilTable ==> forall x *Table :: {has(ws, x)} has(ws, x) ==> old(has(ws, x))
  ensures [flat] !nested ==> forall x *Table :: {has(ws, x)} has(ws, x) ==> old(has(ws, x))
  ensures [met] forall x *Table :: {has(ws, x)} newly(ws, x) ==> visible(x)
  ensures [root] err == nil ==> !newly(ws, t)
  ensures [deep] err == nil && nested ==> forall x *Table, r, c int :: {x.rows[r][c]} visible(x) && (x == t || newly(ws, x)) && kid(x, r, c) ==> newly(ws, as(x.rows[r][c], *Table))
  inv0 $k <= len(t.rows)
  inv1 $k <= len(t.colNames)
  inv forall x *Table :: {has(ws, x)} old(has(ws, x)) ==> has(ws, x)
  inv t.isNilTable ==> forall x *Table :: {has(ws, x)} has(ws, x) ==> old(has(ws, x))
  inv !nested ==> forall x *Table :: {has(ws, x)} has(ws, x) ==> old(has(ws, x))
  inv forall x *Table :: {has(ws, x)} newly(ws, x) ==> visible(x)
  inv !newly(ws, t)
  inv nested ==> forall x *Table, r, c int :: {x.rows[r][c]} visible(x) && newly(ws, x) && kid(x, r, c) ==> newly(ws, as(x.rows[r][c], *Table))
  inv0 nested ==> forall r, c int :: {t.rows[r][c]} r < $k && kid(t, r, c) ==> newly(ws, as(t.rows[r][c], *Table))
  inv1 nested ==> forall r, c int :: {t.rows[r][c]} (r < $k0 || (r == $k0 && c < $k)) && kid(t, r, c) ==> newly(ws, as(t.rows[r][c], *Table))
  part tables unless vT == nil
  ensures [tables] err == nil ==> forall x *Table :: {vtn(vT, x)} visible(x) ==> vtn(vT, x) == old(vtn(vT, x)) + (x == t || newly(ws, x) ? 1 : 0)
  inv forall x *Table :: {vtn(vT, x)} visible(x) ==> vtn(vT, x) == old(vtn(vT, x)) + (x == t || newly(ws, x) ? 1 : 0)
  part rows unless vR == nil
  ensures [rows] err == nil ==> forall x *Table, r int :: {vrn(vR, x, r)} visible(x) ==> vrn(vR, x, r) == old(vrn(vR, x, r)) + ((x == t || newly(ws, x)) && inrow(x, r) ? 1 : 0)
  inv0 forall x *Table, r int :: {vrn(vR, x, r)} visible(x) ==> vrn(vR, x, r) == old(vrn(vR, x, r)) + (x == t ? (0 <= r < $k ? 1 : 0) : (newly(ws, x) && inrow(x, r) ? 1 : 0))
  inv1 forall x *Table, r int :: {vrn(vR, x, r)} visible(x) ==> vrn(vR, x, r) == old(vrn(vR, x, r)) + (x == t ? (0 <= r <= $k0 ? 1 : 0) : (newly(ws, x) && inrow(x, r) ? 1 : 0))
  part cells unless vC == nil
  ensures [cells] err == nil ==> forall x *Table, r, c int :: {vcn(vC, x, r, c)} visible(x) ==> vcn(vC, x, r, c) == old(vcn(vC, x, r, c)) + ((x == t || newly(ws, x)) && inrow(x, r) && incol(x, c) ? 1 : 0)
  inv0 forall x *Table, r, c int :: {vcn(vC, x, r, c)} visible(x) ==> vcn(vC, x, r, c) == old(vcn(vC, x, r, c)) + (x == t ? (0 <= r < $k && incol(x, c) ? 1 : 0) : (newly(ws, x) && inrow(x, r) && incol(x, c) ? 1 : 0))
  inv1 forall x *Table, r, c int :: {vcn(vC, x, r, c)} visible(x) ==> vcn(vC, x, r, c) == old(vcn(vC, x, r, c)) + (x == t ? ((0 <= r < $k0 && incol(x, c)) || (r == $k0 && 0 <= c < $k) ? 1 : 0) : (newly(ws, x) && inrow(x, r) && incol(x, c) ? 1 : 0))
  part when unless vT == nil
  ensures [clock] old(clock()) <= clock()
  ensures [when] err == nil ==> forall x *Table :: {vtat(vT, x)} visible(x) ==> (x == t || newly(ws, x) ? old(clock()) <= vtat(vT, x) < clock() : vtat(vT, x) == old(vtat(vT, x)))
  ensures [parents] err == nil && nested ==> forall x *Table, r, c int :: {x.rows[r][c]} visible(x) && (x == t || newly(ws, x)) && kid(x, r, c) ==> vtat(vT, x) < vtat(vT, as(x.rows[r][c], *Table))
  inv old(clock()) <= clock()
  inv forall x *Table :: {vtat(vT, x)} visible(x) ==> (x == t || newly(ws, x) ? old(clock()) <= vtat(vT, x) < clock() : vtat(vT, x) == old(vtat(vT, x)))
  inv nested ==> forall x *Table, r, c int :: {x.rows[r][c]} visible(x) && newly(ws, x) && kid(x, r, c) ==> vtat(vT, x) < vtat(vT, as(x.rows[r][c], *Table))
  inv0 nested ==> forall r, c int :: {t.rows[r][c]} r < $k && visible(t) && kid(t, r, c) ==> vtat(vT, t) < vtat(vT, as(t.rows[r][c], *Table))
  inv1 nested ==> forall r, c int :: {t.rows[r][c]} (r < $k0 || (r == $k0 && c < $k)) && visible(t) && kid(t, r, c) ==> vtat(vT, t) < vtat(vT, as(t.rows[r][c], *Table))
  part ok unless !nested
  ensures [span] step(t) && (nested && numbered() ==> forall x *Table :: {has(ws, x)} newly(ws, x) ==> lo(t) < lo(x) <= hi(t))
  ensures [ok] t != nil && nested && ws != nil && calm(vT, vR, vC) && numbered() && (forall x *Table :: {has(ws, x)} old(has(ws, x)) ==> lo(x) <= lo(t)) ==> err == nil
  inv step(t)
  inv nested && numbered() ==> forall x *Table :: {has(ws, x)} newly(ws, x) ==> lo(t) < lo(x) <= hi(t)
  inv0 nested && numbered() ==> forall x *Table, q, d int :: {has(ws, x), t.rows[q][d]} newly(ws, x) && kid(t, q, d) && q >= $k ==> lo(x) < lo(as(t.rows[q][d], *Table))
  inv1 nested && numbered() ==> forall x *Table, q, d int :: {has(ws, x), t.rows[q][d]} newly(ws, x) && kid(t, q, d) && (q > $k0 || (q == $k0 && d >= $k)) ==> lo(x) < lo(as(t.rows[q][d], *Table))
  part finite unless !nested
  ensures [finite] step(t) && (err == nil && nested ==> tree(t))
  inv0 nested ==> forall r, c int :: {t.rows[r][c]} r < $k && kid(t, r, c) ==> tree(as(t.rows[r][c], *Table))
  inv1 nested ==> forall r, c int :: {t.rows[r][c]} (r < $k0 || (r == $k0 && c < $k)) && kid(t, r, c) ==> tree(as(t.rows[r][c], *Table))

pred oldtab(x *Table) = alloced(x) && alloced(x.colNamesMap) && alloced(x.colNames) && alloced(x.colTypes) && alloced(x.rows) && alloced(x.sortKeys)
  && (forall r int :: {x.rows[r]} inrow(x, r) ==> alloced(x.rows[r]))

// The tables nested in a well-formed table are taken to be well-formed themselves.
func (t *Table) IsValidTableNesting() (valid, err)
  requires t != nil ==> wf(t)
  assumes [nested-tables-wellformed] t != nil ==> univ(t) && closedtabs()
  assumes [allocated] forall x *Table :: {univ(x)} univ(x) ==> oldtab(x)
  assumes [definitions] treedef() && numdef()
  modifies allof(Table.depth)
  restores clock, vtn, vtat, vrn, vcn
  ensures [verdict] valid <==> err == nil
  ensures [bad] t == nil ==> !valid
  ensures [flat] t != nil && notables(t) ==> valid
  ensures [tree] valid ==> tree(t)
  fnarg (nested, cell) (err)
  fnens [flat] cell.Table.colTypes[cell.ColIndex] != "*Table" ==> err == nil
