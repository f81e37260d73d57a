// Equality of tables.
uf timeeq(a, b time.Time) bool
extern (a time.Time) Equal(b) (ok)
  pure
  ensures ok == timeeq(a, b)

pred byteseq(a, b []byte) = len(a) == len(b) && (forall i int :: {a[i]} {b[i]} 0 <= i < len(a) ==> a[i] == b[i])

extern bytes.Equal(a, b) (ok)
  pure
  ensures ok <==> byteseq(a, b)

// eqtab is the relation of equal tables; the defining equation is eqdef
uf eqtab(a, b *Table) bool
pred celleq(ct string, a, b interface{}) = (ct == "[]byte" || ct == "[]uint8") ? byteseq(as(a, []byte), as(b, []byte))
  : (ct == "*Table" ? eqtab(as(a, *Table), as(b, *Table)) : (ct == "time.Time" ? timeeq(as(a, time.Time), as(b, time.Time)) : goeq(a, b)))
// same name, size, columns (in any order) and cells
pred sametab(t, u *Table) = t != nil && u != nil && (t.isNilTable <==> u.isNilTable) && t.tableName == u.tableName
  && len(t.rows) == len(u.rows) && len(t.colNames) == len(u.colNames)
  && (forall i int :: {t.colNames[i]} incol(t, i) ==> has(u.colNamesMap, t.colNames[i]) && u.colTypes[u.colNamesMap[t.colNames[i]]] == t.colTypes[i])
  && (forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> celleq(t.colTypes[i], t.rows[r][i], u.rows[r][u.colNamesMap[t.colNames[i]]]))

func (t *Table) Equals(u) (eq, err)
  requires t != nil ==> wf(t)
  requires u != nil ==> wf(u)
  requires forall x *Table :: {x.colNames} x != nil ==> wf(x)
  requires forall a, b *Table :: {eqtab(a, b)} eqtab(a, b) <==> sametab(a, b)
  pure
  rec
  ensures [err] eq <==> err == nil
  ensures [iff] eq <==> sametab(t, u)
  ensures [rec] eq <==> eqtab(t, u)
  inv0 $k <= len(t.colNames)
  inv0 forall i int :: {t.colNames[i]} 0 <= i < $k ==> has(u.colNamesMap, t.colNames[i]) && u.colTypes[u.colNamesMap[t.colNames[i]]] == t.colTypes[i]
  inv forall i int :: {t.colNames[i]} incol(t, i) ==> has(u.colNamesMap, t.colNames[i]) && u.colTypes[u.colNamesMap[t.colNames[i]]] == t.colTypes[i]
  inv0 forall r, i int :: {t.rows[r][i]} inrow(t, r) && 0 <= i < $k ==> celleq(t.colTypes[i], t.rows[r][i], u.rows[r][u.colNamesMap[t.colNames[i]]])
  inv1 forall r, i int :: {t.rows[r][i]} inrow(t, r) && 0 <= i < $k0 ==> celleq(t.colTypes[i], t.rows[r][i], u.rows[r][u.colNamesMap[t.colNames[i]]])
  inv1 forall r int :: {t.rows[r]} 0 <= r < $k ==> celleq(t.colTypes[$k0], t.rows[r][$k0], u.rows[r][u.colNamesMap[t.colNames[$k0]]])
  inv1 $k <= len(t.rows)
  inv2 forall i int :: {slice1[i]} 0 <= i < $k ==> slice1[i] == slice2[i]

func (s *TableSet) Equals(u) (eq, err)
  requires s != nil ==> wfs(s)
  requires u != nil ==> wfs(u)
  requires forall x *Table :: {x.colNames} x != nil ==> wf(x)
  requires forall a, b *Table :: {eqtab(a, b)} eqtab(a, b) <==> sametab(a, b)
  pure
  ensures [err] eq <==> err == nil
  ensures [iff] eq <==> s != nil && u != nil && len(s.tables) == len(u.tables) && (forall i int :: {s.tables[i]} intab(s, i) ==> eqtab(s.tables[i], u.tables[i]))
  inv $k <= len(s.tables)
  inv forall i int :: {s.tables[i]} 0 <= i < $k ==> eqtab(s.tables[i], u.tables[i])
