// Column operations.
pred newcolok(t *Table, c, ct string) = t != nil && !t.isNilTable && validName(c) && validType(ct) && !has(t.colNamesMap, c)

func (t *Table) AppendCol(c, ct) (err)
  requires t != nil ==> wf(t)
  modifies when(newcolok(t, c, ct), t.colNames), when(newcolok(t, c, ct), t.colTypes), when(newcolok(t, c, ct), mapof(t.colNamesMap)),
           when(newcolok(t, c, ct), spare(t.colNames)), when(newcolok(t, c, ct), spare(t.colTypes)),
           when(newcolok(t, c, ct), elems(t.rows)), when(newcolok(t, c, ct), each(r, 0, len(t.rows), spare(t.rows[r])))
  ensures [iff] (err == nil) <==> old(newcolok(t, c, ct))
  ensures [count] err == nil ==> len(t.colNames) == old(len(t.colNames)) + 1 && len(t.rows) == old(len(t.rows))
  ensures [new] err == nil ==> t.colNames[len(t.colNames)-1] == c && t.colTypes[len(t.colNames)-1] == ct
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} {old(t.colNames[i])} 0 <= i < old(len(t.colNames)) ==> t.colNames[i] == old(t.colNames[i]))
  ensures [types] err == nil ==> (forall i int :: {t.colTypes[i]} {old(t.colTypes[i])} 0 <= i < old(len(t.colNames)) ==> t.colTypes[i] == old(t.colTypes[i]))
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && 0 <= i < old(len(t.colNames)) ==> t.rows[r][i] == old(t.rows[r][i]))
  ensures [zero] err == nil ==> (forall r int :: {t.rows[r]} inrow(t, r) ==> zerocell(ct, t.rows[r][len(t.colNames)-1]))
  ensures [own] err == nil ==> (fresh(t.colNames) || samebase(t.colNames, old(t.colNames))) && (fresh(t.colTypes) || samebase(t.colTypes, old(t.colTypes)))
     && (forall r int :: {t.rows[r]} inrow(t, r) ==> fresh(t.rows[r]) || samebase(t.rows[r], old(t.rows[r])))
  ensures [wf] t != nil ==> wf(t)
  inv wfown(t)
  inv forall r int :: {t.rows[r]} 0 <= r < $k ==> len(t.rows[r]) == len(t.colNames)
  inv forall r int :: {t.rows[r]} $k <= r < len(t.rows) ==> t.rows[r] == old(t.rows[r])
  inv forall r int :: {t.rows[r]} 0 <= r < len(t.rows) ==> fresh(t.rows[r]) || samebase(t.rows[r], old(t.rows[r]))
  inv forall r, i int :: {t.rows[r][i]} inrow(t, r) && 0 <= i < old(len(t.colNames)) ==> t.rows[r][i] == old(t.rows[r][i])

func (t *Table) appendCols(names, tys) (err)
  requires t != nil && wf(t)
  requires arr(names) != arr(t.colNames) && arr(names) != arr(t.colTypes) && arr(tys) != arr(t.colNames) && arr(tys) != arr(t.colTypes)
  modifies t.colNames, t.colTypes, mapof(t.colNamesMap), spare(t.colNames), spare(t.colTypes), elems(t.rows), each(r, 0, len(t.rows), spare(t.rows[r]))
  ensures [count] err == nil ==> len(names) == len(tys) && len(t.colNames) == old(len(t.colNames)) + len(names)
  ensures [len] len(names) != len(tys) ==> err != nil
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} 0 <= i < old(len(t.colNames)) ==> t.colNames[i] == old(t.colNames[i]) && t.colTypes[i] == old(t.colTypes[i]))
  ensures [new] err == nil ==> (forall i int :: {old(names[i])} 0 <= i < len(names) ==> t.colNames[old(len(t.colNames)) + i] == old(names[i]))
  ensures [newty] err == nil ==> (forall i int :: {old(tys[i])} 0 <= i < len(names) ==> t.colTypes[old(len(t.colNames)) + i] == old(tys[i]))
  ensures [rows] len(t.rows) == old(len(t.rows))
  ensures [own] err == nil ==> (fresh(t.colNames) || samebase(t.colNames, old(t.colNames))) && (fresh(t.colTypes) || samebase(t.colTypes, old(t.colTypes)))
  ensures [wf] wf(t)
  inv wf(t)
  inv len(t.colNames) == old(len(t.colNames)) + $k
  inv len(t.rows) == old(len(t.rows))
  inv (fresh(t.colNames) || samebase(t.colNames, old(t.colNames))) && (fresh(t.colTypes) || samebase(t.colTypes, old(t.colTypes)))
  inv forall r int :: {t.rows[r]} inrow(t, r) ==> fresh(t.rows[r]) || samebase(t.rows[r], old(t.rows[r]))
  inv forall i int :: {t.colNames[i]} 0 <= i < old(len(t.colNames)) ==> t.colNames[i] == old(t.colNames[i]) && t.colTypes[i] == old(t.colTypes[i])
  inv forall i int :: {names[i]} 0 <= i < len(names) ==> names[i] == old(names[i])
  inv forall i int :: {tys[i]} 0 <= i < len(tys) ==> tys[i] == old(tys[i])
  inv forall i int :: {old(names[i])} 0 <= i < $k ==> t.colNames[old(len(t.colNames)) + i] == old(names[i])
  inv forall i int :: {old(tys[i])} 0 <= i < $k ==> t.colTypes[old(len(t.colNames)) + i] == old(tys[i])

func NewTableFromMetadata(name, names, tys) (t, err)
  ensures [ok] err == nil ==> validName(name) && len(names) == len(tys) && t != nil && fresh(t) && wf(t) && t.tableName == name && len(t.rows) == 0 && len(t.sortKeys) == 0
  ensures [cols] err == nil ==> len(t.colNames) == len(names) && (forall i int :: {names[i]} 0 <= i < len(names) ==> t.colNames[i] == names[i] && t.colTypes[i] == tys[i])
  ensures [nil] err != nil ==> t == nil
  ensures [bad] !validName(name) || len(names) != len(tys) ==> err != nil
  inv wf(tt_) && freshtable(tt_) && tt_.tableName == name && !tt_.isNilTable && len(tt_.rows) == 0 && len(tt_.sortKeys) == 0
  inv len(tt_.colNames) == $k
  inv $k <= len(names)
  inv forall i int :: {names[i]} 0 <= i < $k ==> tt_.colNames[i] == names[i] && tt_.colTypes[i] == tys[i]

// number of keys among the first n that are not on column nm (recursive definition)
uf cntne(a [0]sortKey, o int, n int, nm string) int
axiom on cntne: forall a [0]sortKey, o int, nm str :: {cntne(a, o, 0, nm)} cntne(a, o, 0, nm) == 0
axiom on cntne: forall a [0]sortKey, o, n int, nm str :: {cntne(a, o, n, nm), a[idx(o, n)]} n >= 0 ==> cntne(a, o, n + 1, nm) == cntne(a, o, n, nm) + (a[idx(o, n)].colName != nm ? 1 : 0)
pred kept(keys []sortKey, n int, nm string) = cntne(elemsOf(keys), off(keys), n, nm)

func (t *Table) DeleteColByColIndex(c) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && incol(t, c), t.colNames), when(t != nil && incol(t, c), t.colTypes), when(t != nil && incol(t, c), t.sortKeys), when(t != nil && incol(t, c), mapof(t.colNamesMap)),
           when(t != nil && incol(t, c), elems(t.colNames)), when(t != nil && incol(t, c), elems(t.colTypes)),
           when(t != nil && incol(t, c), elems(t.rows)), when(t != nil && incol(t, c), each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> old(t != nil && incol(t, c))
  ensures [count] err == nil ==> len(t.colNames) == old(len(t.colNames)) - 1 && len(t.rows) == old(len(t.rows))
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} incol(t, i) ==> t.colNames[i] == old(t.colNames[i < c ? i : i + 1]))
  ensures [types] err == nil ==> (forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] == old(t.colTypes[i < c ? i : i + 1]))
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][i < c ? i : i + 1]))
  ensures [keys] err == nil ==> len(t.sortKeys) == old(kept(t.sortKeys, len(t.sortKeys), t.colNames[c]))
  ensures [keyorder] err == nil ==> (forall j int :: {old(t.sortKeys[j])} 0 <= j < old(len(t.sortKeys)) && old(t.sortKeys[j]).colName != old(t.colNames[c]) ==>
      t.sortKeys[old(kept(t.sortKeys, j, t.colNames[c]))] == old(t.sortKeys[j]))
  ensures [wf] t != nil ==> wf(t)
  inv forall i int :: {t.colNames[i]} 0 <= i < $k ==> has(t.colNamesMap, t.colNames[i]) && t.colNamesMap[t.colNames[i]] == i
  inv forall s str :: {has(t.colNamesMap, s)} has(t.colNamesMap, s) <==> old(has(t.colNamesMap, s)) && s != old(t.colNames[c])
  inv forall s str :: {has(t.colNamesMap, s)} has(t.colNamesMap, s) ==> t.colNames[old(t.colNamesMap[s]) < c ? old(t.colNamesMap[s]) : old(t.colNamesMap[s]) - 1] == s
  inv forall r int :: {t.rows[r]} 0 <= r < $k ==> len(t.rows[r]) == len(t.colNames)
  inv forall r int :: {t.rows[r]} $k <= r < len(t.rows) ==> t.rows[r] == old(t.rows[r])
  inv forall r int :: {t.rows[r]} 0 <= r < len(t.rows) ==> samebase(t.rows[r], old(t.rows[r]))
  inv forall r, i int :: {t.rows[r][i]} 0 <= r < $k && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][i < c ? i : i + 1])
  inv forall r, i int :: {t.rows[r][i]} $k <= r < len(t.rows) && 0 <= i < old(len(t.colNames)) ==> t.rows[r][i] == old(t.rows[r][i])
  inv len(sortKeys) == old(kept(t.sortKeys, $k, t.colNames[c]))
  inv forall j int :: {sortKeys[j]} 0 <= j < len(sortKeys) ==> keyok(t, sortKeys[j])
  inv forall j int :: {old(t.sortKeys[j])} 0 <= j < $k && old(t.sortKeys[j]).colName != old(t.colNames[c]) ==>
      0 <= old(kept(t.sortKeys, j, t.colNames[c])) < len(sortKeys) && sortKeys[old(kept(t.sortKeys, j, t.colNames[c]))] == old(t.sortKeys[j])

func (t *Table) DeleteCol(name) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && has(t.colNamesMap, name), t.colNames), when(t != nil && has(t.colNamesMap, name), t.colTypes), when(t != nil && has(t.colNamesMap, name), t.sortKeys), when(t != nil && has(t.colNamesMap, name), mapof(t.colNamesMap)),
           when(t != nil && has(t.colNamesMap, name), elems(t.colNames)), when(t != nil && has(t.colNamesMap, name), elems(t.colTypes)),
           when(t != nil && has(t.colNamesMap, name), elems(t.rows)), when(t != nil && has(t.colNamesMap, name), each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> old(t != nil && has(t.colNamesMap, name))
  ensures [count] err == nil ==> len(t.colNames) == old(len(t.colNames)) - 1 && len(t.rows) == old(len(t.rows))
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} incol(t, i) ==> t.colNames[i] == old(t.colNames[i < t.colNamesMap[name] ? i : i + 1]))
  ensures [types] err == nil ==> (forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] == old(t.colTypes[i < t.colNamesMap[name] ? i : i + 1]))
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][i < t.colNamesMap[name] ? i : i + 1]))
  ensures [keys] err == nil ==> len(t.sortKeys) == old(kept(t.sortKeys, len(t.sortKeys), name))
  ensures [keyorder] err == nil ==> (forall j int :: {old(t.sortKeys[j])} 0 <= j < old(len(t.sortKeys)) && old(t.sortKeys[j]).colName != name ==>
      t.sortKeys[old(kept(t.sortKeys, j, name))] == old(t.sortKeys[j]))
  ensures [wf] t != nil ==> wf(t)

pred renok(t *Table, a, b string) = t != nil && has(t.colNamesMap, a) && !has(t.colNamesMap, b) && validName(b)
pred keyren(o, n sortKey, a, b string) = n.colName == (o.colName == a ? b : o.colName) && n.colType == o.colType && n.reverse == o.reverse && n.sortFunc == o.sortFunc

func (t *Table) RenameCol(a, b) (err)
  requires t != nil ==> wf(t)
  modifies when(renok(t, a, b), elem(t.colNames, t.colNamesMap[a])), when(renok(t, a, b), mapof(t.colNamesMap)), when(renok(t, a, b), elems(t.sortKeys))
  ensures [iff] (err == nil) <==> old(renok(t, a, b))
  ensures [name] err == nil ==> t.colNames[old(t.colNamesMap[a])] == b
  ensures [map] err == nil ==> !has(t.colNamesMap, a) && has(t.colNamesMap, b)
  ensures [keys] err == nil ==> (forall i int :: {t.sortKeys[i]} 0 <= i < len(t.sortKeys) ==> keyren(old(t.sortKeys[i]), t.sortKeys[i], a, b))
  ensures [wf] t != nil ==> wf(t)
  inv forall i int :: {t.sortKeys[i]} 0 <= i < $k ==> keyren(old(t.sortKeys[i]), t.sortKeys[i], a, b)
  inv forall i int :: {t.sortKeys[i]} $k <= i < len(t.sortKeys) ==> t.sortKeys[i] == old(t.sortKeys[i])

func (t *Table) RenameColByColIndex(c, b) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && incol(t, c) && renok(t, t.colNames[c], b), elem(t.colNames, c)), when(t != nil && incol(t, c) && renok(t, t.colNames[c], b), mapof(t.colNamesMap)), when(t != nil && incol(t, c) && renok(t, t.colNames[c], b), elems(t.sortKeys))
  ensures [iff] (err == nil) <==> old(t != nil && incol(t, c) && renok(t, t.colNames[c], b))
  ensures [name] err == nil ==> t.colNames[c] == b
  ensures [keys] err == nil ==> (forall i int :: {t.sortKeys[i]} 0 <= i < len(t.sortKeys) ==> keyren(old(t.sortKeys[i]), t.sortKeys[i], old(t.colNames[c]), b))
  ensures [wf] t != nil ==> wf(t)

pred swp(k, i, j int) = k == i ? j : (k == j ? i : k)
pred swapcok(t *Table, i, j int) = t != nil && incol(t, i) && incol(t, j) && i != j
pred swapnok(t *Table, a, b string) = t != nil && has(t.colNamesMap, a) && has(t.colNamesMap, b) && a != b

func (t *Table) SwapColsByColIndex(i, j) (err)
  requires t != nil ==> wf(t)
  modifies when(swapcok(t, i, j), elems(t.colNames)), when(swapcok(t, i, j), elems(t.colTypes)), when(swapcok(t, i, j), mapof(t.colNamesMap)), when(swapcok(t, i, j), each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> old(swapcok(t, i, j))
  ensures [names] err == nil ==> (forall k int :: {t.colNames[k]} incol(t, k) ==> t.colNames[k] == old(t.colNames[swp(k, i, j)]))
  ensures [types] err == nil ==> (forall k int :: {t.colTypes[k]} incol(t, k) ==> t.colTypes[k] == old(t.colTypes[swp(k, i, j)]))
  ensures [cells] err == nil ==> (forall r, k int :: {t.rows[r][k]} inrow(t, r) && incol(t, k) ==> t.rows[r][k] == old(t.rows[r][swp(k, i, j)]))
  ensures [wf] t != nil ==> wf(t)
  inv forall r, k int :: {t.rows[r][k]} 0 <= r < $k && incol(t, k) ==> t.rows[r][k] == old(t.rows[r][swp(k, i, j)])
  inv forall r, k int :: {t.rows[r][k]} $k <= r < len(t.rows) && incol(t, k) ==> t.rows[r][k] == old(t.rows[r][k])

func (t *Table) SwapCols(a, b) (err)
  requires t != nil ==> wf(t)
  modifies when(swapnok(t, a, b), elems(t.colNames)), when(swapnok(t, a, b), elems(t.colTypes)), when(swapnok(t, a, b), mapof(t.colNamesMap)), when(swapnok(t, a, b), each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> old(swapnok(t, a, b))
  ensures [names] err == nil ==> (forall k int :: {t.colNames[k]} incol(t, k) ==> t.colNames[k] == old(t.colNames[swp(k, t.colNamesMap[a], t.colNamesMap[b])]))
  ensures [types] err == nil ==> (forall k int :: {t.colTypes[k]} incol(t, k) ==> t.colTypes[k] == old(t.colTypes[swp(k, t.colNamesMap[a], t.colNamesMap[b])]))
  ensures [cells] err == nil ==> (forall r, k int :: {t.rows[r][k]} inrow(t, r) && incol(t, k) ==> t.rows[r][k] == old(t.rows[r][swp(k, t.colNamesMap[a], t.colNamesMap[b])]))
  ensures [wf] t != nil ==> wf(t)
  inv forall r, k int :: {t.rows[r][k]} 0 <= r < $k && incol(t, k) ==> t.rows[r][k] == old(t.rows[r][swp(k, t.colNamesMap[a], t.colNamesMap[b])])
  inv forall r, k int :: {t.rows[r][k]} $k <= r < len(t.rows) && incol(t, k) ==> t.rows[r][k] == old(t.rows[r][k])

func (t *Table) Reverse() (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil, elems(t.rows))
  ensures [iff] (err == nil) <==> t != nil
  ensures [rev] err == nil ==> (forall r int :: {t.rows[r]} inrow(t, r) ==> t.rows[r] == old(t.rows[len(t.rows) - 1 - r]))
  ensures [wf] t != nil ==> wf(t)
  inv $k + $k <= len(t.rows) + 1
  inv forall r int :: {t.rows[r]} 0 <= r < $k ==> t.rows[r] == old(t.rows[len(t.rows) - 1 - r]) && t.rows[len(t.rows) - 1 - r] == old(t.rows[r])
  inv forall r int :: {t.rows[r]} len(t.rows) - $k <= r < len(t.rows) ==> t.rows[r] == old(t.rows[len(t.rows) - 1 - r])
  inv forall r int :: {t.rows[r]} $k <= r < len(t.rows) - $k ==> t.rows[r] == old(t.rows[r])

// sort.Ints sorts in place; sortq and sortp are the position maps of some sorting permutation and its inverse.
uf sortp(a [0]int, o int, n int, i int) int
uf sortq(a [0]int, o int, n int, i int) int
extern sort.Ints(s)
  modifies elems(s)
  ensures forall i, j int :: {s[i], s[j]} 0 <= i < j < len(s) ==> s[i] <= s[j]
  ensures forall i int :: {s[i]} 0 <= i < len(s) ==> 0 <= old(sortp(elemsOf(s), off(s), len(s), i)) < len(s) && s[i] == old(s[sortp(elemsOf(s), off(s), len(s), i)]) && old(sortq(elemsOf(s), off(s), len(s), sortp(elemsOf(s), off(s), len(s), i))) == i
  ensures forall i int :: {old(s[i])} 0 <= i < len(s) ==> 0 <= old(sortq(elemsOf(s), off(s), len(s), i)) < len(s) && old(s[i]) == s[old(sortq(elemsOf(s), off(s), len(s), i))] && old(sortp(elemsOf(s), off(s), len(s), sortq(elemsOf(s), off(s), len(s), i))) == i

// o lists the positions 0..n-1, each once
uf mark(v int) bool
axiom on mark: forall v int :: {mark(v)} mark(v)
pred allperm(o []int, n int) = (forall i int :: {o[i]} 0 <= i < n ==> 0 <= o[i] < n) && (forall i, j int :: {o[i], o[j]} 0 <= i < j < n ==> o[i] != o[j])
pred isperm(o []int, n int) = len(o) == n && allperm(o, n) && (forall v int :: {mark(v)} 0 <= v < n && mark(v) ==> (exists i int :: {o[i]} 0 <= i < n && o[i] == v))

func (t *Table) ReorderColsByColIndex(o) (err)
  requires t != nil ==> wf(t)
  modifies when(t != nil && isperm(o, len(t.colNames)), elems(t.colNames)), when(t != nil && isperm(o, len(t.colNames)), elems(t.colTypes)), when(t != nil && isperm(o, len(t.colNames)), mapof(t.colNamesMap)), when(t != nil && isperm(o, len(t.colNames)), each(r, 0, len(t.rows), elems(t.rows[r])))
  ensures [iff] (err == nil) <==> old(t != nil && isperm(o, len(t.colNames)))
  ensures [perm] err == nil ==> allperm(o, len(t.colNames))
  ensures [names] err == nil ==> (forall i int :: {t.colNames[i]} incol(t, i) ==> t.colNames[i] == old(t.colNames[o[i]]))
  ensures [types] err == nil ==> (forall i int :: {t.colTypes[i]} incol(t, i) ==> t.colTypes[i] == old(t.colTypes[o[i]]))
  ensures [cells] err == nil ==> (forall r, i int :: {t.rows[r][i]} inrow(t, r) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][o[i]]))
  hint t != nil ==> (forall s str :: {has(t.colNamesMap, s)} has(t.colNamesMap, s) ==> old(has(t.colNamesMap, s)) && mark(old(t.colNamesMap[s])))
  hint t != nil ==> wfcols(t)
  ensures [wf] t != nil ==> wf(t)
  inv mark($k)
  inv $k == 0 || s[$k-1] == $k-1
  inv forall v int :: {mark(v)} 0 <= v < $k && mark(v) ==> s[v] == v
  inv forall v int :: {s[v]} 0 <= v < $k ==> s[v] == v
  inv allperm(o, len(t.colNames))
  inv forall i int :: {t.colNames[i]} 0 <= i < $k ==> t.colNames[i] == old(t.colNames[o[i]])
  inv forall i int :: {t.colNames[i]} $k <= i < len(t.colNames) ==> t.colNames[i] == old(t.colNames[i])
  inv forall i int :: {t.colNames[i]} 0 <= i < len(t.colNames) ==> t.colNames[i] == old(t.colNames[o[i]])
  inv forall i int :: {t.colTypes[i]} 0 <= i < len(t.colTypes) ==> t.colTypes[i] == old(t.colTypes[i])
  inv forall i int :: {t.colTypes[i]} 0 <= i < $k ==> t.colTypes[i] == old(t.colTypes[o[i]])
  inv forall i int :: {t.colTypes[i]} $k <= i < len(t.colTypes) ==> t.colTypes[i] == old(t.colTypes[i])
  inv forall i int :: {t.colTypes[i]} 0 <= i < len(t.colTypes) ==> t.colTypes[i] == old(t.colTypes[o[i]])
  inv forall s str :: {has(t.colNamesMap, s)} has(t.colNamesMap, s) <==> old(has(t.colNamesMap, s))
  inv forall i int :: {old(t.colNames[o[i]])} 0 <= i < $k ==> t.colNamesMap[old(t.colNames[o[i]])] == i
  inv wfcols(t)
  inv forall r, i int :: {t.rows[r][i]} 0 <= r < $k && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][o[i]])
  inv forall r, i int :: {t.rows[r][i]} $k <= r < len(t.rows) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][i])
  inv forall r, i int :: {t.rows[r][i]} 0 <= r < $k0 && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][o[i]])
  inv forall r, i int :: {t.rows[r][i]} $k0 < r < len(t.rows) && incol(t, i) ==> t.rows[r][i] == old(t.rows[r][i])
  inv forall i int :: {t.rows[$k0][i]} 0 <= i < $k ==> t.rows[$k0][i] == old(t.rows[$k0][o[i]])
  inv forall i int :: {t.rows[$k0][i]} $k <= i < len(t.colNames) ==> t.rows[$k0][i] == old(t.rows[$k0][i])
