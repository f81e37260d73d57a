// Table sets: a list of tables, none nil, names unique.
pred intab(s *TableSet, i int) = 0 <= i < len(s.tables)
pred wfs(s *TableSet) = (forall i int :: {s.tables[i]} intab(s, i) ==> s.tables[i] != nil)
  && (forall i, j int :: {s.tables[i], s.tables[j]} 0 <= i < j < len(s.tables) ==> s.tables[i].tableName != s.tables[j].tableName)
pred hastab(s *TableSet, name string) = exists i int :: {s.tables[i]} intab(s, i) && s.tables[i].tableName == name

func NewTableSet(name) (s, err)
  ensures [ok] err == nil && s != nil && fresh(s) && len(s.tables) == 0 && s.tableSetName == name && s.fileName == "" && wfs(s)
  ensures [own] fresh(s.tables) && cap(s.tables) == 0

func (s *TableSet) TableCount() (n)
  ensures n == (s == nil ? -1 : len(s.tables))

func (s *TableSet) Name() (n)
  ensures s != nil ==> n == s.tableSetName
  ensures s == nil ==> n == ""

func (s *TableSet) SetName(name) (err)
  modifies when(s != nil, s.tableSetName)
  ensures (err == nil) <==> s != nil
  ensures err == nil ==> s.tableSetName == name

func (s *TableSet) FileName() (n)
  ensures s != nil ==> n == s.fileName
  ensures s == nil ==> n == ""

func (s *TableSet) SetFileName(name)
  modifies when(s != nil, s.fileName)
  ensures s != nil ==> s.fileName == name

foreach $F in AppendTable Append {
func (s *TableSet) $F(t) (err)
  requires s != nil ==> wfs(s)
  modifies when(s != nil && t != nil && !hastab(s, t.tableName), s.tables), when(s != nil && t != nil && !hastab(s, t.tableName), each(i, len(s.tables), cap(s.tables), elem(s.tables, i)))
  ensures [iff] (err == nil) <==> s != nil && t != nil && old(!hastab(s, t.tableName))
  ensures [count] err == nil ==> len(s.tables) == old(len(s.tables)) + 1 && s.tables[len(s.tables)-1] == t
  ensures [keep] err == nil ==> (forall i int :: {s.tables[i]} 0 <= i < old(len(s.tables)) ==> s.tables[i] == old(s.tables[i]))
  ensures [wf] s != nil ==> wfs(s)
  inv forall i int :: {s.tables[i]} 0 <= i < $k ==> s.tables[i].tableName != t.tableName
}

func (s *TableSet) HasTable(name) (ok, err)
  requires s != nil ==> wfs(s)
  ensures [iff] ok <==> s != nil && hastab(s, name)
  ensures [err] (err == nil) <==> ok
  inv forall i int :: {s.tables[i]} 0 <= i < $k ==> s.tables[i].tableName != name

func (s *TableSet) GetTable(name) (t, err)
  requires s != nil ==> wfs(s)
  ensures [iff] (err == nil) <==> s != nil && hastab(s, name)
  ensures [is] err == nil ==> t != nil && t.tableName == name && (exists i int :: {s.tables[i]} intab(s, i) && s.tables[i] == t)
  ensures [nil] err != nil ==> t == nil
  inv forall i int :: {s.tables[i]} 0 <= i < $k ==> s.tables[i].tableName != name

foreach $F in GetTableByTableIndex {
func (s *TableSet) $F(i) (t, err)
  ensures [iff] (err == nil) <==> s != nil && intab(s, i)
  ensures [is] err == nil ==> t == s.tables[i]
  ensures [nil] err != nil ==> t == nil
}

func (s *TableSet) TableIndex(name) (k, err)
  requires s != nil ==> wfs(s)
  ensures [iff] (err == nil) <==> s != nil && hastab(s, name)
  ensures [is] err == nil ==> intab(s, k) && s.tables[k].tableName == name
  ensures [nil] err != nil ==> k == -1
  inv forall i int :: {s.tables[i]} 0 <= i < $k ==> s.tables[i].tableName != name

func (s *TableSet) DeleteTableByTableIndex(k) (err)
  requires s != nil ==> wfs(s)
  modifies when(s != nil && intab(s, k), s.tables), when(s != nil && intab(s, k), elems(s.tables))
  ensures [iff] (err == nil) <==> s != nil && old(intab(s, k))
  ensures [count] err == nil ==> len(s.tables) == old(len(s.tables)) - 1
  ensures [before] err == nil ==> (forall i int :: {s.tables[i]} 0 <= i < k ==> s.tables[i] == old(s.tables[i]))
  ensures [after] err == nil ==> (forall i int :: {s.tables[i]} k <= i < len(s.tables) ==> s.tables[i] == old(s.tables[i + 1]))
  ensures [wf] s != nil ==> wfs(s)

func (s *TableSet) DeleteTable(name) (err)
  requires s != nil ==> wfs(s)
  modifies when(s != nil && hastab(s, name), s.tables), when(s != nil && hastab(s, name), elems(s.tables))
  ensures [iff] (err == nil) <==> s != nil && old(hastab(s, name))
  ensures [count] err == nil ==> len(s.tables) == old(len(s.tables)) - 1
  ensures [gone] err == nil ==> !hastab(s, name)
  ensures [rest] err == nil ==> (exists k int :: {old(s.tables[k])} 0 <= k <= len(s.tables) && old(s.tables[k]).tableName == name
     && (forall i int :: {s.tables[i]} 0 <= i < k ==> s.tables[i] == old(s.tables[i]))
     && (forall i int :: {s.tables[i]} k <= i < len(s.tables) ==> s.tables[i] == old(s.tables[i + 1])))
  ensures [wf] s != nil ==> wfs(s)

func (s *TableSet) RenameTable(from, to) (err)
  requires s != nil ==> wfs(s)
  modifies when(s != nil && hastab(s, from) && !hastab(s, to) && validName(to), each(i, 0, len(s.tables), s.tables[i].tableName)), when(s != nil && hastab(s, from) && !hastab(s, to) && validName(to), each(i, 0, len(s.tables), s.tables[i].isNilTable))
  ensures [iff] (err == nil) <==> s != nil && old(hastab(s, from)) && old(!hastab(s, to)) && validName(to)
  ensures [names] err == nil ==> (forall i int :: {s.tables[i]} intab(s, i) ==> s.tables[i].tableName == (old(s.tables[i].tableName) == from ? to : old(s.tables[i].tableName)))
  ensures [others] err == nil ==> (forall i int :: {s.tables[i]} intab(s, i) && old(s.tables[i].tableName) != from ==> s.tables[i].isNilTable == old(s.tables[i].isNilTable))
  ensures [wf] s != nil ==> wfs(s)
