// Names: ASCII letter or underscore, then ASCII letters, digits, underscores; not the name of a column type.
pred letter(c int) = (65 <= c <= 90) || (97 <= c <= 122) || c == 95
pred namechar(c int) = letter(c) || (48 <= c <= 57)
opaque ident(s string) = len(s) > 0 && letter(s[0]) && (forall i int :: {s[i]} 0 <= i < len(s) ==> namechar(s[i]))
pred validName(s string) = ident(s) && !validType(s)

func isValidName(name) (ok, err)
  ensures [iff] ok <==> ident(name)
  ensures [err] (err == nil) <==> ok
  inv forall i int :: {name[i]} 0 <= i < $k + 1 ==> namechar(name[i])

func IsValidColName(name) (ok, err)
  ensures [iff] ok <==> validName(name)
  ensures [err] (err == nil) <==> ok

func IsValidTableName(name) (ok, err)
  ensures [iff] ok <==> validName(name)
  ensures [err] (err == nil) <==> ok

func IsValidColType(ct) (ok, err)
  ensures [iff] ok <==> validType(ct)
  ensures [err] (err == nil) <==> ok

func IsNumericColType(ct) (ok)
  ensures [iff] validType(ct) ==> ok == (ct == "byte" || ct == "float32" || ct == "float64" || ct == "int" || ct == "int16" || ct == "int32" || ct == "int64" || ct == "int8"
     || ct == "uint" || ct == "uint16" || ct == "uint32" || ct == "uint64" || ct == "uint8")

func IsSliceColType(ct) (ok)
  ensures [iff] ok <==> ct == "[]byte" || ct == "[]uint8"

func IsTableColType(ct) (ok)
  ensures [iff] ok <==> ct == "*Table"

trusted invalidColTypeMsg(a, b) (s)
  pure

func (t *Table) SetName(name) (err)
  modifies when(t != nil && validName(name), t.tableName), when(t != nil && validName(name), t.isNilTable)
  ensures [iff] (err == nil) <==> t != nil && validName(name)
  ensures [set] err == nil ==> t.tableName == name && !t.isNilTable

func (t *Table) RenameTable(name) (err)
  modifies when(t != nil && validName(name), t.tableName), when(t != nil && validName(name), t.isNilTable)
  ensures [iff] (err == nil) <==> t != nil && validName(name)
  ensures [set] err == nil ==> t.tableName == name && !t.isNilTable

func (t *Table) IsNilTable() (b, err)
  ensures (err == nil) <==> t != nil
  ensures b <==> t != nil && t.isNilTable

func (t *Table) IsStructShape() (b, err)
  ensures (err == nil) <==> t != nil
  ensures b <==> t != nil && t.isStructShape

func (t *Table) SetStructShape(b) (err)
  modifies when(t != nil, t.isStructShape)
  ensures (err == nil) <==> t != nil
  ensures err == nil ==> t.isStructShape == b

func (t *Table) ParentTable() (p)
  ensures p == (t == nil ? nil : t.parentTable)

func NewTable(name) (t, err)
  ensures [iff] (err == nil) <==> validName(name)
  ensures [nil] err != nil ==> t == nil
  ensures [new] err == nil ==> t != nil && fresh(t) && wf(t) && t.tableName == name && !t.isNilTable
  ensures [empty] err == nil ==> len(t.colNames) == 0 && len(t.rows) == 0 && len(t.sortKeys) == 0 && t.parentTable == nil && !t.isStructShape
  ensures [own] err == nil ==> fresh(t.colNamesMap) && fresh(t.colNames) && fresh(t.colTypes) && fresh(t.rows) && cap(t.colNames) == 0 && cap(t.colTypes) == 0 && cap(t.rows) == 0
