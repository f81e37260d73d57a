// Comma-separated output. The log of records handed to a csv.Writer is ghost state; that the writer's
// text reads back as exactly those records is assumed of encoding/csv.

ghost csvbuf(w *csv.Writer) *bytes.Buffer
ghost csvn(w *csv.Writer) int
ghost csvlen(w *csv.Writer, i int) int
ghost csvf(w *csv.Writer, i int, j int) str
ghost lastcsv() *csv.Writer
uf csvdoc(w *csv.Writer, n int) str

extern csv.NewWriter(w) (cw)
  requires is(w, *bytes.Buffer) && buftext(as(w, *bytes.Buffer)) == ""
  ensures fresh(cw) && csvn(cw) == 0 && csvbuf(cw) == as(w, *bytes.Buffer)

extern (w *csv.Writer) Write(record) (err)
  requires w != nil
  modifies ghost(csvn, w), ghost(csvlen, w), ghost(csvf, w), ghost(buftext, csvbuf(w))
  ensures csvn(w) == old(csvn(w)) + (err == nil ? 1 : 0)
  ensures err == nil ==> csvlen(w, old(csvn(w))) == len(record)
  ensures err == nil ==> forall j int :: {csvf(w, old(csvn(w)), j)} 0 <= j < len(record) ==> csvf(w, old(csvn(w)), j) == record[j]
  ensures forall i int :: {csvlen(w, i)} i != old(csvn(w)) ==> csvlen(w, i) == old(csvlen(w, i))
  ensures forall i, j int :: {csvf(w, i, j)} i != old(csvn(w)) ==> csvf(w, i, j) == old(csvf(w, i, j))

extern (w *csv.Writer) Flush()
  requires w != nil
  modifies ghost(buftext, csvbuf(w)), ghost(lastcsv)
  ensures lastcsv() == w
  ensures buftext(csvbuf(w)) == csvdoc(w, csvn(w))

extern (w *csv.Writer) Error() (err)
  pure

pred isfloat(ct str) = ct == "float32" || ct == "float64"
pred csvcell(t *Table, c int, v any, s str) =
     (!isfloat(t.colTypes[c]) ==> celltext(t, c, v, s))
  && (t.colTypes[c] == "float64" ==> s == (floattext(as(v, float64), 102, 0 - 1, 64) == "NaN" ? "" : floattext(as(v, float64), 102, 0 - 1, 64)))
  && (t.colTypes[c] == "float32" ==> s == (floattext(f64of(as(v, float32)), 102, 0 - 1, 32) == "NaN" ? "" : floattext(f64of(as(v, float32)), 102, 0 - 1, 32)))

func (t *Table) GetTableAsCSV(h) (s, err)
  requires t != nil ==> wf(t)
  modifies ghost(lastcsv)
  ensures [bad] t == nil || t.isNilTable || (len(h) > 0 && len(h) != len(t.colNames)) ==> err != nil
  ensures [count] err == nil ==> s == csvdoc(lastcsv(), 1 + len(t.rows)) && csvn(lastcsv()) == 1 + len(t.rows)
  ensures [fields] err == nil ==> forall i int :: {csvlen(lastcsv(), i)} 0 <= i <= len(t.rows) ==> csvlen(lastcsv(), i) == len(t.colNames)
  ensures [head] err == nil ==> forall c int :: {csvf(lastcsv(), 0, c)} incol(t, c) ==> csvf(lastcsv(), 0, c) == (len(h) > 0 && len(h[c]) > 0 ? h[c] : t.colNames[c])
  ensures [cells] err == nil ==> forall i, c int :: {csvf(lastcsv(), i, c)} 1 <= i <= len(t.rows) && incol(t, c) ==> csvcell(t, c, t.rows[i - 1][c], csvf(lastcsv(), i, c))
  inv fresh(record)
  inv len(record) == len(t.colNames)
  inv len(h) > 0 && err == nil && csvn(csvWriter) == 0 ==> forall c int :: {record[c]} 0 <= c < $k && c < len(h) ==> record[c] == (len(h[c]) > 0 ? h[c] : t.colNames[c])
  inv len(h) == 0 && csvn(csvWriter) == 0 ==> forall c int :: {record[c]} 0 <= c < $k && c < len(t.colNames) ==> record[c] == t.colNames[c]
  inv csvbuf(csvWriter) == buf
  inv0 $k <= len(t.rows)
  inv0 csvn(csvWriter) == 1 + $k
  inv1 csvn(csvWriter) == 1 + $k0
  inv csvn(csvWriter) > 0 ==> forall i int :: {csvlen(csvWriter, i)} 0 <= i < csvn(csvWriter) ==> csvlen(csvWriter, i) == len(t.colNames)
  inv csvn(csvWriter) > 0 ==> forall c int :: {csvf(csvWriter, 0, c)} incol(t, c) ==> csvf(csvWriter, 0, c) == (len(h) > 0 && len(h[c]) > 0 ? h[c] : t.colNames[c])
  inv csvn(csvWriter) > 0 ==> forall i, c int :: {csvf(csvWriter, i, c)} 1 <= i < csvn(csvWriter) && incol(t, c) ==> csvcell(t, c, t.rows[i - 1][c], csvf(csvWriter, i, c))
  inv1 forall c int :: {record[c]} 0 <= c < $k ==> csvcell(t, c, t.rows[$k0][c], record[c])
