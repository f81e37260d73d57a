// Parsing a row of text: token by token, each integer token read as the number it denotes.
uf isnum(s string, base int) bool
uf isnat(s string, base int) bool
uf numval(s string, base int) int
pred intfits(v, b int) = b == 8 ? (-128 <= v <= 127) : (b == 16 ? (-32768 <= v <= 32767) : (b == 32 ? (-2147483648 <= v <= 2147483647) : (-9223372036854775808 <= v <= 9223372036854775807)))
pred natfits(v, b int) = 0 <= v && (b == 8 ? v <= 255 : (b == 16 ? v <= 65535 : (b == 32 ? v <= 4294967295 : v <= 18446744073709551615)))
pred bitsize(b int) = b == 8 || b == 16 || b == 32 || b == 64

extern strconv.ParseInt(s, base, bitSize) (v, err)
  pure
  ensures bitsize(bitSize) ==> ((err == nil) <==> isnum(s, base) && intfits(numval(s, base), bitSize))
  ensures bitsize(bitSize) && err == nil ==> v == numval(s, base)
extern strconv.ParseUint(s, base, bitSize) (v, err)
  pure
  ensures bitsize(bitSize) ==> ((err == nil) <==> isnat(s, base) && natfits(numval(s, base), bitSize))
  ensures bitsize(bitSize) && err == nil ==> v == numval(s, base)

// the base of a literal and its digits
pred octal(s string) = len(s) >= 2 && s[0] == 48
pred pre2(s string, a, b string) = substr(s, 0, 2) == a || substr(s, 0, 2) == b
pred litbase(s string) = !octal(s) ? 10 : (pre2(s, "0b", "0B") ? 2 : (pre2(s, "0x", "0X") ? 16 : 8))
pred litbody(s string) = octal(s) && (pre2(s, "0b", "0B") || pre2(s, "0o", "0O") || pre2(s, "0x", "0X")) ? substr(s, 2, len(s)) : s
pred intlit(s string, b int) = len(s) > 0 && isnum(litbody(s), litbase(s)) && intfits(numval(litbody(s), litbase(s)), b)
pred natlit(s string, b int) = len(s) > 0 && isnat(litbody(s), litbase(s)) && natfits(numval(litbody(s), litbase(s)), b)
pred litval(s string) = numval(litbody(s), litbase(s))

func parseInt(s, bitSize) (v, err)
  pure
  requires bitsize(bitSize)
  ensures [accept] (err == nil) <==> intlit(s, bitSize)
  ensures [value] err == nil ==> v == litval(s) && intfits(v, bitSize)

func parseUint(s, bitSize) (v, err)
  pure
  requires bitsize(bitSize)
  ensures [accept] (err == nil) <==> natlit(s, bitSize)
  ensures [value] err == nil ==> v == litval(s) && natfits(v, bitSize)

func rangeForIntegerType(min, max) (s)
  pure

func plural(items) (s)
  pure

// regular expressions: where the leftmost match lies
uf rematch(re *regexp.Regexp, s string) bool
uf relo(re *regexp.Regexp, s string) int
uf rehi(re *regexp.Regexp, s string) int
uf trimleft(s, cut string) string
extern (re *regexp.Regexp) FindStringIndex(s) (loc)
  pure
  requires re != nil
  ensures (loc == nil) <==> !rematch(re, s)
  ensures loc != nil ==> len(loc) == 2 && loc[0] == relo(re, s) && loc[1] == rehi(re, s) && 0 <= relo(re, s) <= rehi(re, s) <= len(s)
extern (re *regexp.Regexp) Split(s, n) (parts)
  pure
  requires re != nil
extern strings.TrimLeft(s, cut) (r)
  pure
  ensures r == trimleft(s, cut)
extern strings.Trim(s, cut) (r)
  pure
extern strconv.Unquote(s) (r, err)
  pure
extern strconv.UnquoteChar(s, quote) (v, mb, tail, err)
  pure
extern strconv.ParseBool(s) (b, err)
  pure
extern strconv.ParseFloat(s, bitSize) (f, err)
  pure
extern time.Parse(layout, s) (t, err)
  pure
extern log.Printf(format, a)
  pure

ginv stringRegexp: stringRegexp != nil
ginv boolRegexp: boolRegexp != nil
ginv runeRegexp: runeRegexp != nil
ginv uintRegexp: uintRegexp != nil
ginv uintSliceRegexp: uintSliceRegexp != nil
ginv intRegexp: intRegexp != nil
ginv floatRegexp: floatRegexp != nil
ginv tableNameRegexp: tableNameRegexp != nil
ginv tableNameNilRegexp: tableNameNilRegexp != nil
ginv rfc3339TimeRegexp: rfc3339TimeRegexp != nil
ginv whiteRegexp: whiteRegexp != nil
extern regexp.MustCompile(s) (re)
  pure
  maypanic
  ensures re != nil

// assumed of the pattern of uintSliceRegexp (both brackets are part of every match); the C14 driver checks it on the compiled expression
axiom on rematch: forall s string :: {rematch(uintSliceRegexp, s)} rematch(uintSliceRegexp, s) ==> rehi(uintSliceRegexp, s) - relo(uintSliceRegexp, s) >= 2

func splitSliceString(s) (parts)

func parseRune(s) (v, err)
  pure

func (p *parser) gotFilePos() (s)
  requires p != nil
  pure

pred intre(ct string) = ct == "int" || ct == "int8" || ct == "int16" || ct == "int32" || ct == "int64"
pred natre(ct string) = ct == "uint" || ct == "uint8" || ct == "byte" || ct == "uint16" || ct == "uint32" || ct == "uint64"
pred bitsof(ct string) = (ct == "int8" || ct == "uint8" || ct == "byte") ? 8 : ((ct == "int16" || ct == "uint16") ? 16 : ((ct == "int32" || ct == "uint32") ? 32 : 64))
pred tokre(ct string) = intre(ct) ? intRegexp : (natre(ct) ? uintRegexp : (ct == "string" ? stringRegexp : (ct == "bool" ? boolRegexp
  : ((ct == "[]uint8" || ct == "[]byte") ? uintSliceRegexp : (ct == "rune" ? runeRegexp : ((ct == "float32" || ct == "float64") ? floatRegexp : rfc3339TimeRegexp))))))
pred tokend(ct, s string) = ct == "*Table" ? (rematch(tableNameRegexp, s) ? rehi(tableNameRegexp, s) : rehi(tableNameNilRegexp, s)) : rehi(tokre(ct), s)
// the rest of the line before the i-th token
uf rest(T [0]string, o int, line string, i int) string
axiom on rest: forall T [0]string, o int, line string :: {rest(T, o, line, 0)} rest(T, o, line, 0) == line
axiom on rest: forall T [0]string, o int, line string, i int :: {rest(T, o, line, i), T[idx(o, i)]} i >= 0 ==>
  rest(T, o, line, i + 1) == trimleft(substr(rest(T, o, line, i), tokend(T[idx(o, i)], rest(T, o, line, i)), len(rest(T, o, line, i))), " \t")
// the integer literal at the head of s, for a column of type ct
pred tok(ct, s string) = substr(s, relo(tokre(ct), s), rehi(tokre(ct), s))
pred intok(ct, s string) = len(s) > 0 && rematch(tokre(ct), s) && (intre(ct) ? intlit(tok(ct, s), bitsof(ct)) : natlit(tok(ct, s), bitsof(ct)))
pred inttype(ct string) = intre(ct) || natre(ct)
pred intcell(ct string, s string, v interface{}) = intok(ct, s) 
  && (ct == "int" ==> as(v, int) == litval(tok(ct, s)))
  && (ct == "int8" ==> as(v, int8) == litval(tok(ct, s)))
  && (ct == "int16" ==> as(v, int16) == litval(tok(ct, s)))
  && (ct == "int32" ==> as(v, int32) == litval(tok(ct, s)))
  && (ct == "int64" ==> as(v, int64) == litval(tok(ct, s)))
  && (ct == "uint" ==> as(v, uint) == litval(tok(ct, s)))
  && ((ct == "uint8" || ct == "byte") ==> as(v, uint8) == litval(tok(ct, s)))
  && (ct == "uint16" ==> as(v, uint16) == litval(tok(ct, s)))
  && (ct == "uint32" ==> as(v, uint32) == litval(tok(ct, s)))
  && (ct == "uint64" ==> as(v, uint64) == litval(tok(ct, s)))

func (p *parser) getRowSlice(line, table, names, types) (row, err)
  requires p != nil
  requires len(names) == len(types)
  ensures [shape] err == nil ==> len(row) == len(names) && fresh(row)
  ensures [typed] err == nil ==> (forall i int :: {row[i]} 0 <= i < len(row) ==> cellok(types[i], row[i]))
  ensures [ints] err == nil ==> (forall i int :: {row[i]} 0 <= i < len(row) && inttype(types[i]) ==> intcell(types[i], rest(elemsOf(types), off(types), line, i), row[i]))
  ensures [accept] (forall i int :: {types[i]} {rest(elemsOf(types), off(types), line, i)} 0 <= i < len(types) ==> inttype(types[i]) && intok(types[i], rest(elemsOf(types), off(types), line, i))) && len(rest(elemsOf(types), off(types), line, len(types))) == 0 ==> err == nil
  ensures [end] err == nil ==> len(rest(elemsOf(types), off(types), line, len(types))) == 0
  inv0 0 <= $k <= len(types)
  inv0 remaining == rest(elemsOf(types), off(types), line, $k)
  inv0 forall i int :: {rowSlice[i]} 0 <= i < $k ==> cellok(types[i], rowSlice[i])
  inv0 forall i int :: {rowSlice[i]} 0 <= i < $k && inttype(types[i]) ==> intcell(types[i], rest(elemsOf(types), off(types), line, i), rowSlice[i])
