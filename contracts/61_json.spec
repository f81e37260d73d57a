// integers are read exactly
uf decpoint(s string) bool
extern strings.ContainsAny(s, chars) (b)
  pure
  ensures chars == ".eE" ==> (b <==> decpoint(s))
extern (n json.Number) Float64() (f, err)
  pure
extern (n json.Number) String() (s)
  pure
  ensures s == n
func intFromJSON(n, bitSize) (v, err)
  pure
  requires bitsize(bitSize)
  ensures [exact] err == nil && !decpoint(n) ==> isnum(n, 10) && v == numval(n, 10) && intfits(v, bitSize)
func uintFromJSON(n, bitSize) (v, err)
  pure
  requires bitsize(bitSize)
  ensures [exact] err == nil && !decpoint(n) ==> isnat(n, 10) && v == numval(n, 10) && natfits(v, bitSize)
