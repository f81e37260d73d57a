// Standard-library functions that the code may use in place of its own loops and comparisons (assumed contracts).
extern strings.Compare(a, b) (c)
  pure
  ensures c == cmpraw(a, b)
extern math.IsNaN(f) (b)
  pure
  ensures b <==> isNaN(f)
extern strings.HasPrefix(s, p) (b)
  pure
  ensures b <==> len(s) >= len(p) && substr(s, 0, len(p)) == p
extern strings.HasSuffix(s, p) (b)
  pure
  ensures b <==> len(s) >= len(p) && substr(s, len(s) - len(p), len(s)) == p
uf strcontains(s string, sub string) bool
extern strings.Contains(s, sub) (b)
  pure
  ensures b <==> strcontains(s, sub)

ghost buildtext(b *strings.Builder) str init ""
extern (b *strings.Builder) WriteString(s) (n, err)
  modifies ghost(buildtext, b)
  ensures buildtext(b) == old(buildtext(b)) + s && err == nil
extern (b *strings.Builder) WriteByte(c) (err)
  modifies ghost(buildtext, b)
  ensures buildtext(b) == old(buildtext(b)) + bytetext(c) && err == nil
extern (b *strings.Builder) String() (s)
  pure
  ensures s == buildtext(b)
