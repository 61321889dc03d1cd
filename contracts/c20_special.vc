package github.com/abema/go-mp4/internal/util

// C20 - strings kept by boxes with rules of their own.

extern (b *bytes.Buffer).Write(p) (n, err)
  modifies wr(sink(b)), fdat(sink(b)), pos(sink(b))
  ensures err == nil && n == len(p)
  ensures 0 <= old(pos(sink(b))) && pos(sink(b)) == old(pos(sink(b))) + int64(n)
  ensures wr(sink(b)) == cat(old(wr(sink(b))), rowBytes(row(p), off(p), n))
  ensures forall i int :: {at(fdat(sink(b)), i)} at(fdat(sink(b)), i) == (int64(i) >= old(pos(sink(b))) && int64(i) < pos(sink(b)) ? p[i - int(old(pos(sink(b))))] : old(at(fdat(sink(b)), i)))

extern (b *bytes.Buffer).String() (r)
  pure
  ensures int64(len(r)) == pos(sink(b)) && encChars(r, len(r)) == wr(sink(b))
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == at(fdat(sink(b)), i)

// the text at p: its octets up to a zero
logic textAt(s ref, p int64, t string) bool = byteAt(s, p + int64(len(t))) == 0 && forall j int :: {t[j]} 0 <= j && j < len(t) ==> t[j] != 0 && t[j] == byteAt(s, p + int64(j))

func ReadString(r) (t, err)
  prop C20 C21
  requires [stream] size(under(r)) <= 1 << 46
  modifies pos(under(r))
  let s = under(r)
  ensures [text] err == nil ==> textAt(s, old(pos(s)), t)
  ensures [moved] err == nil ==> pos(s) == old(pos(s)) + int64(len(t)) + 1 && pos(s) <= size(s)
  loop 0
    invariant fresh(b) && len(b) == 1 && fresh(buf) && buf != nil && fresh(sink(buf)) && sink(buf) != s && old(pos(s)) + pos(sink(buf)) == pos(s) && 0 <= pos(sink(buf))
    invariant pos(sink(buf)) > 0 ==> pos(s) <= size(s) && 0 <= old(pos(s))
    invariant forall j int :: {at(fdat(sink(buf)), j)} 0 <= j && int64(j) < pos(sink(buf)) ==> at(fdat(sink(buf)), j) != 0 && at(fdat(sink(buf)), j) == byteAt(s, old(pos(s)) + int64(j))
    decreases size(s) - pos(s)

lemma rowText(r row!byte, o int, s string, n int)
  prop C20
  requires 0 <= n && n <= len(s)
  induct n
  ensures (forall j int :: {s[j]} 0 <= j && j < n ==> at(r, o + j) == s[j]) ==> rowBytes(r, o, n) == encChars(s, n)

func WriteString(w, s) (err)
  prop C20
  hint io.Writer.Write : len($p) == len(s) ==> rowText(row($p), off($p), s, len(s))
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures [text] err == nil ==> wr(sink(w)) == cat(cat(old(wr(sink(w))), encChars(s, len(s))), uintBits(0, 8))
