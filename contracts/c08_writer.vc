package github.com/abema/go-mp4

// C08 - the Writer.

represents sink(w *Writer) = sink(w.writer)
represents under(w *Writer) = under(w.writer)

logic okWriter(w *Writer) bool = w.writer != nil && under(w.writer) == sink(w.writer) && forall i int :: {w.biStack[i]} 0 <= i && i < len(w.biStack) ==> w.biStack[i] != nil

func NewWriter(w) (r)
  prop C08
  requires under(w) == sink(w)
  ensures r != nil && fresh(r) && okWriter(r) && len(r.biStack) == 0 && sink(r) == sink(w)

func (w *Writer).Write(p) (n, err)
  prop C08
  requires okWriter(w)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures 0 <= n && n <= len(p) && (n < len(p) ==> err != nil)
  ensures wr(sink(w)) == cat(old(wr(sink(w))), rowBytes(row(p), off(p), n))
  ensures 0 <= old(pos(sink(w))) && pos(sink(w)) == old(pos(sink(w))) + int64(n)
  ensures forall i int :: {at(fdat(sink(w)), i)} at(fdat(sink(w)), i) == (int64(i) >= old(pos(sink(w))) && int64(i) < pos(sink(w)) ? p[i - int(old(pos(sink(w))))] : old(at(fdat(sink(w)), i)))

func (w *Writer).Seek(offset, whence) (n, err)
  prop C08
  requires okWriter(w)
  modifies pos(sink(w))
  ensures 0 <= pos(under(w)) && (err == nil ==> n == pos(under(w)))
  ensures err == nil && whence == 0 ==> n == offset
  ensures err == nil && whence == 1 ==> n == old(pos(under(w))) + offset
  ensures err == nil && whence == 2 ==> n == size(under(w)) + offset

func (w *Writer).StartBox(bi) (r, err)
  prop C08
  requires okWriter(w)
  modifies w.biStack, elems(w.biStack), wr(sink(w)), fdat(sink(w)), pos(sink(w))
  let s = sink(w)
  let p = pos(sink(w))
  ensures okWriter(w)
  ensures [opened] err == nil ==> r != nil && len(w.biStack) == old(len(w.biStack)) + 1 && w.biStack[old(len(w.biStack))] == r
  ensures [below] forall i int :: {w.biStack[i]} 0 <= i && i < old(len(w.biStack)) ==> w.biStack[i] == old(w.biStack[i])
  ensures err != nil ==> len(w.biStack) == old(len(w.biStack))
  ensures err == nil ==> r.Offset == uint64(p) && r.HeaderSize == hdrLen(bi) && r.Size == bi.Size - bi.HeaderSize + r.HeaderSize && r.Type == bi.Type && r.ExtendToEOF == bi.ExtendToEOF
  ensures [octets] err == nil ==> pos(s) == p + int64(r.HeaderSize) && forall i int :: {at(fdat(s), i)} at(fdat(s), i) == (i >= int(p) && i < int(pos(s)) ? hdrByte(bi, i - int(p)) : old(at(fdat(s), i)))

func (w *Writer).EndBox() (r, err)
  prop C08
  requires okWriter(w) && len(w.biStack) > 0
  let b = w.biStack[len(w.biStack) - 1]
  requires b.Offset <= 0x7fffffffffffffff
  modifies w.biStack, b.Size, wr(sink(w)), fdat(sink(w)), pos(sink(w))
  let s = sink(w)
  let p = pos(sink(w))
  ensures okWriter(w) && len(w.biStack) == old(len(w.biStack)) - 1
  ensures [below] forall i int :: {w.biStack[i]} 0 <= i && i < len(w.biStack) ==> w.biStack[i] == old(w.biStack[i])
  ensures [lifo] err == nil ==> r == b
  ensures [size] err == nil ==> b.Size == uint64(p) - b.Offset
  ensures [fits] err == nil ==> b.HeaderSize == hdrLen(b)
  ensures [position] err == nil ==> pos(s) == p
  ensures [octets] err == nil ==> forall i int :: {at(fdat(s), i)} at(fdat(s), i) == (i >= int(b.Offset) && i < int(b.Offset + b.HeaderSize) ? hdrByte(b, i - int(b.Offset)) : old(at(fdat(s), i)))

func (w *Writer).CopyBox(r, bi) (err)
  prop C08
  requires okWriter(w) && under(r) != sink(w)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w)), pos(under(r)), wok(w), walign(w), wcont(w)
  let s = sink(w)
  let p = pos(sink(w))
  let c = under(r)
  ensures [length] err == nil ==> bi.Size <= 0x7fffffffffffffff && pos(s) == p + int64(bi.Size)
  ensures [verbatim] err == nil ==> forall i int :: {at(fdat(s), i)} at(fdat(s), i) == (i >= int(p) && i < int(pos(s)) ? byteAt(c, int64(bi.Offset) + int64(i - int(p))) : old(at(fdat(s), i)))
  ensures [bits] err == nil ==> wr(s) == cat(old(wr(s)), srcBytes(c, int64(bi.Offset), int64(bi.Size)))
