package github.com/abema/go-mp4/internal/bitio

// Streams.  Every reader r draws from a source under(r) with fixed content byteAt(under(r), i) and a byte position
// pos(under(r)); every writer w appends to a sink sink(w) whose content is the bit string wr(sink(w)).
ghost under(r ref) ref
ghost pos(s ref) int64
logic byteAt(s ref, i int64) byte
logic size(s ref) int64
axiom sizeBound: forall s ref :: {size(s)} 0 <= size(s) && size(s) <= 1 << 49
logic bitAt(s ref, i int64) bool = (byteAt(s, i >> 3) >> (7 - uint(i & 7))) & 1 != 0

// a solid source fails only at its end
logic solid(s ref) bool

iface io.Reader.Read(r, p) (n, err)
  modifies pos(under(r)), elems(p)
  ensures solid(under(r)) && len(p) > 0 && old(pos(under(r))) < size(under(r)) ==> n > 0
  ensures 0 <= n && n <= len(p) && pos(under(r)) == old(pos(under(r))) + int64(n)
  ensures forall i int :: 0 <= i && i < n ==> p[i] == byteAt(under(r), old(pos(under(r))) + int64(i))
  ensures n > 0 ==> pos(under(r)) <= size(under(r))
  ensures 0 <= pos(under(r)) && 0 <= old(pos(under(r)))

iface io.Seeker.Seek(r, offset, whence) (n, err)
  modifies pos(under(r))
  ensures 0 <= pos(under(r)) && 0 <= old(pos(under(r)))
  ensures err == nil ==> n == pos(under(r))
  ensures err == nil && whence == 0 ==> n == offset
  ensures solid(under(r)) && whence == 0 && 0 <= offset && offset <= size(under(r)) ==> err == nil
  ensures solid(under(r)) && whence == 1 && offset == 0 && 0 <= old(pos(under(r))) && old(pos(under(r))) <= size(under(r)) ==> err == nil
  ensures err == nil && whence == 1 ==> n == old(pos(under(r))) + offset
  ensures err == nil && whence == 2 ==> n == size(under(r)) + offset

// Bit strings: the free monoid over bits; uintBits(v, n) is the n-bit big-endian string of v < 2^n.
sort Bits
logic emp() Bits
logic cat(a Bits, b Bits) Bits
logic uintBits(v uint64, n uint64) Bits
logic blen(a Bits) uint64
logic mask(v uint64, n uint64) uint64 = v & ^(0xffffffffffffffff << n)
logic ubits(v uint64, n uint64) Bits = uintBits(mask(v, n), n)
axiom catEmpR: forall a Bits :: {cat(a, emp())} cat(a, emp()) == a
axiom catEmpL: forall a Bits :: {cat(emp(), a)} cat(emp(), a) == a
axiom catAssoc: forall a Bits, b Bits, c Bits :: {cat(cat(a, b), c)} cat(cat(a, b), c) == cat(a, cat(b, c))
axiom uint0: uintBits(0, 0) == emp()
axiom uintJoin: forall a uint64, p uint64, b uint64, q uint64 :: {cat(uintBits(a, p), uintBits(b, q))} p <= 64 && q <= 64 && p + q <= 64 && mask(a, p) == a && mask(b, q) == b ==> cat(uintBits(a, p), uintBits(b, q)) == uintBits(a << q | b, p + q)
axiom blenEmp: blen(emp()) == 0
axiom blenCat: forall a Bits, b Bits :: {blen(cat(a, b))} blen(cat(a, b)) == blen(a) + blen(b)
axiom blenUint: forall v uint64, n uint64 :: {blen(uintBits(v, n))} blen(uintBits(v, n)) == n

// a sink also has its bytes by offset (fdat) and the offset of the next one (pos)
ghost sink(w ref) ref
ghost wr(s ref) Bits
ghost fdat(s ref) row!byte

// the n bits of a byte row from bit position "from", most significant bit of each octet first
logic rowBit(r row!byte, i uint64) uint64 = uint64(at(r, int(i >> 3)) >> (7 - (i & 7))) & 1
rec 1 rowBits(r row!byte, from uint64, n uint64) Bits = n == 0 ? emp() : cat(rowBits(r, from, n - 1), uintBits(rowBit(r, from + n - 1), 1))
rec 2 rowBytes(r row!byte, from int, n int) Bits = n <= 0 ? emp() : cat(rowBytes(r, from, n - 1), uintBits(uint64(at(r, from + n - 1)), 8))

iface io.Writer.Write(w, p) (n, err)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures 0 <= n && n <= len(p) && (n < len(p) ==> err != nil)
  ensures wr(sink(w)) == cat(old(wr(sink(w))), rowBytes(row(p), off(p), n))
  ensures 0 <= old(pos(sink(w))) && pos(sink(w)) == old(pos(sink(w))) + int64(n)
  ensures forall i int :: {at(fdat(sink(w)), i)} at(fdat(sink(w)), i) == (int64(i) >= old(pos(sink(w))) && int64(i) < pos(sink(w)) ? p[i - int(old(pos(sink(w))))] : old(at(fdat(sink(w)), i)))

// what n octets of a source look like
rec 2 srcBytes(s ref, p int64, n int64) Bits = n <= 0 ? emp() : cat(srcBytes(s, p, n - 1), uintBits(uint64(byteAt(s, p + n - 1)), 8))

extern io.CopyN(dst, src, n) (written, err)
  modifies pos(under(src)), wok(dst), walign(dst), wcont(dst), wr(sink(dst)), fdat(sink(dst)), pos(sink(dst))
  ensures [bitWriter] under(src) != sink(dst) && old(wok(dst)) ==> wok(dst) && walign(dst) == old(walign(dst)) && wcont(dst) == cat(old(wcont(dst)), srcBytes(under(src), old(pos(under(src))), written)) && (walign(dst) == 0 ==> wr(sink(dst)) == wcont(dst))
  ensures 0 <= written && (n >= 0 ==> written <= n && (err == nil <==> written == n)) && (n < 0 ==> written == 0)
  ensures under(src) != sink(dst) ==> 0 <= old(pos(under(src))) && old(pos(under(src))) + written <= pos(under(src)) && (err == nil ==> pos(under(src)) == old(pos(under(src))) + written)
  ensures under(src) != sink(dst) ==> n >= 0 ==> pos(under(src)) <= old(pos(under(src))) + n
  ensures under(src) != sink(dst) ==> written > 0 ==> old(pos(under(src))) + written <= size(under(src))
  ensures under(src) != sink(dst) ==> wr(sink(dst)) == cat(old(wr(sink(dst))), srcBytes(under(src), old(pos(under(src))), written))
  ensures under(src) != sink(dst) ==> 0 <= old(pos(sink(dst))) && pos(sink(dst)) == old(pos(sink(dst))) + written
  ensures under(src) != sink(dst) ==> (forall i int :: {at(fdat(sink(dst)), i)} at(fdat(sink(dst)), i) == (int64(i) >= old(pos(sink(dst))) && int64(i) < pos(sink(dst)) ? byteAt(under(src), old(pos(under(src))) + (int64(i) - old(pos(sink(dst))))) : old(at(fdat(sink(dst)), i))))

extern io.ReadFull(r, p) (n, err)
  modifies pos(under(r)), elems(p)
  ensures 0 <= n && n <= len(p) && (err == nil <==> n == len(p)) && pos(under(r)) == old(pos(under(r))) + int64(n)
  ensures forall i int :: 0 <= i && i < n ==> p[i] == byteAt(under(r), old(pos(under(r))) + int64(i))
  ensures n > 0 ==> pos(under(r)) <= size(under(r))
  ensures 0 <= pos(under(r)) && 0 <= old(pos(under(r)))

extern bytes.NewReader(b) (r)
  ensures r != nil && fresh(r) && fresh(under(r)) && solid(under(r)) && pos(under(r)) == 0 && size(under(r)) == int64(len(b))
  ensures forall i int64 :: {byteAt(under(r), i)} 0 <= i && i < int64(len(b)) ==> byteAt(under(r), i) == b[int(i)]

// a bytes.Buffer used as a sink: its octets are fdat from 0 to pos
extern bytes.NewBuffer(buf) (b)
  ensures fresh(under(b)) && under(b) != sink(b) && pos(under(b)) == 0 && size(under(b)) == int64(len(buf))
  ensures forall i int64 :: {byteAt(under(b), i)} 0 <= i && i < int64(len(buf)) ==> byteAt(under(b), i) == buf[int(i)]
  ensures fresh(b) && b != nil && sink(b) == ref(b) && pos(sink(b)) == int64(len(buf)) && wr(sink(b)) == rowBytes(row(buf), off(buf), len(buf))
  ensures forall i int :: {at(fdat(sink(b)), i)} 0 <= i && i < len(buf) ==> at(fdat(sink(b)), i) == buf[i]

extern (b *bytes.Buffer).Reset()
  modifies wr(sink(b)), fdat(sink(b)), pos(sink(b))
  ensures wr(sink(b)) == emp() && pos(sink(b)) == 0

extern (b *bytes.Buffer).Bytes() (r)
  pure
  ensures int64(len(r)) == pos(sink(b)) && rowBytes(row(r), off(r), len(r)) == wr(sink(b))
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == at(fdat(sink(b)), i)
