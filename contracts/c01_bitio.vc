package github.com/abema/go-mp4/internal/bitio

// C01 - bit-level readers and writers.

// a bit reader has wid(r) unread bits of the last byte drawn from its source
ghost wid(r ref) int64
ghost rok(r ref) bool
represents wid(r *reader) = int64(r.width)
represents under(r *reader) = under(r.reader)
represents wid(r *readSeeker) = int64(r.reader.width)
represents under(r *readSeeker) = under(r.reader.reader)
represents rok(r *reader) = r.reader != nil && r.width <= 7 && (r.width != 0 ==> 1 <= pos(under(r.reader)) && pos(under(r.reader)) <= size(under(r.reader)) && r.octet == byteAt(under(r.reader), pos(under(r.reader)) - 1))
represents rok(r *readSeeker) = r.reader.reader != nil && r.seeker != nil && under(r.seeker) == under(r.reader.reader) && r.reader.width <= 7 && (r.reader.width != 0 ==> 1 <= pos(under(r.reader.reader)) && pos(under(r.reader.reader)) <= size(under(r.reader.reader)) && r.reader.octet == byteAt(under(r.reader.reader), pos(under(r.reader.reader)) - 1))

// value of the n bits from bit position p (low 64 bits of it)
rec 1 rdU(s ref, p int64, n uint64) uint64 = n == 0 ? 0 : rdU(s, p, n - 1) << 1 | (bitAt(s, p + int64(n) - 1) ? uint64(1) : uint64(0))

func (r *reader).ReadBit() (bit, err)
  prop C01 C21
  requires rok(r)
  modifies r.octet, r.width, pos(under(r))
  ensures rok(r) && 0 <= wid(r) && wid(r) <= 7
  ensures err == nil ==> bit == bitAt(under(r), old(8 * pos(under(r)) - wid(r)))
  ensures err == nil ==> 8 * pos(under(r)) - wid(r) == old(8 * pos(under(r)) - wid(r)) + 1
  ensures err != nil ==> 8 * pos(under(r)) - wid(r) == old(8 * pos(under(r)) - wid(r))
  ensures old(pos(under(r)) >= 0 && pos(under(r)) <= size(under(r))) ==> pos(under(r)) >= 0 && pos(under(r)) <= size(under(r))
  ensures [solid] solid(under(r)) && old(pos(under(r)) >= 0 && pos(under(r)) <= size(under(r))) && old(8 * pos(under(r)) - wid(r)) < 8 * size(under(r)) ==> err == nil

func (r *reader).ReadBits(size) (data, err)
  prop C01 C21
  requires rok(r)
  requires size <= 1 << 32
  modifies r.octet, r.width, pos(under(r))
  ensures rok(r) && 0 <= wid(r) && wid(r) <= 7
  ensures err == nil ==> fresh(data) && off(data) == 0 && len(data) == int((size + 7) / 8)
  ensures err == nil ==> 8 * pos(under(r)) - wid(r) == old(8 * pos(under(r)) - wid(r)) + int64(size)
  ensures err == nil ==> forall j int :: {data[j]} 0 <= j && j < len(data) ==> data[j] == byte(rdU(under(r), old(8 * pos(under(r)) - wid(r)), 8 * uint64(j + 1) - (8 * uint64(len(data)) - uint64(size))))
  ensures old(pos(under(r)) >= 0 && pos(under(r)) <= size(under(r))) ==> pos(under(r)) >= 0 && pos(under(r)) <= size(under(r))
  ensures [solid] solid(under(r)) && 0 <= old(pos(under(r))) && old(pos(under(r))) <= size(under(r)) && old(8 * pos(under(r)) - wid(r)) + int64(size) <= 8 * size(under(r)) ==> err == nil
  let c = under(r)
  let p = 8 * pos(under(r)) - wid(r)
  loop 0
    invariant rok(r) && i <= size && bytes == (size + 7) / 8 && offset == bytes * 8 - size
    invariant under(r) == c
    invariant 8 * pos(c) - wid(r) == p + int64(i)
    invariant fresh(data) && off(data) == 0 && len(data) == int(bytes)
    invariant forall j int :: {data[j]} int((offset + i + 7) >> 3) <= j && j < len(data) ==> data[j] == 0
    invariant (offset + i) & 7 != 0 ==> data[int((offset + i) >> 3)] == byte(rdU(c, p, uint64(i))) << (8 - uint8((offset + i) & 7))
    invariant old(pos(c) >= 0 && pos(c) <= size(c)) ==> pos(c) >= 0 && pos(c) <= size(c)
    use (offset + i) & 7 == 0 ==> data[int((offset + i) >> 3) - 1] == byte(rdU(c, p, uint64(i)))
    invariant forall j int :: {data[j]} 0 <= j && j < int((offset + i) >> 3) ==> data[j] == byte(rdU(c, p, 8 * uint64(j + 1) - uint64(offset)))
    decreases size - i

func (r *reader).Read(p) (n, err)
  prop C01 C21
  requires rok(r)
  modifies r.octet, r.width, pos(under(r)), elems(p)
  ensures rok(r)
  ensures wid(r) == old(wid(r))
  ensures [misaligned] old(wid(r)) != 0 ==> n == 0 && err == ErrInvalidAlignment && pos(under(r)) == old(pos(under(r)))
  ensures 0 <= n && n <= len(p) && pos(under(r)) == old(pos(under(r))) + int64(n)
  ensures forall i int :: 0 <= i && i < n ==> p[i] == byteAt(under(r), old(pos(under(r))) + int64(i))

func (r *readSeeker).Seek(offset, whence) (n, err)
  prop C01 C21
  requires rok(r)
  modifies r.reader.octet, r.reader.width, pos(under(r))
  ensures [misaligned] old(wid(r)) != 0 && whence == 1 ==> n == 0 && err == ErrInvalidAlignment && rok(r) && pos(under(r)) == old(pos(under(r))) && wid(r) == old(wid(r))
  ensures err == nil ==> rok(r) && wid(r) == 0 && n == pos(under(r))
  ensures err == nil && whence == 0 ==> n == offset
  ensures err == nil && whence == 1 ==> n == old(pos(under(r))) + offset
  ensures err == nil && whence == 2 ==> n == size(under(r)) + offset

// a bit writer has accepted the bit string wcont(w): what is in its sink followed by the pending bits
ghost walign(w ref) int64
ghost wcont(w ref) Bits
ghost wok(w ref) bool
represents sink(w *writer) = sink(w.writer)
represents walign(w *writer) = int64(w.width)
represents wok(w *writer) = w.writer != nil && w.width <= 7 && w.octet & byte(0xff >> w.width) == 0
represents wcont(w *writer) = cat(wr(sink(w.writer)), uintBits(uint64(w.octet >> (8 - w.width)), uint64(w.width)))

func (w *writer).WriteBit(bit) (err)
  prop C01
  requires wok(w)
  modifies w.octet, w.width, wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures err == nil ==> wok(w) && walign(w) == (old(walign(w)) + 1) & 7
  ensures [flushed] walign(w) == 0 ==> wcont(w) == wr(sink(w))
  ensures err == nil ==> wcont(w) == cat(old(wcont(w)), uintBits(bit ? uint64(1) : uint64(0), 1))

func (w *writer).WriteBits(data, width) (err)
  prop C01
  requires wok(w)
  requires width <= 8 * uint(len(data))
  modifies w.octet, w.width, wr(sink(w)), fdat(sink(w)), pos(sink(w))
  let from = 8 * uint64(off(data)) + 8 * uint64(len(data)) - uint64(width)
  ensures err == nil ==> wok(w) && walign(w) == (old(walign(w)) + int64(width)) & 7
  ensures [flushed] walign(w) == 0 ==> wcont(w) == wr(sink(w))
  ensures err == nil ==> wcont(w) == cat(old(wcont(w)), rowBits(old(row(data)), from, uint64(width)))
  loop 0
    invariant wok(w) && offset <= i && i <= length && length == uint(len(data)) * 8 && offset == length - width
    invariant walign(w) == (old(walign(w)) + int64(i - offset)) & 7
    invariant wcont(w) == cat(old(wcont(w)), rowBits(old(row(data)), from, uint64(i - offset)))
    decreases length - i

func (w *writer).Write(p) (n, err)
  prop C01
  requires wok(w)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures [flushed] walign(w) == 0 ==> wcont(w) == wr(sink(w))
  ensures wok(w) && walign(w) == old(walign(w)) && 0 <= n && n <= len(p) && (n < len(p) ==> err != nil)
  ensures [misaligned] old(walign(w)) != 0 ==> n == 0 && err == ErrInvalidAlignment && wr(sink(w)) == old(wr(sink(w)))
  ensures [verbatim] wcont(w) == cat(old(wcont(w)), rowBytes(row(p), off(p), n))

// the content of a byte row, written octet by octet or bit by bit, is the same
lemma rowBitsOctet(r row!byte, from uint64, m uint64, k uint64)
  prop C01
  requires from & 7 == 0 && m & 7 == 0 && k <= 8
  induct k
  ensures m <= 1 << 60 ==> rowBits(r, from, m + k) == cat(rowBits(r, from, m), uintBits(uint64(at(r, int((from + m) >> 3)) >> (8 - k)), k))

lemma rowBytesBits(r row!byte, from int, n int)
  prop C01
  requires 0 <= from && from <= 1 << 50 && 0 <= n && n <= 1 << 50
  induct n
  use rowBitsOctet(r, 8 * uint64(from), 8 * uint64(n - 1), 8)
  ensures rowBytes(r, from, n) == rowBits(r, 8 * uint64(from), 8 * uint64(n))

func NewReader(r) (b)
  prop C01 C21
  ensures fresh(b) && rok(b) && wid(b) == 0 && under(b) == under(r)

func NewReadSeeker(r) (b)
  prop C01 C21
  ensures fresh(b) && rok(b) && wid(b) == 0 && under(b) == under(r)

func NewWriter(w) (b)
  prop C01
  ensures fresh(b) && wok(b) && walign(b) == 0 && sink(b) == sink(w) && wcont(b) == wr(sink(w))

// the interfaces promise what both implementations are proved to do
func (r *readSeeker).ReadBits(size) (data, err)
  prop C01 C21
  modifies r.reader.octet, r.reader.width, pos(under(r))
  like (*reader).ReadBits

func (r *readSeeker).ReadBit() (bit, err)
  prop C01 C21
  modifies r.reader.octet, r.reader.width, pos(under(r))
  like (*reader).ReadBit

func (r *readSeeker).Read(p) (n, err)
  prop C01 C21
  modifies r.reader.octet, r.reader.width, pos(under(r)), elems(p)
  like (*reader).Read

iface bitio.Reader.ReadBits(r, size) (data, err)
  modifies rok(r), wid(r), pos(under(r))
  like (*reader).ReadBits

iface bitio.Reader.ReadBit(r) (bit, err)
  modifies rok(r), wid(r), pos(under(r))
  like (*reader).ReadBit

iface bitio.Reader.Read(r, p) (n, err)
  modifies rok(r), wid(r), pos(under(r)), elems(p)
  like (*reader).Read

iface bitio.ReadSeeker.Read(r, p) (n, err)
  modifies rok(r), wid(r), pos(under(r)), elems(p)
  like (*reader).Read

iface bitio.ReadSeeker.Seek(r, offset, whence) (n, err)
  modifies rok(r), wid(r), pos(under(r))
  like (*readSeeker).Seek

iface bitio.Writer.WriteBits(w, data, width) (err)
  modifies wok(w), walign(w), wcont(w), wr(sink(w)), fdat(sink(w)), pos(sink(w))
  like (*writer).WriteBits

iface bitio.Writer.WriteBit(w, bit) (err)
  modifies wok(w), walign(w), wcont(w), wr(sink(w)), fdat(sink(w)), pos(sink(w))
  like (*writer).WriteBit

iface bitio.Writer.Write(w, p) (n, err)
  modifies wok(w), walign(w), wcont(w), wr(sink(w)), fdat(sink(w)), pos(sink(w))
  like (*writer).Write
