package github.com/abema/go-mp4

// C02, C03 - encoding.  Enc is the bit string of a box value under its field table.

// reflection, as assumed: a value has a type, a kind, parts and a content
logic rvType(v reflect.Value) ref
logic tyKind(t ref) reflect.Kind
logic tySize(t ref) uint64
logic rvElem(v reflect.Value) reflect.Value
logic rvField(v reflect.Value, name string) reflect.Value
logic rvIndex(v reflect.Value, i int) reflect.Value
logic rvLen(v reflect.Value) int
logic rvInt(v reflect.Value) int64
logic rvUint(v reflect.Value) uint64
logic rvBool(v reflect.Value) bool
logic rvStr(v reflect.Value) string
logic rvKind(v reflect.Value) reflect.Kind = tyKind(rvType(v))
logic isIntKind(k reflect.Kind) bool = 2 <= k && k <= 6
logic isUintKind(k reflect.Kind) bool = 7 <= k && k <= 12
axiom arrayLen: forall v reflect.Value :: {rvLen(v)} 0 <= rvLen(v) && rvLen(v) <= 1 << 47 && (rvKind(v) == 17 ==> rvLen(v) == int(tySize(rvType(v))) / int(tySize(elemType(rvType(v)))) && int(tySize(elemType(rvType(v)))) > 0)
axiom indexType: forall v reflect.Value, i int :: {rvIndex(v, i)} rvType(rvIndex(v, i)) == elemType(rvType(v))

extern (v reflect.Value).Type() (t)
  pure
  requires rvValid(v)
  ensures t != nil && ref(t) == rvType(v)
extern (v reflect.Value).Kind() (k)
  pure
  ensures k == rvKind(v)
iface reflect.Type.Kind(t) (k)
  pure
  ensures k == tyKind(ref(t))
iface reflect.Type.Size(t) (n)
  pure
  ensures uint64(n) == tySize(ref(t))
extern (v reflect.Value).Elem() (e)
  pure
  requires rvKind(v) == 22
  ensures e == rvElem(v)
logic rvOf(tid ref, b ref) reflect.Value
extern reflect.ValueOf(i) (v)
  pure
  ensures v == rvOf(typeof(i), ref(i)) && rvKind(v) == 22
extern (v reflect.Value).FieldByName(name) (f)
  pure
  requires rvKind(v) == 25
  ensures f == rvField(v, name)
extern (v reflect.Value).Index(i) (e)
  pure
  requires (rvKind(v) == 17 || rvKind(v) == 23) && 0 <= i && i < rvLen(v)
  ensures e == rvIndex(v, i)
extern (v reflect.Value).Len() (n)
  pure
  requires rvKind(v) == 17 || rvKind(v) == 23 || rvKind(v) == 24
  ensures n == rvLen(v)
extern (v reflect.Value).Int() (n)
  pure
  requires isIntKind(rvKind(v))
  ensures n == rvInt(v)
extern (v reflect.Value).Uint() (n)
  pure
  requires isUintKind(rvKind(v))
  ensures n == rvUint(v)
extern (v reflect.Value).Bool() (b)
  pure
  requires rvKind(v) == 1
  ensures b == rvBool(v)
extern (v reflect.Value).String() (s)
  pure
  ensures rvKind(v) == 24 ==> s == rvStr(v)
extern (v reflect.Value).Bytes() (b)
  pure
  requires rvKind(v) == 23 && tyKind(elemType(rvType(v))) == 8
  ensures len(b) == rvLen(v)
  ensures forall i int :: {b[i]} 0 <= i && i < rvLen(v) ==> b[i] == byte(rvUint(rvIndex(v, i)))

// leaf encodings
// an integer goes out in octets, most significant first, the last one holding what is left of its width
logic piece(val uint64, size uint64, i uint64, signed bool, neg bool) uint64 =
    (size > i + 8 ? val >> (size - (i + 8)) : val) & (signed && i == 0 ? (size < 8 ? ^(0xffffffffffffffff << (size - 1)) : uint64(0x7f)) : uint64(0xff)) | (signed && i == 0 && neg ? 1 << ((size < 8 ? size : uint64(8)) - 1) : uint64(0))
logic pieceLen(size uint64, i uint64) uint64 = size < i + 8 ? size - i : uint64(8)
rec 1 pieces(val uint64, size uint64, k uint64, signed bool, neg bool) Bits = k == 0 ? emp() : cat(pieces(val, size, k - 1, signed, neg), ubits(piece(val, size, 8 * (k - 1), signed, neg), pieceLen(size, 8 * (k - 1))))
logic encInt(v int64, size uint) Bits = pieces(uint64(v), uint64(size), (uint64(size) + 7) >> 3, true, v < 0)
logic encUint(v uint64, size uint) Bits = pieces(v, uint64(size), (uint64(size) + 7) >> 3, false, false)
logic encVar(u uint64) Bits = cat(cat(cat(uintBits(u >> 21 & 0x7f | 0x80, 8), uintBits(u >> 14 & 0x7f | 0x80, 8)), uintBits(u >> 7 & 0x7f | 0x80, 8)), uintBits(u & 0x7f, 8))
logic encBool(b bool, size uint) Bits = ubits(b ? uint64(0xff) : uint64(0), uint64(size))
rec 1 encChars(s string, n int) Bits = n <= 0 ? emp() : cat(encChars(s, n - 1), uintBits(uint64(s[n - 1]), 8))

lemma rowTailN(r row!byte, from uint64, a uint64, k uint64)
  prop C02
  requires from & 7 == 0 && a + k <= 8 && a <= 8 && k <= 8 && from <= 1 << 60
  induct k
  ensures rowBits(r, from + a, k) == uintBits(uint64(at(r, int(from >> 3))) >> (8 - a - k) & ^(0xffffffffffffffff << k), k)

// the low bits of one octet
lemma rowTail(r row!byte, from uint64, k uint64)
  prop C02
  requires (from + k) & 7 == 0 && 1 <= k && k <= 8 && from <= 1 << 60
  trigger {rowBits(r, from, k)}
  use rowTailN(r, from + k - 8, 8 - k, k)
  ensures rowBits(r, from, k) == uintBits(mask(uint64(at(r, int(from >> 3))), k), k)

// C02: an integer of width 1 to 64 goes out as exactly its low bits
lemma piecesUnsigned(val uint64, size uint64, k uint64)
  prop C02
  requires 1 <= size && size <= 64 && k <= (size + 7) >> 3
  induct k
  ensures pieces(val, size, k, false, false) == (8 * k <= size ? ubits(val >> (size - 8 * k), 8 * k) : ubits(val, size))

lemma piecesSigned(v int64, size uint64, k uint64)
  prop C02
  requires 1 <= size && size <= 64 && k <= (size + 7) >> 3
  requires v >> (size - 1) == 0 || v >> (size - 1) == -1
  induct k
  ensures pieces(uint64(v), size, k, true, v < 0) == (8 * k <= size ? ubits(uint64(v) >> (size - 8 * k), 8 * k) : ubits(uint64(v), size))

lemma uintExact(val uint64, size uint)
  prop C02
  requires 1 <= size && size <= 64
  use piecesUnsigned(val, uint64(size), (uint64(size) + 7) >> 3)
  ensures encUint(val, size) == ubits(val, uint64(size))

lemma intExact(v int64, size uint)
  prop C02
  requires 1 <= size && size <= 64 && (v >> (size - 1) == 0 || v >> (size - 1) == -1)
  use piecesSigned(v, uint64(size), (uint64(size) + 7) >> 3)
  ensures encInt(v, size) == ubits(uint64(v), uint64(size))

// the bits a callback writes itself, and whether it replaces the field
logic ownBits(r Rules, name string, ctx Context) Bits
logic ownOver(r Rules, name string, ctx Context) bool
logic flushed(w ref) bool = walign(w) == 0 ==> wr(sink(w)) == wcont(w)

iface ICustomFieldObject.OnWriteField(c, name, w, ctx) (wbits, override, err)
  requires wok(w) && flushed(w)
  modifies wok(w), walign(w), wcont(w), wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures err == nil ==> wok(w) && flushed(w) && walign(w) == (old(walign(w)) + int64(wbits)) & 7
  ensures err == nil ==> wcont(w) == cat(old(wcont(w)), ownBits(rules(c), name, ctx)) && wbits == blen(ownBits(rules(c), name, ctx)) && override == ownOver(rules(c), name, ctx)

// who answers for the fields of a struct
logic owner(v reflect.Value, src ref) Rules = rules(impl(rvIface(rvAddr(v)), ICustomFieldObject) ? rvRef(rvAddr(v)) : src)
logic chosenField(f *field, o Rules, src ref, ctx Context) bool = present(bver(src), bflags(src), f.version, f.nVersion, f.optFlag, f.nOptFlag, f.flags & fieldOptDynamic != 0, optOn(o, f.name, ctx))
logic widthOf(f *field, o Rules, ctx Context) uint = f.flags & fieldSizeDynamic != 0 ? dynSize(o, f.name, ctx) : f.size
logic countOfField(f *field, o Rules, ctx Context) uint = f.flags & fieldLengthDynamic != 0 ? dynLen(o, f.name, ctx) : f.length
logic listCount(v reflect.Value, length uint) int = length == 0xffffffff ? rvLen(v) : int(length)

// Enc(0, ...): the first n fields of fs of the struct v; Enc(1, ...): the value v; Enc(2, ...): its first n elements
rec 1 Enc(mode int, src ref, ctx Context, v reflect.Value, fs []*field, n int, width uint, length uint, flags fieldFlag) Bits =
    mode == 0 ? (n <= 0 ? emp() : cat(Enc(0, src, ctx, v, fs, n - 1, 0, 0, 0), !chosenField(fs[n - 1], owner(v, src), src, ctx) ? emp() : cat(ownBits(owner(v, src), fs[n - 1].name, ctx), ownOver(owner(v, src), fs[n - 1].name, ctx) ? emp() : Enc(1, src, ctx, rvField(v, fs[n - 1].name), fs[n - 1].children, 0, widthOf(fs[n - 1], owner(v, src), ctx), countOfField(fs[n - 1], owner(v, src), ctx), fs[n - 1].flags))))
    : mode == 2 ? (n <= 0 ? emp() : cat(Enc(2, src, ctx, v, fs, n - 1, width, length, flags), Enc(1, src, ctx, rvIndex(v, n - 1), fs, 0, width, length, flags)))
    : rvKind(v) == 22 ? Enc(1, src, ctx, rvElem(v), fs, 0, width, length, flags)
    : rvKind(v) == 25 ? Enc(0, src, ctx, v, fs, len(fs), 0, 0, 0)
    : rvKind(v) == 17 ? Enc(2, src, ctx, v, fs, rvLen(v), width, length, flags)
    : rvKind(v) == 23 ? Enc(2, src, ctx, v, fs, listCount(v, length), width, length, flags)
    : isIntKind(rvKind(v)) ? encInt(rvInt(v), width)
    : isUintKind(rvKind(v)) ? (flags & fieldVarint != 0 ? encVar(rvUint(v)) : encUint(rvUint(v), width))
    : rvKind(v) == 1 ? encBool(rvBool(v), width)
    : cat(encChars(rvStr(v), len(rvStr(v))), flags & fieldBoxString != 0 ? emp() : uintBits(0, 8))

// what a field table must respect (checked on every registered type by C05)
logic rvValid(v reflect.Value) bool
rec 1 Apt(mode int, src ref, ctx Context, v reflect.Value, fs []*field, n int, width uint, length uint, flags fieldFlag) bool =
    mode == 0 ? (n <= 0 || (Apt(0, src, ctx, v, fs, n - 1, 0, 0, 0) && fs[n - 1] != nil && (!chosenField(fs[n - 1], owner(v, src), src, ctx) || ownOver(owner(v, src), fs[n - 1].name, ctx) || Apt(1, src, ctx, rvField(v, fs[n - 1].name), fs[n - 1].children, 0, widthOf(fs[n - 1], owner(v, src), ctx), countOfField(fs[n - 1], owner(v, src), ctx), fs[n - 1].flags))))
    : mode == 2 ? (n <= 0 || (Apt(2, src, ctx, v, fs, n - 1, width, length, flags) && Apt(1, src, ctx, rvIndex(v, n - 1), fs, 0, width, length, flags)))
    : rvValid(v) && (rvKind(v) == 22 ? Apt(1, src, ctx, rvElem(v), fs, 0, width, length, flags)
    : rvKind(v) == 25 ? Apt(0, src, ctx, v, fs, len(fs), 0, 0, 0)
    : rvKind(v) == 17 ? Apt(2, src, ctx, v, fs, rvLen(v), width, length, flags)
    : rvKind(v) == 23 ? Apt(2, src, ctx, v, fs, rvLen(v), width, length, flags) && (width == 8 ==> flags & fieldVarint == 0)
    : rvKind(v) == 1 ? width <= 8
    : width <= 1 << 32)

// every selected list has the elements its length calls for, and every value has an encoding
rec 1 Whole(mode int, src ref, ctx Context, v reflect.Value, fs []*field, n int, width uint, length uint, flags fieldFlag) bool =
    mode == 0 ? (n <= 0 || (Whole(0, src, ctx, v, fs, n - 1, 0, 0, 0) && (!chosenField(fs[n - 1], owner(v, src), src, ctx) || ownOver(owner(v, src), fs[n - 1].name, ctx) || Whole(1, src, ctx, rvField(v, fs[n - 1].name), fs[n - 1].children, 0, widthOf(fs[n - 1], owner(v, src), ctx), countOfField(fs[n - 1], owner(v, src), ctx), fs[n - 1].flags))))
    : mode == 2 ? (n <= 0 || (Whole(2, src, ctx, v, fs, n - 1, width, length, flags) && Whole(1, src, ctx, rvIndex(v, n - 1), fs, 0, width, length, flags)))
    : rvKind(v) == 22 ? Whole(1, src, ctx, rvElem(v), fs, 0, width, length, flags)
    : rvKind(v) == 25 ? Whole(0, src, ctx, v, fs, len(fs), 0, 0, 0)
    : rvKind(v) == 17 ? Whole(2, src, ctx, v, fs, rvLen(v), width, length, flags)
    : rvKind(v) == 23 ? listCount(v, length) <= rvLen(v) && Whole(2, src, ctx, v, fs, listCount(v, length), width, length, flags)
    : isIntKind(rvKind(v)) ? flags & fieldVarint == 0
    : isUintKind(rvKind(v)) || rvKind(v) == 1 || rvKind(v) == 24

// a table that is apt is apt field by field, an apt list element by element
lemma aptFields(src ref, ctx Context, v reflect.Value, fs []*field, n int, k int)
  prop C02
  requires 0 <= k && Apt(0, src, ctx, v, fs, n, 0, 0, 0)
  induct n
  ensures k <= n ==> Apt(0, src, ctx, v, fs, k, 0, 0, 0)

lemma aptElems(src ref, ctx Context, v reflect.Value, fs []*field, n int, k int, width uint, length uint, flags fieldFlag)
  prop C02
  requires 0 <= k && Apt(2, src, ctx, v, fs, n, width, length, flags)
  induct n
  ensures k <= n ==> Apt(2, src, ctx, v, fs, k, width, length, flags)

lemma octet(src ref, ctx Context, e reflect.Value, fs []*field, length uint, flags fieldFlag)
  prop C02
  requires flags & fieldVarint == 0 && rvKind(e) == 8
  use uintExact(rvUint(e), 8)
  ensures Enc(1, src, ctx, e, fs, 0, 8, length, flags) == uintBits(uint64(byte(rvUint(e))), 8) && Whole(1, src, ctx, e, fs, 0, 8, length, flags)

lemma blenSrc(s ref, p int64, n int64)
  prop C02
  requires 0 <= n && n <= 1 << 47
  induct n
  ensures blen(srcBytes(s, p, n)) == 8 * uint64(n)

// a list of octets, coded element by element, is the octets themselves
lemma octets(s ref, src ref, ctx Context, v reflect.Value, fs []*field, n int, length uint, flags fieldFlag)
  prop C02
  requires 0 <= n && n <= 1 << 47 && flags & fieldVarint == 0 && tyKind(elemType(rvType(v))) == 8
  requires forall i int64 :: {byteAt(s, i)} 0 <= i && i < int64(n) ==> byteAt(s, i) == byte(rvUint(rvIndex(v, int(i))))
  induct n
  use octet(src, ctx, rvIndex(v, n - 1), fs, length, flags)
  ensures Enc(2, src, ctx, v, fs, n, 8, length, flags) == srcBytes(s, 0, int64(n)) && Whole(2, src, ctx, v, fs, n, 8, length, flags)

func (m *marshaller).writeUvarint(u) (err)
  prop C02 C03 C06
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7)
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), encVar(u))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(encVar(u))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  loop 0
    unroll 3

func (m *marshaller).marshalInt(v, fi) (err)
  prop C02 C03 C06
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7)
  requires isIntKind(rvKind(v)) && fi.size <= 1 << 32
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), encInt(rvInt(v), fi.size))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(encInt(rvInt(v), fi.size))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  ensures [whole] err == nil ==> fi.flags & fieldVarint == 0
  loop 0
    invariant i & 7 == 0 && i <= fi.size + 7
    invariant wcont(w) == cat(old(wcont(w)), pieces(uint64(rvInt(v)), uint64(fi.size), uint64(i) >> 3, true, rvInt(v) < 0))
    invariant m.wbits == old(m.wbits) + blen(pieces(uint64(rvInt(v)), uint64(fi.size), uint64(i) >> 3, true, rvInt(v) < 0))
    invariant wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
    decreases fi.size + 8 - i

func (m *marshaller).marshalUint(v, fi) (err)
  prop C02 C03 C06
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7)
  requires isUintKind(rvKind(v)) && fi.size <= 1 << 32
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), (fi.flags & fieldVarint != 0 ? encVar(rvUint(v)) : encUint(rvUint(v), fi.size)))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen((fi.flags & fieldVarint != 0 ? encVar(rvUint(v)) : encUint(rvUint(v), fi.size)))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  loop 0
    invariant i & 7 == 0 && i <= fi.size + 7
    invariant wcont(w) == cat(old(wcont(w)), pieces(rvUint(v), uint64(fi.size), uint64(i) >> 3, false, false))
    invariant m.wbits == old(m.wbits) + blen(pieces(rvUint(v), uint64(fi.size), uint64(i) >> 3, false, false))
    invariant wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
    decreases fi.size + 8 - i

func (m *marshaller).marshalBool(v, fi) (err)
  prop C02 C03 C06
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7)
  requires rvKind(v) == 1 && fi.size <= 8
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), encBool(rvBool(v), fi.size))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(encBool(rvBool(v), fi.size))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)

func (m *marshaller).marshalString(v, fi) (err)
  prop C02 C03 C06
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7)
  requires rvKind(v) == 24
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), cat(encChars(rvStr(v), len(rvStr(v))), fi.flags & fieldBoxString != 0 ? emp() : uintBits(0, 8)))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(cat(encChars(rvStr(v), len(rvStr(v))), fi.flags & fieldBoxString != 0 ? emp() : uintBits(0, 8)))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  loop 0
    invariant wcont(w) == cat(old(wcont(w)), encChars(rvStr(v), $k))
    invariant m.wbits == old(m.wbits) + blen(encChars(rvStr(v), $k))
    invariant wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)

func (m *marshaller).marshalPtr(v, fi) (err)
  prop C02 C03
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7) && m.src != nil
  requires rvKind(v) == 22 && Apt(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  ensures [whole] err == nil ==> Whole(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)

func (m *marshaller).marshal(v, fi) (err)
  prop C02 C03 C06
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7) && m.src != nil
  requires Apt(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  ensures [whole] err == nil ==> Whole(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)

func (m *marshaller).marshalStruct(v, fs) (err)
  prop C02 C03
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7) && m.src != nil
  requires rvKind(v) == 25 && Apt(0, ref(m.src), m.ctx, v, fs, len(fs), 0, 0, 0)
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), Enc(0, ref(m.src), m.ctx, v, fs, len(fs), 0, 0, 0))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(Enc(0, ref(m.src), m.ctx, v, fs, len(fs), 0, 0, 0))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  ensures [whole] err == nil ==> Whole(0, ref(m.src), m.ctx, v, fs, len(fs), 0, 0, 0)
  loop 0
    entry aptFields(ref(m.src), m.ctx, v, fs, len(fs), $k + 1)
    invariant wcont(w) == cat(old(wcont(w)), Enc(0, ref(m.src), m.ctx, v, fs, $k, 0, 0, 0))
    invariant m.wbits == old(m.wbits) + blen(Enc(0, ref(m.src), m.ctx, v, fs, $k, 0, 0, 0))
    invariant Whole(0, ref(m.src), m.ctx, v, fs, $k, 0, 0, 0)
    invariant wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)

func (m *marshaller).marshalArray(v, fi) (err)
  prop C02 C03
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7) && m.src != nil
  requires rvKind(v) == 17 && Apt(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  ensures [whole] err == nil ==> Whole(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)
  loop 0
    entry aptElems(ref(m.src), m.ctx, v, fi.children, rvLen(v), i + 1, fi.size, fi.length, fi.flags)
    invariant 0 <= i && i <= rvLen(v)
    invariant wcont(w) == cat(old(wcont(w)), Enc(2, ref(m.src), m.ctx, v, fi.children, i, fi.size, fi.length, fi.flags))
    invariant m.wbits == old(m.wbits) + blen(Enc(2, ref(m.src), m.ctx, v, fi.children, i, fi.size, fi.length, fi.flags))
    invariant Whole(2, ref(m.src), m.ctx, v, fi.children, i, fi.size, fi.length, fi.flags)
    invariant wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)

func (m *marshaller).marshalSlice(v, fi) (err)
  prop C02 C03
  requires m.writer != nil && wok(m.writer) && flushed(m.writer) && walign(m.writer) == int64(m.wbits & 7) && m.src != nil
  requires rvKind(v) == 23 && Apt(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)
  modifies m.wbits, wok(m.writer), walign(m.writer), wcont(m.writer), wr(sink(m.writer)), fdat(sink(m.writer)), pos(sink(m.writer))
  let w = m.writer
  ensures [bits] err == nil ==> wcont(w) == cat(old(wcont(w)), Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [count] err == nil ==> m.wbits == old(m.wbits) + blen(Enc(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags))
  ensures [aligned] err == nil ==> wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)
  ensures [whole] err == nil ==> Whole(1, ref(m.src), m.ctx, v, fi.children, 0, fi.size, fi.length, fi.flags)
  hint io.CopyN : blenSrc(under($src), 0, $n)
  hint io.CopyN : octets(under($src), ref(m.src), m.ctx, v, fi.children, int($n), fi.length, fi.flags)
  loop 0
    entry aptElems(ref(m.src), m.ctx, v, fi.children, rvLen(v), i + 1, fi.size, fi.length, fi.flags)
    invariant 0 <= i && uint64(i) <= length
    invariant wcont(w) == cat(old(wcont(w)), Enc(2, ref(m.src), m.ctx, v, fi.children, i, fi.size, fi.length, fi.flags))
    invariant m.wbits == old(m.wbits) + blen(Enc(2, ref(m.src), m.ctx, v, fi.children, i, fi.size, fi.length, fi.flags))
    invariant Whole(2, ref(m.src), m.ctx, v, fi.children, i, fi.size, fi.length, fi.flags)
    invariant wok(w) && flushed(w) && walign(w) == int64(m.wbits & 7)

func Marshal(w, src, ctx) (n, err)
  prop C02 C03 C06
  requires src != nil
  let t = impl(src, IAnyType) ? btype(src) : typeOf(typeof(src))
  let sv = rvElem(rvOf(typeof(src), ref(src)))
  requires [struct] rvKind(sv) == 25
  requires [table] anyDef(t, ctx) ==> Apt(0, ref(src), ctx, sv, boxMap[t][latest(t, ctx)].fields, len(boxMap[t][latest(t, ctx)].fields), 0, 0, 0)
  requires [itemTable] numberedItem(t, ctx) ==> Apt(0, ref(src), ctx, sv, itemBoxFields, len(itemBoxFields), 0, 0, 0)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  capture def = BoxType.getBoxDef.r
  capture v = reflect.Value.Elem.e
  ensures [bits] err == nil ==> wr(sink(w)) == cat(old(wr(sink(w))), Enc(0, ref(src), ctx, v, def.fields, len(def.fields), 0, 0, 0))
  ensures [count] err == nil ==> 8 * n == blen(Enc(0, ref(src), ctx, v, def.fields, len(def.fields), 0, 0, 0))
  ensures [whole] err == nil ==> Whole(0, ref(src), ctx, v, def.fields, len(def.fields), 0, 0, 0)
