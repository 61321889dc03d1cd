package github.com/abema/go-mp4

// C02, C03 - decoding.

// what the setters of reflection were last given
ghost rvNow(v reflect.Value) uint64
ghost rvText(v reflect.Value) string
ghost rvFlag(v reflect.Value) bool
extern (v reflect.Value).SetUint(x)
  requires isUintKind(rvKind(v))
  modifies rvNow(v), all(bver), all(bflags), all(rules)
  ensures rvNow(v) == x
extern (v reflect.Value).SetInt(x)
  requires isIntKind(rvKind(v))
  modifies rvNow(v), all(bver), all(bflags), all(rules)
  ensures rvNow(v) == uint64(x)
extern (v reflect.Value).SetBool(x)
  requires rvKind(v) == 1
  modifies rvFlag(v), all(bver), all(bflags), all(rules)
  ensures rvFlag(v) == x
extern (v reflect.Value).SetString(x)
  requires rvKind(v) == 24
  modifies rvText(v), all(bver), all(bflags), all(rules)
  ensures rvText(v) == x
extern (v reflect.Value).Set(x)
  modifies all(bver), all(bflags), all(rules)
  ensures rvKind(v) == 22 ==> rvValid(rvElem(v))
extern reflect.MakeSlice(t, n, c) (s)
  pure
  ensures rvLen(s) == n && rvType(s) == ref(t) && rvValid(s)
extern reflect.Zero(t) (v)
  pure
  ensures rvType(v) == ref(t)
logic rvFirst(v reflect.Value) reflect.Value
extern reflect.Append(s, x) (r)
  pure
  ensures rvLen(r) == rvLen(s) + len(x) && rvType(r) == rvType(s) && rvValid(r)
axiom indexValid: forall v reflect.Value, i int :: {rvIndex(v, i)} rvValid(rvIndex(v, i))
// field tables are built from the type they are used with
axiom fieldValid: forall v reflect.Value, name string :: {rvField(v, name)} rvKind(v) == 25 ==> rvValid(rvField(v, name))

// bit position and state of a bit reader
logic bp(r ref) int64 = 8 * pos(under(r)) - wid(r)
logic ready(r ref) bool = rok(r) && 0 <= wid(r) && wid(r) <= 7 && 0 <= pos(under(r)) && pos(under(r)) <= size(under(r))

iface ICustomFieldObject.OnReadField(c, name, r, leftBits, ctx) (rbits, override, err)
  requires ready(r)
  modifies all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules)
  ensures err == nil ==> ready(r) && bp(r) == old(bp(r)) + int64(rbits) && bp(r) >= old(bp(r))

iface ICustomFieldObject.IsPString(c, name, bytes, remainingSize, ctx) (r)
  pure

func readerHasSize(reader, n) (ok)
  prop C03 C21
  requires ready(reader)
  modifies rok(reader), wid(reader), pos(under(reader))
  ensures [room] ok ==> ready(reader) && wid(reader) == 0 && pos(under(reader)) == old(pos(under(reader))) && old(wid(reader)) == 0 && n <= uint64(size(under(reader)) - pos(under(reader)))

// the value of n bits is that of the octets they end with
lemma rdShift(s ref, p int64, n uint64, k uint64)
  prop C02
  requires k <= 8 && n <= 1 << 32
  induct k
  ensures rdU(s, p, n + k) >> k << k == rdU(s, p, n) << k

lemma rdOctet(s ref, p int64, n uint64)
  prop C02
  use rdShift(s, p, n <= 1 << 32 ? n : uint64(0), 8)
  ensures n <= 1 << 32 ==> rdU(s, p, n + 8) == rdU(s, p, n) << 8 | uint64(byte(rdU(s, p, n + 8)))

lemma rdSmall(s ref, p int64, n uint64)
  prop C02
  induct n
  ensures n < 64 ==> rdU(s, p, n) >> n == 0

logic signed(x uint64, n uint64) uint64 = n < 64 && x >> (n - 1) & 1 != 0 ? x | 0xffffffffffffffff << n : x

func (u *unmarshaller).unmarshalUint(v, fi) (err)
  prop C02 C03 C06 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires isUintKind(rvKind(v)) && fi.size <= 1 << 32
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [varint] err == nil && fi.flags & fieldVarint != 0 ==> exists k int64 :: {groups(under(r), old(bp(r)), k)} 1 <= k && bp(r) == old(bp(r)) + 8 * k && rvNow(v) == groups(under(r), old(bp(r)), k)
  ensures [fixed] err == nil && fi.flags & fieldVarint == 0 ==> fi.size > 0 && rvNow(v) == rdU(under(r), old(bp(r)), uint64(fi.size)) && u.rbits == old(u.rbits) + uint64(fi.size)
  let s = under(r)
  let p = bp(r)
  loop 0
    entry rdOctet(s, p, 8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data)))
    entry rdSmall(s, p, 8 + uint64(fi.size) - 8 * uint64(len(data)))
    invariant val == ($k == 0 ? uint64(0) : rdU(s, p, 8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data))))

func (u *unmarshaller).unmarshalInt(v, fi) (err)
  prop C02 C03 C06 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires isIntKind(rvKind(v)) && fi.size <= 1 << 32
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [fixed] err == nil && fi.size <= 64 ==> fi.size > 0 && rvNow(v) == signed(rdU(under(r), old(bp(r)), uint64(fi.size)), uint64(fi.size)) && u.rbits == old(u.rbits) + uint64(fi.size)
  let s = under(r)
  let p = bp(r)
  loop 0
    entry rdOctet(s, p, 8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data)))
    entry rdSmall(s, p, 8 + uint64(fi.size) - 8 * uint64(len(data)))
    invariant forall j int :: {data[j]} 1 <= j && j < len(data) ==> data[j] == byte(rdU(s, p, 8 * uint64(j + 1) + uint64(fi.size) - 8 * uint64(len(data))))
    invariant [first] len(data) > 0 && fi.size <= 64 ==> data[0] == byte(signBit ? rdU(s, p, 8 + uint64(fi.size) - 8 * uint64(len(data))) | 0xffffffffffffffff << (7 + uint64(fi.size) - 8 * uint64(len(data))) : rdU(s, p, 8 + uint64(fi.size) - 8 * uint64(len(data))))
    invariant [sign] $k > 0 && fi.size <= 64 ==> signBit == (rdU(s, p, (8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data)))) >> ((8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data))) - 1) & 1 != 0)
    invariant [value] fi.size <= 64 ==> val == ($k == 0 ? (signBit ? 0xffffffffffffffff : uint64(0)) : signed(rdU(s, p, (8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data)))), (8 * uint64($k) + uint64(fi.size) - 8 * uint64(len(data)))))

func (u *unmarshaller).unmarshalBool(v, fi) (err)
  prop C02 C03 C06 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 1 && fi.size <= 1 << 32
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [fixed] err == nil && fi.size <= 8 ==> fi.size > 0 && rvFlag(v) == (rdU(under(r), old(bp(r)), uint64(fi.size)) != 0) && u.rbits == old(u.rbits) + uint64(fi.size)
  let s = under(r)
  let p = bp(r)
  entry rdSmall(s, p, uint64(fi.size))
  loop 0
    invariant len(data) == 1 ==> val == ($k >= 1 && data[0] != 0)

func (u *unmarshaller).unmarshalStringC(v) (err)
  prop C02 C03 C06 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 24
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  let s = under(r)
  let p = bp(r)
  ensures [text] err == nil ==> forall j int :: {rvText(v)[j]} 0 <= j && j < len(rvText(v)) ==> rvText(v)[j] != 0 && rvText(v)[j] == byte(rdU(s, p + 8 * int64(j), 8))
  ensures [end] err == nil ==> (bp(r) == p + 8 * int64(len(rvText(v))) && u.rbits >= u.size * 8) || (bp(r) == p + 8 * int64(len(rvText(v))) + 8 && byte(rdU(s, p + 8 * int64(len(rvText(v))), 8)) == 0)
  loop 0
    invariant ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits)) && fresh(data) && bp(r) == p + 8 * int64(len(data)) && p >= -7
    invariant forall j int :: {data[j]} 0 <= j && j < len(data) ==> data[j] != 0 && data[j] == byte(rdU(s, p + 8 * int64(j), 8))
    decreases 8 * size(under(r)) - bp(r)

func (u *unmarshaller).unmarshalStringCP(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 24 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))

func (u *unmarshaller).tryReadPString(v, fi) (ok, err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 24 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [no] err == nil && !ok ==> u.rbits == old(u.rbits)
  let s = under(r)
  let q = pos(under(r))
  check make : [room] $cap <= 255
  ensures [prefixed] err == nil && ok ==> len(rvText(v)) == int(byteAt(s, q)) && u.rbits == old(u.rbits) + 8 * uint64(len(rvText(v)) + 1) && forall j int :: {rvText(v)[j]} 0 <= j && j < len(rvText(v)) ==> rvText(v)[j] == byteAt(s, q + 1 + int64(j))

func (u *unmarshaller).unmarshalString(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 24 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))

// the groups of seven bits of n octets
rec 1 groups(s ref, p int64, n int64) uint64 = n <= 0 ? 0 : groups(s, p, n - 1) << 7 + uint64(byte(rdU(s, p + 8 * (n - 1), 8)) & 0x7f)

lemma groupsStep(s ref, p int64, n int64)
  prop C02
  requires n >= 1
  ensures groups(s, p, n) == groups(s, p, n - 1) << 7 + uint64(byte(rdU(s, p + 8 * (n - 1), 8)) & 0x7f)

func (u *unmarshaller).readUvarint() (val, err)
  prop C02 C03 C06 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  let s = under(r)
  let p = bp(r)
  ensures [value] err == nil ==> exists k int64 :: {groups(s, p, k)} 1 <= k && bp(r) == p + 8 * k && val == groups(s, p, k) && byte(rdU(s, p + 8 * (k - 1), 8)) & 0x80 == 0 && forall j int64 :: {rdU(s, p + 8 * j, 8)} 0 <= j && j < k - 1 ==> byte(rdU(s, p + 8 * j, 8)) & 0x80 != 0
  loop 0
    entry groupsStep(s, p, int64($k) + 1)
    invariant p >= -7 && bp(r) >= p && bp(r) == p + 8 * int64($k) && val == groups(s, p, int64($k))
    invariant forall j int64 :: {rdU(s, p + 8 * j, 8)} 0 <= j && j < int64($k) ==> byte(rdU(s, p + 8 * j, 8)) & 0x80 != 0
    invariant ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
    decreases 8 * size(under(r)) - bp(r)

func (u *unmarshaller).unmarshalPtr(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 22 && rvValid(v) && fi.size <= 1 << 32 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))

func (u *unmarshaller).unmarshal(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvValid(v) && fi.size <= 1 << 32 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))

func (u *unmarshaller).unmarshalStructInternal(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 25 && fi.size <= 1 << 32 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))

func (u *unmarshaller).unmarshalStruct(v, fs) (err)
  prop C02 C03 C20 C21
  check ICustomFieldObject.OnReadField : [left] $leftBits == u.size * 8 - u.rbits && $ctx == u.ctx && $r == u.reader
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 25
  requires [table] forall i int :: {fs[i]} 0 <= i && i < len(fs) ==> fs[i] != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  loop 0
    invariant ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits)) && bp(r) >= old(bp(r))

func (u *unmarshaller).unmarshalArray(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 17 && rvValid(v) && fi.size <= 1 << 32 && fi.cfo != nil
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  loop 0
    invariant 0 <= i && i <= rvLen(v)
    invariant ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits)) && bp(r) >= old(bp(r))
    decreases int64(rvLen(v) - i)

func (u *unmarshaller).unmarshalSlice(v, fi) (err)
  prop C02 C03 C21
  requires u.reader != nil && u.dst != nil && ready(u.reader)
  requires [stream] size(under(u.reader)) <= 1 << 46
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires rvKind(v) == 23 && rvValid(v) && fi.size <= 1 << 32 && fi.cfo != nil
  check make : [room] uint64($cap) <= uint64(size(under(u.reader)) - pos(under(u.reader)))
  modifies u.rbits, all(rok), all(wid), all(pos), all(bver), all(bflags), all(rules), all(rvNow), all(rvText), all(rvFlag)
  let r = u.reader
  ensures [account] err == nil ==> ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  loop 0
    invariant 0 <= i && rvLen(slice) == i && rvType(slice) == rvType(v) && (fi.length != 0xffffffff ==> uint(i) <= fi.length)
    invariant ready(r) && bp(r) - old(bp(r)) == int64(u.rbits - old(u.rbits)) && bp(r) >= old(bp(r))
    decreases fi.length == 0xffffffff ? 8 * size(under(r)) - bp(r) : int64(fi.length) - int64(i)

iface IBox.SetVersion(b, v)
  modifies all(bver), all(bflags), all(rules)
  ensures bver(b) == v

iface ICustomFieldObject.BeforeUnmarshal(c, r, size, ctx) (n, override, err)
  modifies all(pos), all(bver), all(bflags), all(rules)
  ensures err == nil ==> pos(under(r)) == old(pos(under(r))) && n == 0
  ensures err == nil && old(0 <= pos(under(r)) && pos(under(r)) <= size(under(r))) ==> 0 <= pos(under(r)) && pos(under(r)) <= size(under(r))

  ensures err != nil ==> err != ErrUnsupportedBoxVersion

func Unmarshal(r, payloadSize, dst, ctx) (n, err)
  aside
  prop C02 C03 C20 C21
  requires [stream] size(under(r)) <= 1 << 46 && 0 <= pos(under(r)) && pos(under(r)) <= size(under(r))
  let t = impl(dst, IAnyType) ? btype(dst) : typeOf(typeof(dst))
  requires [struct] rvKind(rvElem(rvOf(typeof(dst), ref(dst)))) == 25
  requires [table] forall f *field :: {f.size} f.size <= 1 << 32
  requires [table] forall f *field, i int :: {f.children[i]} 0 <= i && i < len(f.children) ==> f.children[i] != nil
  requires [table] anyDef(t, ctx) ==> forall j int :: {boxMap[t][latest(t, ctx)].fields[j]} 0 <= j && j < len(boxMap[t][latest(t, ctx)].fields) ==> boxMap[t][latest(t, ctx)].fields[j] != nil
  requires [itemTable] forall j int :: {itemBoxFields[j]} 0 <= j && j < len(itemBoxFields) ==> itemBoxFields[j] != nil
  modifies *
  ensures [account] err == nil && payloadSize < 1 << 60 ==> pos(under(r)) == old(pos(under(r))) + int64(n)
  ensures [within] err == nil && payloadSize < 1 << 60 ==> n <= payloadSize
  ensures [restart] err == ErrUnsupportedBoxVersion && solid(under(r)) ==> pos(under(r)) == old(pos(under(r)))
