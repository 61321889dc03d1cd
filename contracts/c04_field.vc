package github.com/abema/go-mp4

// C04 - field selection rules.

// version and flags of a box, and the answers its callbacks give in its current state
ghost bver(b ref) uint8
ghost bflags(b ref) uint32
sort Rules
ghost rules(c ref) Rules
logic optOn(r Rules, name string, ctx Context) bool
logic dynSize(r Rules, name string, ctx Context) uint
logic dynLen(r Rules, name string, ctx Context) uint

iface IImmutableBox.GetVersion(b) (r)
  pure
  ensures r == bver(b)

iface IImmutableBox.GetFlags(b) (r)
  pure
  ensures r == bflags(b)

iface ICustomFieldObject.IsOptFieldEnabled(c, name, ctx) (r)
  pure
  ensures r == optOn(rules(c), name, ctx)

iface ICustomFieldObject.GetFieldSize(c, name, ctx) (r)
  pure
  ensures r == dynSize(rules(c), name, ctx)

iface ICustomFieldObject.GetFieldLength(c, name, ctx) (r)
  pure
  ensures r == dynLen(rules(c), name, ctx)

// the presence rule of the specification
logic present(ver uint8, flags uint32, rver uint8, xver uint8, need uint32, bar uint32, dynamic bool, on bool) bool =
    (ver == 255 || ((rver == 255 || ver == rver) && (xver == 255 || ver != xver)))
    && (need == 0 || flags & need != 0) && (bar == 0 || flags & bar == 0) && (dynamic ==> on)

func (f *field).is(flag) (r)
  prop C04
  pure
  ensures r == (f.flags & flag != 0)

func (f *field).set(flag)
  prop C04
  modifies f.flags
  ensures f.flags == old(f.flags) | flag

func isTargetField(box, fi, ctx) (r)
  prop C04
  pure
  requires fi.flags & fieldOptDynamic != 0 ==> fi.cfo != nil
  ensures r == present(bver(box), bflags(box), fi.version, fi.nVersion, fi.optFlag, fi.nOptFlag, fi.flags & fieldOptDynamic != 0, optOn(rules(fi.cfo), fi.name, ctx))

// who answers for the fields of a struct: the struct itself if it can, else the box
logic rvAddr(v reflect.Value) reflect.Value
extern (v reflect.Value).Addr() (a)
  pure
  ensures a == rvAddr(v)

func resolveFieldInstance(f, box, parent, ctx) (r)
  prop C04
  pure
  requires box != nil
  ensures r != nil && fresh(r) && r.cfo != nil
  ensures [asDeclared] r.name == f.name && r.version == f.version && r.nVersion == f.nVersion && r.optFlag == f.optFlag && r.nOptFlag == f.nOptFlag && r.flags == f.flags && r.strType == f.strType && r.children == f.children && r.order == f.order && r.cnst == f.cnst
  ensures [owner] impl(rvIface(rvAddr(parent)), ICustomFieldObject) ? ref(r.cfo) == rvRef(rvAddr(parent)) && typeof(r.cfo) == rvDyn(rvAddr(parent)) : ref(r.cfo) == ref(box) && typeof(r.cfo) == typeof(box)
  ensures [size] r.size == (f.flags & fieldSizeDynamic != 0 ? dynSize(rules(r.cfo), f.name, ctx) : f.size)
  ensures [length] r.length == (f.flags & fieldLengthDynamic != 0 ? dynLen(rules(r.cfo), f.name, ctx) : f.length)

// the tag of a field
logic tagHas(tag string, key string) bool
logic tagVal(tag string, key string) string
func parseFieldTag(str) (m)
  trusted
  ensures m != nil && fresh(m)
  ensures forall k string :: {has(m, k)} has(m, k) == tagHas(str, k)
  ensures forall k string :: {m[k]} m[k] == (tagHas(str, k) ? tagVal(str, k) : "")

logic isAtoi(s string) bool
logic atoiOf(s string) int
extern strconv.Atoi(s) (i, err)
  pure
  ensures (err == nil) == isAtoi(s) && (err == nil ==> i == atoiOf(s))

logic isUint(s string, base int, bits int) bool
logic uintOf(s string, base int, bits int) uint64
extern strconv.ParseUint(s, base, bits) (i, err)
  pure
  ensures (err == nil) == isUint(s, base, bits) && (err == nil ==> i == uintOf(s, base, bits))
  ensures err == nil && bits == 32 ==> i <= 0xffffffff

logic hasPrefix(s string, p string) bool
extern strings.HasPrefix(s, p) (r)
  pure
  ensures r == hasPrefix(s, p) && (r ==> len(s) >= len(p))

logic mask32(val string) uint32 = hasPrefix(val, "0x") ? uint32(uintOf(val[2:], 16, 32)) : uint32(uintOf(val, 10, 32))
logic flagIf(b bool, f fieldFlag) fieldFlag = b ? f : fieldFlag(0)
logic num(tag string, key string, free int) int = tagHas(tag, key) ? atoiOf(tagVal(tag, key)) : free
logic isDyn(tag string, key string) bool = tagHas(tag, key) && tagVal(tag, key) == "dynamic"

func buildField(fieldName, tag) (f)
  prop C04
  panics
  ensures f != nil && fresh(f) && f.name == fieldName
  ensures [rules] f.version == uint8(num(tag, "ver", 255)) && f.nVersion == uint8(num(tag, "nver", 255))
  ensures [flags] f.optFlag == (tagHas(tag, "opt") && !isDyn(tag, "opt") ? mask32(tagVal(tag, "opt")) : 0) && f.nOptFlag == (tagHas(tag, "nopt") ? mask32(tagVal(tag, "nopt")) : 0)
  ensures [size] f.size == (tagHas(tag, "size") && !isDyn(tag, "size") ? uint(uintOf(tagVal(tag, "size"), 10, 32)) : 0)
  ensures [len] f.length == (tagHas(tag, "len") && !isDyn(tag, "len") ? uint(uintOf(tagVal(tag, "len"), 10, 32)) : 0xffffffff)
  ensures [marks] f.flags == flagIf(isDyn(tag, "opt"), fieldOptDynamic) | flagIf(isDyn(tag, "size"), fieldSizeDynamic) | flagIf(isDyn(tag, "len"), fieldLengthDynamic) | flagIf(tagHas(tag, "string"), fieldString) | flagIf(tagHas(tag, "boxstring"), fieldBoxString) | flagIf(tagHas(tag, "varint"), fieldVarint) | flagIf(tagHas(tag, "extend"), fieldExtend) | flagIf(tagHas(tag, "dec"), fieldDec) | flagIf(tagHas(tag, "hex"), fieldHex) | flagIf(tagHas(tag, "iso639-2"), fieldISO639_2) | flagIf(tagHas(tag, "uuid"), fieldUUID) | flagIf(tagHas(tag, "hidden"), fieldHidden)
  ensures [const] f.cnst == (tagHas(tag, "const") ? tagVal(tag, "const") : "")
  ensures [strings] f.strType == (tagHas(tag, "string") && tagVal(tag, "string") == "c_p" ? stringType_C_P : stringType_C)
  ensures [order] f.order == 0 || exists k string :: tagHas(tag, k) && tagVal(tag, k) == "" && isAtoi(k) && f.order == atoiOf(k)
  loop 0
    invariant f.order == 0
