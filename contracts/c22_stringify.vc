package github.com/abema/go-mp4

// C22 - printing boxes.  Show is the text of a value under its field table, after the text acc.

axiom quoted: forall b string :: {fmt1("\"%s\"", iface(b, any))} fmt1("\"%s\"", iface(b, any)) == "\"" + b + "\""

extern (b *bytes.Buffer).WriteString(s) (n, err)
  modifies wr(sink(b)), fdat(sink(b)), pos(sink(b))
  ensures err == nil && n == len(s)
  ensures wr(sink(b)) == cat(old(wr(sink(b))), txt(s))
extern (b *bytes.Buffer).Len() (n)
  pure
  ensures 8 * uint64(n) == blen(wr(sink(b))) && int64(n) == pos(sink(b)) && 0 <= n && n <= 1 << 47
extern fmt.Fprintf(w, format, a) (n, err)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures dyn(w, *bytes.Buffer) && len(a) == 1 ==> wr(sink(w)) == cat(old(wr(sink(w))), txt(fmt1(format, a[0])))
extern io.WriteString(w, s) (n, err)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures dyn(w, *bytes.Buffer) ==> wr(sink(w)) == cat(old(wr(sink(w))), txt(s))

rec 1 indented(indent string, n int) Bits = n <= 0 ? emp() : cat(indented(indent, n - 1), txt(indent))

func writeIndent(w, indent, depth)
  prop C22
  requires dyn(w, *bytes.Buffer)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  ensures wr(sink(w)) == cat(old(wr(sink(w))), indented(indent, depth))
  loop 0
    invariant 0 <= i && (i <= depth || i == 0)
    invariant wr(sink(w)) == cat(old(wr(sink(w))), indented(indent, i))

// what a field with a form of its own says
logic ownHas(r Rules, name string, indent string, depth int, ctx Context) bool
logic ownText(r Rules, name string, indent string, depth int, ctx Context) string
iface ICustomFieldObject.StringifyField(c, name, indent, depth, ctx) (r, ok)
  pure
  ensures ok == ownHas(rules(c), name, indent, depth, ctx) && r == ownText(rules(c), name, indent, depth, ctx)

lemma noChars(s string)
  prop C22
  ensures encChars(s, 0) == emp()

lemma oneChar(s string)
  prop C22
  trigger {encChars(s, 1)}
  use noChars(s)
  ensures encChars(s, 1) == uintBits(uint64(s[0]), 8)

// leaves
logic intForm(x int64, flags fieldFlag) Bits = flags & fieldHex == 0 ? txt(intText(x, 10)) : x >= 0 ? cat(txt("0x"), txt(uintText(uint64(x), 16))) : cat(txt("-0x"), txt(uintText(uint64(-x), 16)))
logic uintForm(x uint64, octet bool, word bool, flags fieldFlag) Bits =
    flags & fieldISO639_2 != 0 ? escT(uintBits(uint64(byte(x + 0x60)), 8))
    : flags & fieldUUID != 0 ? txt(fmt1("%02x", iface(x, any)))
    : flags & fieldString != 0 ? uintBits(uint64(byte(x)), 8)
    : flags & fieldHex != 0 || octet && flags & fieldDec == 0 || word ? cat(txt("0x"), txt(uintText(x, 16)))
    : txt(uintText(x, 10))
logic strForm(s string) Bits = cat(cat(txt("\""), escT(txt(s))), txt("\""))

func (m *stringifier).stringifyInt(v, fi, depth) (err)
  prop C22
  requires m.buf != nil && isIntKind(rvKind(v))
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  ensures err == nil && wr(sink(m.buf)) == cat(old(wr(sink(m.buf))), intForm(rvInt(v), fi.flags))

func (m *stringifier).stringifyUint(v, fi, depth) (err)
  prop C22
  requires m.buf != nil && isUintKind(rvKind(v)) && rvValid(v)
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  ensures err == nil && wr(sink(m.buf)) == cat(old(wr(sink(m.buf))), uintForm(rvUint(v), rvKind(v) == 8, rvKind(v) == 12, fi.flags))

func (m *stringifier).stringifyBool(v, depth) (err)
  prop C22
  requires m.buf != nil && rvKind(v) == 1
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  ensures err == nil && wr(sink(m.buf)) == cat(old(wr(sink(m.buf))), rvBool(v) ? txt("true") : txt("false"))

func (m *stringifier).stringifyString(v, depth) (err)
  prop C22
  requires m.buf != nil && rvKind(v) == 24
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  ensures err == nil && wr(sink(m.buf)) == cat(old(wr(sink(m.buf))), strForm(rvStr(v)))

// the text of a structure and of a list
logic sep(acc Bits) Bits = blen(acc) != 0 && tailVal(acc, 8) != '{' ? cat(acc, txt(" ")) : acc
logic nameText(acc Bits, f *field, indent string, depth int) Bits = f.flags & fieldExtend != 0 ? acc : cat(cat(indent != "" ? cat(acc, indented(indent, depth + 1)) : sep(acc), txt(f.name)), txt("="))
logic lineEnd(acc Bits, f *field, indent string) Bits = f.flags & fieldExtend == 0 && indent != "" ? cat(acc, txt("\n")) : acc
logic opening(acc Bits, indent string) Bits = indent != "" ? cat(cat(acc, txt("{")), txt("\n")) : cat(acc, txt("{"))
logic closing(acc Bits, indent string, depth int) Bits = cat(indent != "" ? cat(acc, indented(indent, depth)) : acc, txt("}"))
logic quotes(flags fieldFlag) bool = flags & (fieldString | fieldISO639_2) != 0
logic dashed(array bool, flags fieldFlag, i int) bool = array && flags & fieldUUID != 0 && (i == 3 || i == 5 || i == 7 || i == 9)
logic bareUUID(array bool, flags fieldFlag) bool = array && flags & fieldUUID != 0
logic begins(array bool, flags fieldFlag) string = quotes(flags) ? "\"" : bareUUID(array, flags) ? "" : "["
logic ends(array bool, flags fieldFlag) string = quotes(flags) ? "\"" : bareUUID(array, flags) ? "" : "]"
logic between(array bool, flags fieldFlag) string = quotes(flags) || bareUUID(array, flags) ? "" : ", "
logic shownCount(v reflect.Value, length uint) int = length == 0xffffffff || uint(rvLen(v)) <= length ? rvLen(v) : int(length)
logic said(f *field, src ref, ctx Context, v reflect.Value) bool = chosenField(f, owner(v, src), src, ctx) && f.cnst == "" && f.flags & fieldHidden == 0
logic verField(f *field, v reflect.Value) bool = f.name == "Version" && rvKind(rvField(v, f.name)) == 8

// Show(0, ...): the first n fields of fs of the struct v; Show(1, ...): the value v; Show(2, ...): its first n elements
rec 1 Show(mode int, src ref, ctx Context, indent string, depth int, acc Bits, v reflect.Value, fs []*field, n int, length uint, flags fieldFlag) Bits =
    mode == 0 ? (n <= 0 ? acc
      : !said(fs[n - 1], src, ctx, v) ? Show(0, src, ctx, indent, depth, acc, v, fs, n - 1, 0, 0)
      : lineEnd(ownHas(owner(v, src), fs[n - 1].name, indent, depth + 1, ctx) ? cat(nameText(Show(0, src, ctx, indent, depth, acc, v, fs, n - 1, 0, 0), fs[n - 1], indent, depth), txt(ownText(owner(v, src), fs[n - 1].name, indent, depth + 1, ctx)))
        : verField(fs[n - 1], v) ? cat(nameText(Show(0, src, ctx, indent, depth, acc, v, fs, n - 1, 0, 0), fs[n - 1], indent, depth), txt(uintText(rvUint(rvField(v, fs[n - 1].name)), 10)))
        : fs[n - 1].name == "Flags" ? cat(nameText(Show(0, src, ctx, indent, depth, acc, v, fs, n - 1, 0, 0), fs[n - 1], indent, depth), txt(fmt1("0x%06x", iface(bflags(src), any))))
        : Show(1, src, ctx, indent, depth, nameText(Show(0, src, ctx, indent, depth, acc, v, fs, n - 1, 0, 0), fs[n - 1], indent, depth), rvField(v, fs[n - 1].name), fs[n - 1].children, 0, countOfField(fs[n - 1], owner(v, src), ctx), fs[n - 1].flags), fs[n - 1], indent))
    : mode == 2 ? (n <= 0 ? acc
      : cat(Show(1, src, ctx, indent, depth, n == 1 ? Show(2, src, ctx, indent, depth, acc, v, fs, n - 1, length, flags) : cat(Show(2, src, ctx, indent, depth, acc, v, fs, n - 1, length, flags), txt(between(rvKind(v) == 17, flags))), rvIndex(v, n - 1), fs, 0, length, flags), dashed(rvKind(v) == 17, flags, n - 1) ? txt("-") : emp()))
    : rvKind(v) == 22 ? Show(1, src, ctx, indent, depth, acc, rvElem(v), fs, 0, length, flags)
    : rvKind(v) == 25 ? (flags & fieldExtend != 0 ? Show(0, src, ctx, indent, depth, acc, v, fs, len(fs), 0, 0) : closing(Show(0, src, ctx, indent, depth + 1, opening(acc, indent), v, fs, len(fs), 0, 0), indent, depth + 1))
    : rvKind(v) == 17 || rvKind(v) == 23 ? cat(flags & fieldString != 0 ? cat(cat(acc, txt(begins(rvKind(v) == 17, flags))), escT(Show(2, src, ctx, indent, depth + 1, emp(), v, fs, rvKind(v) == 17 ? rvLen(v) : shownCount(v, length), length, flags)))
        : Show(2, src, ctx, indent, depth + 1, cat(acc, txt(begins(rvKind(v) == 17, flags))), v, fs, rvKind(v) == 17 ? rvLen(v) : shownCount(v, length), length, flags), txt(ends(rvKind(v) == 17, flags)))
    : isIntKind(rvKind(v)) ? cat(acc, intForm(rvInt(v), flags))
    : isUintKind(rvKind(v)) ? cat(acc, uintForm(rvUint(v), rvKind(v) == 8, rvKind(v) == 12, flags))
    : rvKind(v) == 1 ? cat(acc, rvBool(v) ? txt("true") : txt("false"))
    : cat(acc, strForm(rvStr(v)))

// what can be shown: every shown field is there and of a kind with a form
rec 1 Fit(mode int, src ref, ctx Context, v reflect.Value, fs []*field, n int, flags fieldFlag) bool =
    mode == 0 ? (n <= 0 || (Fit(0, src, ctx, v, fs, n - 1, 0) && fs[n - 1] != nil && (!said(fs[n - 1], src, ctx, v) || Fit(1, src, ctx, rvField(v, fs[n - 1].name), fs[n - 1].children, 0, fs[n - 1].flags))))
    : mode == 2 ? (n <= 0 || (Fit(2, src, ctx, v, fs, n - 1, flags) && Fit(1, src, ctx, rvIndex(v, n - 1), fs, 0, flags)))
    : rvValid(v) && (rvKind(v) == 22 ? Fit(1, src, ctx, rvElem(v), fs, 0, flags)
    : rvKind(v) == 25 ? Fit(0, src, ctx, v, fs, len(fs), 0)
    : rvKind(v) == 17 ? flags & (fieldString | fieldUUID) != fieldString | fieldUUID && Fit(2, src, ctx, v, fs, rvLen(v), flags)
    : rvKind(v) == 23 ? Fit(2, src, ctx, v, fs, rvLen(v), flags)
    : isIntKind(rvKind(v)) || isUintKind(rvKind(v)) || rvKind(v) == 1 || rvKind(v) == 24)

lemma fitFields(src ref, ctx Context, v reflect.Value, fs []*field, n int, k int)
  prop C22
  requires 0 <= k && Fit(0, src, ctx, v, fs, n, 0)
  induct n
  ensures k <= n ==> Fit(0, src, ctx, v, fs, k, 0)

lemma fitElems(src ref, ctx Context, v reflect.Value, fs []*field, n int, k int, flags fieldFlag)
  prop C22
  requires 0 <= k && Fit(2, src, ctx, v, fs, n, flags)
  induct n
  ensures k <= n ==> Fit(2, src, ctx, v, fs, k, flags)

func (m *stringifier).stringify(v, fi, depth) (err)
  prop C22
  requires m.buf != nil && m.src != nil
  requires Fit(1, ref(m.src), m.ctx, v, fi.children, 0, fi.flags)
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  ensures [prints] err == nil
  ensures [text] wr(sink(m.buf)) == Show(1, ref(m.src), m.ctx, m.indent, depth, old(wr(sink(m.buf))), v, fi.children, 0, fi.length, fi.flags)

func (m *stringifier).stringifyPtr(v, fi, depth) (err)
  prop C22
  requires m.buf != nil && m.src != nil
  requires rvKind(v) == 22 && Fit(1, ref(m.src), m.ctx, v, fi.children, 0, fi.flags)
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  ensures [prints] err == nil
  ensures [text] wr(sink(m.buf)) == Show(1, ref(m.src), m.ctx, m.indent, depth, old(wr(sink(m.buf))), v, fi.children, 0, fi.length, fi.flags)

func (m *stringifier).stringifyStruct(v, fs, depth, extended) (err)
  prop C22
  requires m.buf != nil && m.src != nil
  requires rvKind(v) == 25 && Fit(0, ref(m.src), m.ctx, v, fs, len(fs), 0)
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  let w0 = wr(sink(m.buf))
  let d = extended ? depth : depth + 1
  ensures [prints] err == nil
  ensures [text] wr(sink(m.buf)) == (extended ? Show(0, ref(m.src), m.ctx, m.indent, depth, w0, v, fs, len(fs), 0, 0) : closing(Show(0, ref(m.src), m.ctx, m.indent, depth + 1, opening(w0, m.indent), v, fs, len(fs), 0, 0), m.indent, depth + 1))
  loop 0
    entry fitFields(ref(m.src), m.ctx, v, fs, len(fs), $k + 1)
    invariant wr(sink(m.buf)) == Show(0, ref(m.src), m.ctx, m.indent, d, extended ? w0 : opening(w0, m.indent), v, fs, $k, 0, 0)

func (m *stringifier).stringifyArray(v, fi, depth) (err)
  prop C22
  requires m.buf != nil && m.src != nil
  requires rvKind(v) == 17 && Fit(1, ref(m.src), m.ctx, v, fi.children, 0, fi.flags)
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  let w0 = wr(sink(m.buf))
  ensures [prints] err == nil
  ensures [text] wr(sink(m.buf)) == Show(1, ref(m.src), m.ctx, m.indent, depth, old(wr(sink(m.buf))), v, fi.children, 0, fi.length, fi.flags)
  loop 0
    entry fitElems(ref(m.src), m.ctx, v, fi.children, rvLen(v), i + 1, fi.flags)
    invariant 0 <= i && i <= rvLen(v)
    invariant fi.flags & fieldString != 0 ? wr(sink(m.buf)) == cat(w0, txt(begins(true, fi.flags))) && wr(sink(m2.buf)) == Show(2, ref(m.src), m.ctx, m.indent, depth + 1, emp(), v, fi.children, i, fi.length, fi.flags) : wr(sink(m.buf)) == Show(2, ref(m.src), m.ctx, m.indent, depth + 1, cat(w0, txt(begins(true, fi.flags))), v, fi.children, i, fi.length, fi.flags)

func (m *stringifier).stringifySlice(v, fi, depth) (err)
  prop C22
  requires m.buf != nil && m.src != nil
  requires rvKind(v) == 23 && Fit(1, ref(m.src), m.ctx, v, fi.children, 0, fi.flags)
  modifies wr(sink(m.buf)), fdat(sink(m.buf)), pos(sink(m.buf))
  let w0 = wr(sink(m.buf))
  ensures [prints] err == nil
  ensures [text] wr(sink(m.buf)) == Show(1, ref(m.src), m.ctx, m.indent, depth, old(wr(sink(m.buf))), v, fi.children, 0, fi.length, fi.flags)
  loop 0
    entry fitElems(ref(m.src), m.ctx, v, fi.children, rvLen(v), i + 1, fi.flags)
    invariant 0 <= i && i <= shownCount(v, fi.length)
    invariant fi.flags & fieldString != 0 ? wr(sink(m.buf)) == cat(w0, txt(begins(false, fi.flags))) && wr(sink(m2.buf)) == Show(2, ref(m.src), m.ctx, m.indent, depth + 1, emp(), v, fi.children, i, fi.length, fi.flags) : wr(sink(m.buf)) == Show(2, ref(m.src), m.ctx, m.indent, depth + 1, cat(w0, txt(begins(false, fi.flags))), v, fi.children, i, fi.length, fi.flags)

func StringifyWithIndent(src, indent, ctx) (r, err)
  prop C22
  requires src != nil
  let t = impl(src, IAnyType) ? btype(src) : typeOf(typeof(src))
  let sv = rvElem(rvOf(typeof(src), ref(src)))
  requires [struct] rvKind(sv) == 25
  requires [table] anyDef(t, ctx) ==> Fit(0, ref(src), ctx, sv, boxMap[t][latest(t, ctx)].fields, len(boxMap[t][latest(t, ctx)].fields), 0)
  requires [itemTable] numberedItem(t, ctx) ==> Fit(0, ref(src), ctx, sv, itemBoxFields, len(itemBoxFields), 0)
  pure
  capture def = BoxType.getBoxDef.r
  capture v = reflect.Value.Elem.e
  ensures [text] err == nil ==> txt(r) == Show(0, ref(src), ctx, indent, 0, emp(), v, def.fields, len(def.fields), 0, 0)
  ensures [known] (err == nil) == (anyDef(t, ctx) || numberedItem(t, ctx)) && (err != nil ==> err == ErrBoxInfoNotFound)

func Stringify(src, ctx) (r, err)
  prop C22
  requires src != nil
  let t = impl(src, IAnyType) ? btype(src) : typeOf(typeof(src))
  let sv = rvElem(rvOf(typeof(src), ref(src)))
  requires [struct] rvKind(sv) == 25
  requires [table] anyDef(t, ctx) ==> Fit(0, ref(src), ctx, sv, boxMap[t][latest(t, ctx)].fields, len(boxMap[t][latest(t, ctx)].fields), 0)
  requires [itemTable] numberedItem(t, ctx) ==> Fit(0, ref(src), ctx, sv, itemBoxFields, len(itemBoxFields), 0)
  pure
  check StringifyWithIndent : [plain] $src == src && $indent == "" && $ctx == ctx

// fields with a form of their own
func (mvhd *Mvhd).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "Rate") && (ok ==> r == fixed(mvhd.Rate & 0xffff == 0, int64(mvhd.Rate >> 16), float64(mvhd.Rate) / 65536, 5, 64))

func (vse *VisualSampleEntry).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  let k = vse.Compressorname[0]
  capture e = util.EscapeUnprintables.r
  ensures ok == (name == "Compressorname" && k <= 31) && (ok ==> r == "\"" + e + "\"")
  check util.EscapeUnprintables : [text] len($src) == int(k) && forall i int :: {$src[i]} 0 <= i && i < int(k) ==> $src[i] == vse.Compressorname[i + 1]

func (ase *AudioSampleEntry).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "SampleRate") && (ok ==> r == fixed(ase.SampleRate & 0xffff == 0, int64(ase.SampleRate >> 16), float64(ase.SampleRate) / 65536, 5, 64))

func (smhd *Smhd).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "Balance") && (ok ==> r == fixed(smhd.Balance & 0xff == 0, int64(smhd.Balance >> 8), float64(smhd.Balance) / 256, 3, 32))

func (tkhd *Tkhd).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "Width" || name == "Height")
  ensures name == "Width" ==> r == fixed(tkhd.Width & 0xffff == 0, int64(tkhd.Width >> 16), float64(tkhd.Width) / 65536, 5, 64)
  ensures name == "Height" ==> r == fixed(tkhd.Height & 0xffff == 0, int64(tkhd.Height >> 16), float64(tkhd.Height) / 65536, 5, 64)

func (ds *Descriptor).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "Tag" && 3 <= ds.Tag && ds.Tag <= 6)
  ensures ok ==> r == (ds.Tag == 3 ? "ESDescr" : ds.Tag == 4 ? "DecoderConfigDescr" : ds.Tag == 5 ? "DecSpecificInfo" : "SLConfigDescr")

func (data *Data).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  let d = data.DataType
  ensures ok == (name == "DataType" && (d <= 3 || d == 14 || 21 <= d && d <= 23) || name == "Data" && d == 1)
  ensures ok && name == "DataType" ==> r == (d == 0 ? "BINARY" : d == 1 ? "UTF8" : d == 2 ? "UTF16" : d == 3 ? "MAC_STR" : d == 14 ? "JPEG" : d == 21 ? "INT" : d == 22 ? "FLOAT32" : "FLOAT64")
  ensures ok && name == "Data" ==> r == "\"" + escaped(bytestr(data.Data)) + "\""

func (sd *StringData).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "Data") && (ok ==> r == "\"" + escaped(bytestr(sd.Data)) + "\"")

func (i *Item).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "ItemName") && (ok ==> r == "\"" + escaped(bytestr(i.ItemName)) + "\"")

func (k *Key).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "KeyNamespace" || name == "KeyValue")
  ensures name == "KeyNamespace" ==> r == "\"" + escaped(bytestr(k.KeyNamespace)) + "\""
  ensures name == "KeyValue" ==> r == "\"" + escaped(bytestr(k.KeyValue)) + "\""

func (box *BaseCustomFieldObject).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures !ok

// key identifiers
logic uuidText(k [16]byte) string
extern (u github.com/google/uuid.UUID).String() (r)
  pure
  ensures r == uuidText(u)
rec 1 kidsText(ks []PsshKID, n int) Bits = n <= 0 ? txt("[") : cat(n == 1 ? kidsText(ks, n - 1) : cat(kidsText(ks, n - 1), txt(", ")), txt(uuidText(ks[n - 1].KID)))

func (pssh *Pssh).StringifyField(name, indent, depth, ctx) (r, ok)
  prop C22
  pure
  ensures ok == (name == "KIDs") && (ok ==> txt(r) == cat(kidsText(pssh.KIDs, len(pssh.KIDs)), txt("]")))
  loop 0
    invariant wr(sink(buf)) == kidsText(pssh.KIDs, $k)
