package github.com/abema/go-mp4

// C09, C10, C11 - traversal, context, extraction.

logic is4(t BoxType, a byte, b byte, c byte, d byte) bool = t[0] == a && t[1] == b && t[2] == c && t[3] == d
logic isWave(t BoxType) bool = is4(t, 0x77, 0x61, 0x76, 0x65)
logic isIlst(t BoxType) bool = is4(t, 0x69, 0x6c, 0x73, 0x74)
logic isUdta(t BoxType) bool = is4(t, 0x75, 0x64, 0x74, 0x61)
logic isFtyp(t BoxType) bool = is4(t, 0x66, 0x74, 0x79, 0x70)
logic isKeys(t BoxType) bool = is4(t, 0x6b, 0x65, 0x79, 0x73)
logic isFree(t BoxType) bool = is4(t, 0x2d, 0x2d, 0x2d, 0x2d)
logic isAny(t BoxType) bool = is4(t, 0, 0, 0, 0)

// what decoding finds in a payload: a function of the stream, its place, its size and the context
logic decLen(s ref, p int64, t BoxType, size uint64, ctx Context) uint64
logic decRef(s ref, p int64, t BoxType, size uint64, ctx Context) Box0
logic ftypQT(s ref, p int64, size uint64, ctx Context) bool
logic isQT(b [4]byte) bool = b[0] == 0x71 && b[1] == 0x74 && b[2] == 0x20 && b[3] == 0x20
logic hasQT(f *Ftyp) bool = exists i int :: 0 <= i && i < len(f.CompatibleBrands) && isQT(f.CompatibleBrands[i].CompatibleBrand)
logic keysCount(s ref, p int64, size uint64, ctx Context) int32
sort Box0
ghost dec(b ref) Box0

// the Go types registered for the box types that Probe looks at
logic kinds(t BoxType, b IBox) bool =
    (is4(t, 0x74, 0x6b, 0x68, 0x64) ==> typeof(b) == typeid(*Tkhd) && b.(*Tkhd) != nil)
    && (is4(t, 0x65, 0x6c, 0x73, 0x74) ==> typeof(b) == typeid(*Elst) && b.(*Elst) != nil)
    && (is4(t, 0x6d, 0x64, 0x68, 0x64) ==> typeof(b) == typeid(*Mdhd) && b.(*Mdhd) != nil)
    && (is4(t, 0x61, 0x76, 0x63, 0x31) ==> typeof(b) == typeid(*VisualSampleEntry) && b.(*VisualSampleEntry) != nil)
    && (is4(t, 0x61, 0x76, 0x63, 0x43) ==> typeof(b) == typeid(*AVCDecoderConfiguration) && b.(*AVCDecoderConfiguration) != nil)
    && (is4(t, 0x6d, 0x70, 0x34, 0x61) ==> typeof(b) == typeid(*AudioSampleEntry) && b.(*AudioSampleEntry) != nil)
    && (is4(t, 0x65, 0x6e, 0x63, 0x61) ==> typeof(b) == typeid(*AudioSampleEntry) && b.(*AudioSampleEntry) != nil)
    && (is4(t, 0x65, 0x73, 0x64, 0x73) ==> typeof(b) == typeid(*Esds) && b.(*Esds) != nil)
    && (is4(t, 0x73, 0x74, 0x63, 0x6f) ==> typeof(b) == typeid(*Stco) && b.(*Stco) != nil)
    && (is4(t, 0x63, 0x6f, 0x36, 0x34) ==> typeof(b) == typeid(*Co64) && b.(*Co64) != nil)
    && (is4(t, 0x73, 0x74, 0x74, 0x73) ==> typeof(b) == typeid(*Stts) && b.(*Stts) != nil)
    && (is4(t, 0x73, 0x74, 0x73, 0x63) ==> typeof(b) == typeid(*Stsc) && b.(*Stsc) != nil)
    && (is4(t, 0x63, 0x74, 0x74, 0x73) ==> typeof(b) == typeid(*Ctts) && b.(*Ctts) != nil)
    && (is4(t, 0x73, 0x74, 0x73, 0x7a) ==> typeof(b) == typeid(*Stsz) && b.(*Stsz) != nil)
    && (is4(t, 0x74, 0x66, 0x68, 0x64) ==> typeof(b) == typeid(*Tfhd) && b.(*Tfhd) != nil)
    && (is4(t, 0x74, 0x66, 0x64, 0x74) ==> typeof(b) == typeid(*Tfdt) && b.(*Tfdt) != nil)
    && (is4(t, 0x74, 0x72, 0x75, 0x6e) ==> typeof(b) == typeid(*Trun) && b.(*Trun) != nil)

func UnmarshalAny(r, boxType, payloadSize, ctx) (box, n, err)
  trusted
  modifies pos(under(r))
  ensures err == nil ==> n <= payloadSize && pos(under(r)) == old(pos(under(r))) + int64(n) && n == decLen(under(r), old(pos(under(r))), boxType, payloadSize, ctx)
  ensures err == nil ==> kinds(boxType, box)
  ensures err == nil ==> box != nil && fresh(box) && dec(box) == decRef(under(r), old(pos(under(r))), boxType, payloadSize, ctx)

func Unmarshal(r, payloadSize, dst, ctx) (n, err)
  trusted
  modifies pos(under(r)), target(dst)
  ensures err == nil ==> n <= payloadSize && pos(under(r)) == old(pos(under(r))) + int64(n)
  ensures err == nil && typeof(dst) == typeid(*Ftyp) ==> hasQT(dst.(*Ftyp)) == ftypQT(under(r), old(pos(under(r))), payloadSize, ctx)
  ensures err == nil && typeof(dst) == typeid(*Keys) ==> dst.(*Keys).EntryCount == keysCount(under(r), old(pos(under(r))), payloadSize, ctx)

logic ilstMetaType(t BoxType) bool
func IsIlstMetaBoxType(boxType) (r)
  trusted
  pure
  ensures r == ilstMetaType(boxType)

// the context of the children of a box of type t that was itself read in context c
logic isItem(t BoxType, c Context) bool = !isWave(t) && !isIlst(t) && c.UnderIlst && !c.UnderIlstMeta && ilstMetaType(t)
logic childCtx(d Context, t BoxType, c Context) bool =
    d.IsQuickTimeCompatible == c.IsQuickTimeCompatible && d.QuickTimeKeysMetaEntryCount == c.QuickTimeKeysMetaEntryCount
    && d.UnderWave == (c.UnderWave || isWave(t)) && d.UnderIlst == (c.UnderIlst || isIlst(t))
    && d.UnderIlstMeta == (c.UnderIlstMeta || isItem(t, c)) && d.UnderIlstFreeMeta == (c.UnderIlstFreeMeta || isItem(t, c) && isFree(t))
    && d.UnderUdta == (c.UnderUdta || isUdta(t) && !isItem(t, c))

// handlers are arbitrary code that may use the handle and the stream; the traversal's own state is not theirs to write
iface ReadHandler.call(f, handle) (val, err)
  requires sane(&handle.BoxInfo) && len(handle.Path) >= 1 && handle.Expand != nil && handle.ReadPayload != nil && handle.ReadData != nil
  modifies all(pos)

logic sane(bi *BoxInfo) bool = bi.HeaderSize >= 8 && bi.Size >= bi.HeaderSize && bi.Offset <= 0x7fffffffffffffff && bi.Size <= 0x7fffffffffffffff - bi.Offset

func readBoxStructureFromInternal(r, bi, path, handler, params) (val, err)
  prop C09 C10 C11 C21
  requires sane(bi)
  requires [depth] uint64(len(path)) <= bi.Offset >> 3 && (len(path) == 0 || bi.Offset <= 1 << 49)
  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), bi.Context.IsQuickTimeCompatible, bi.Context.QuickTimeKeysMetaEntryCount
  let p = int64(bi.Offset + bi.HeaderSize)
  let sz = bi.Size - bi.HeaderSize
  let c0 = bi.Context
  ensures [end] err == nil ==> pos(under(r)) == int64(bi.Offset + bi.Size)
  ensures [brand] err == nil ==> bi.IsQuickTimeCompatible == (old(bi.IsQuickTimeCompatible) || len(path) == 0 && isFtyp(bi.Type) && ftypQT(under(r), p, sz, c0))
  ensures [keys] err == nil && isKeys(bi.Type) ==> bi.QuickTimeKeysMetaEntryCount == int(keysCount(under(r), p, sz, c0))
  ensures [nokeys] err == nil && !isKeys(bi.Type) ==> bi.QuickTimeKeysMetaEntryCount == old(bi.QuickTimeKeysMetaEntryCount)
  callback [fields] childrenOffset != 0 ==> childrenOffset == bi.Offset + bi.HeaderSize + decLen(under(r), p, bi.Type, sz, bi.Context)
  callback [within] childrenOffset != 0 ==> childrenOffset - (bi.Offset + bi.HeaderSize) <= bi.Size - bi.HeaderSize
  callback [path] len(newPath) == len(path) + 1 && newPath[len(path)] == bi.Type && forall i int :: 0 <= i && i < len(path) ==> newPath[i] == path[i]
  callback [ctx] childCtx(ctx, bi.Type, bi.Context) && handler == old(handler)
  check ReadHandler.call : [handle] $f == handler && $handle.BoxInfo == *bi && $handle.Params == params && $handle.Path == newPath
  check readBoxStructure : [range] childrenOffset != 0 && pos(under(r)) == int64(childrenOffset) && $r == r && $totalSize == bi.Offset + bi.Size - childrenOffset && !$isRoot
  check readBoxStructure : [context] childCtx($ctx, bi.Type, bi.Context) && $path == newPath && $handler == handler
  check UnmarshalAny : [decode] $r == r && $boxType == bi.Type && $payloadSize == sz && $ctx == bi.Context && pos(under(r)) == p
  check io.CopyN : [data] $src == r && uint64($n) == sz && pos(under(r)) == p

func readBoxStructure(r, totalSize, isRoot, path, ctx, handler, params) (vals, err)
  prop C09 C10 C11 C21
  requires [depth] isRoot ==> len(path) == 0
  requires [depth] uint64(len(path)) <= uint64(pos(under(r))) >> 3
  requires [range] !isRoot ==> pos(under(r)) >= 0 && totalSize <= 0x7fffffffffffffff - uint64(pos(under(r)))
  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont)
  let t0 = totalSize
  requires [depth] isRoot || len(path) > 0
  ensures [leftover] err == nil && !isRoot ==> t0 - uint64(pos(under(r)) - old(pos(under(r)))) < 8
  ensures [exact] err == nil && !isRoot && !old(ctx.IsQuickTimeCompatible) ==> uint64(pos(under(r)) - old(pos(under(r)))) == t0
  check readBoxStructureFromInternal : [place] $bi.Offset + $bi.Size == uint64(old(pos(under(r)))) + (t0 - totalSize) && $bi.Size <= t0 - totalSize
  check readBoxStructureFromInternal : [box] $r == r && $path == path && $handler == handler && $bi.Context == ctx && (isRoot || $bi.Size <= t0)
  loop 0
    invariant [inside] pos(under(r)) == old(pos(under(r))) + int64(t0 - totalSize) && (!isRoot ==> totalSize <= t0)
    invariant [progress] pos(under(r)) >= old(pos(under(r)))
    invariant [below] ctx.UnderWave == old(ctx.UnderWave) && ctx.UnderIlst == old(ctx.UnderIlst) && ctx.UnderIlstMeta == old(ctx.UnderIlstMeta) && ctx.UnderIlstFreeMeta == old(ctx.UnderIlstFreeMeta) && ctx.UnderUdta == old(ctx.UnderUdta)
    invariant [brand] len(path) > 0 ==> ctx.IsQuickTimeCompatible == old(ctx.IsQuickTimeCompatible)
    decreases int64(0x7fffffffffffffff) - pos(under(r))

func ReadBoxStructureFromInternal(r, bi, handler, params) (val, err)
  prop C09 C10 C21
  requires sane(bi)

  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), bi.Context.IsQuickTimeCompatible, bi.Context.QuickTimeKeysMetaEntryCount
  ensures [end] err == nil ==> pos(under(r)) == int64(bi.Offset + bi.Size)
  check readBoxStructureFromInternal : [root] $r == r && $bi == bi && len($path) == 0 && $handler == handler && $params == params

func ReadBoxStructure(r, handler, params) (vals, err)
  prop C09 C10 C21
  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont)
  check readBoxStructure : [root] $r == r && pos(under(r)) == 0 && $isRoot && len($path) == 0 && $ctx == zero(Context) && $handler == handler && $params == params

// C11 - extraction
logic typeMatch(a BoxType, b BoxType) bool = isAny(a) || isAny(b) || is4(a, b[0], b[1], b[2], b[3])
logic prefixMatch(p BoxPath, q BoxPath) bool = len(p) <= len(q) && forall i int :: {p[i][0]} 0 <= i && i < len(p) ==> typeMatch(p[i], q[i])

func (lhs BoxType).MatchWith(rhs) (r)
  prop C11 C21
  pure
  ensures r == typeMatch(lhs, rhs)

func (lhs BoxPath).compareWith(rhs) (forwardMatch, match)
  prop C11 C21
  pure
  ensures forwardMatch == (prefixMatch(lhs, rhs) && len(lhs) < len(rhs))
  ensures match == (prefixMatch(lhs, rhs) && len(lhs) == len(rhs))
  loop 0
    invariant 0 <= i && i <= len(lhs) && len(lhs) <= len(rhs)
    invariant forall j int :: {lhs[j][0]} 0 <= j && j < i ==> typeMatch(lhs[j], rhs[j])
    decreases len(lhs) - i

logic someMatch(paths []BoxPath, path BoxPath, n int) bool = exists i int :: 0 <= i && i < n && prefixMatch(path, paths[i]) && len(path) == len(paths[i])
logic someAhead(paths []BoxPath, path BoxPath, n int) bool = exists i int :: 0 <= i && i < n && prefixMatch(path, paths[i]) && len(path) < len(paths[i])

func matchPath(paths, path) (forwardMatch, match)
  prop C11 C21
  pure
  ensures forwardMatch == someAhead(paths, path, len(paths))
  ensures match == someMatch(paths, path, len(paths))
  loop 0
    invariant forwardMatch == someAhead(paths, path, $k)
    invariant match == someMatch(paths, path, $k)

ghost calls(f ref) int
iface ReadHandle.Expand(f, params) (vals, err)
  modifies calls(ref(f)), all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont)
  ensures calls(ref(f)) == old(calls(ref(f))) + 1

func ExtractBoxes$1(handle) (val, err)
  prop C11 C21
  requires len(handle.Path) >= 1 && handle.Expand != nil
  modifies boxes, elems(boxes), calls(ref(handle.Expand)), all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont)
  let skip = isAny(handle.BoxInfo.Type)
  let rel = parent != nil ? handle.Path[1:] : handle.Path
  let enter = !skip && someAhead(paths, rel, len(paths))
  ensures [found] !enter && !skip && someMatch(paths, rel, len(paths)) ==> len(boxes) == old(len(boxes)) + 1 && boxes[old(len(boxes))] == &handle.BoxInfo
  ensures [notfound] !enter && (skip || !someMatch(paths, rel, len(paths))) ==> len(boxes) == old(len(boxes))
  ensures [order] !enter ==> forall i int :: 0 <= i && i < old(len(boxes)) ==> boxes[i] == old(boxes[i])
  ensures [enter] calls(ref(handle.Expand)) == old(calls(ref(handle.Expand))) + (enter ? int(1) : int(0))
  check ReadHandle.Expand : [first] len(boxes) == old(len(boxes)) + (someMatch(paths, rel, len(paths)) ? int(1) : int(0))
  check ReadHandle.Expand : [self] someMatch(paths, rel, len(paths)) ==> boxes[old(len(boxes))] == &handle.BoxInfo
  check ReadHandle.Expand : [kept] forall i int :: 0 <= i && i < old(len(boxes)) ==> boxes[i] == old(boxes[i])

func ExtractBoxes(r, parent, paths) (boxes, err)
  prop C11 C21
  nilable parent
  requires parent != nil ==> sane(parent)

  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), all(calls), heap(Context)
  ensures [none] len(paths) == 0 ==> err == nil && len(boxes) == 0
  ensures [empty] (exists i int :: 0 <= i && i < len(paths) && len(paths[i]) == 0) ==> err != nil && len(boxes) == 0
  ensures [sane] forall i int :: {boxes[i]} 0 <= i && i < len(boxes) ==> boxes[i] != nil && sane(boxes[i])
  check ReadBoxStructureFromInternal : [below] $r == r && $bi == parent
  check ReadBoxStructure : [file] parent == nil && $r == r
  callback [own] fresh(boxes)
  callback [sane] forall i int :: {boxes[i]} 0 <= i && i < len(boxes) ==> boxes[i] != nil && sane(boxes[i])
  loop 0
    invariant forall i int :: {len(paths[i])} 0 <= i && i < $k ==> len(paths[i]) > 0

func ExtractBoxesWithPayload(r, parent, paths) (bs, err)
  prop C11 C21
  nilable parent
  requires parent != nil ==> sane(parent)

  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), all(calls), heap(Context)
  check UnmarshalAny : [own] $r == r && $boxType == bi.Type && $payloadSize == bi.Size - bi.HeaderSize && $ctx == bi.Context && pos(under(r)) == int64(bi.Offset + bi.HeaderSize)
  ensures err == nil ==> forall i int :: {bs[i]} 0 <= i && i < len(bs) ==> bs[i] != nil && kinds(bs[i].Info.Type, bs[i].Payload)
  loop 0
    invariant forall i int :: {bs[i]} 0 <= i && i < len(bs) ==> bs[i] != nil && bs[i].Payload != nil && kinds(bs[i].Info.Type, bs[i].Payload)
    invariant len(bs) == $k
