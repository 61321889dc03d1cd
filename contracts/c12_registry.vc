package github.com/abema/go-mp4

// C12 - type registry lookups.

// a registration condition is a function of the context
logic condOf(f ref, ctx Context) bool
iface boxDef.isTarget(f, ctx) (r)
  pure
  ensures r == condOf(ref(f), ctx)

logic applies(d boxDef, ctx Context) bool = d.isTarget == nil || condOf(ref(d.isTarget), ctx)
logic defCount(t BoxType) int = len(boxMap[t])
// the index of the last of the first n registrations that applies, or -1
rec lastApplying(defs []boxDef, ctx Context, n int) int = n <= 0 ? -1 : applies(defs[n - 1], ctx) ? n - 1 : lastApplying(defs, ctx, n - 1)
lemma lastApplyingIs(defs []boxDef, ctx Context, n int)
  requires 0 <= n && n <= len(defs)
  ensures -1 <= lastApplying(defs, ctx, n) && lastApplying(defs, ctx, n) < n
  ensures lastApplying(defs, ctx, n) >= 0 ==> applies(defs[lastApplying(defs, ctx, n)], ctx)
  ensures forall j int :: {defs[j].isTarget} lastApplying(defs, ctx, n) < j && j < n ==> !applies(defs[j], ctx)
  induct n
// the most recent registration that applies
logic latest(t BoxType, ctx Context) int = lastApplying(boxMap[t], ctx, len(boxMap[t]))
logic anyDef(t BoxType, ctx Context) bool = latest(t, ctx) >= 0
logic typeNumber(t BoxType) int = int(uint32(t[0]) << 24 | uint32(t[1]) << 16 | uint32(t[2]) << 8 | uint32(t[3]))
logic numberedItem(t BoxType, ctx Context) bool = ctx.UnderIlst && typeNumber(t) >= 1 && typeNumber(t) <= ctx.QuickTimeKeysMetaEntryCount
logic isSupported(t BoxType, ctx Context) bool = anyDef(t, ctx) || numberedItem(t, ctx)

logic rtype(tid ref) ref
extern reflect.TypeOf(i) (t)
  pure
  ensures t != nil && ref(t) == rtype(typeof(i))

func (boxType BoxType).getBoxDef(ctx) (r)
  prop C12
  entry lastApplyingIs(boxMap[boxType], ctx, len(boxMap[boxType]))
  ensures [range] -1 <= latest(boxType, ctx) && latest(boxType, ctx) < len(boxMap[boxType])
  ensures [latest] anyDef(boxType, ctx) ==> r == &boxMap[boxType][latest(boxType, ctx)]
  ensures [item] !anyDef(boxType, ctx) && numberedItem(boxType, ctx) ==> r != nil && r.dataType != nil && fresh(r) && len(r.versions) == 0 && ref(r.dataType) == rtype(typeid(Item)) && r.fields == itemBoxFields
  ensures [none] !anyDef(boxType, ctx) && !numberedItem(boxType, ctx) ==> r == nil
  loop 0
    invariant -1 <= i && i < len(boxDefs)
    invariant latest(boxType, ctx) == lastApplying(boxDefs, ctx, i + 1)
    decreases i + 1

func (boxType BoxType).IsSupported(ctx) (r)
  prop C12
  ensures r == isSupported(boxType, ctx)

logic listsVersion(d boxDef, ver uint8) bool = len(d.versions) == 0 || exists k int :: 0 <= k && k < len(d.versions) && d.versions[k] == ver

func (boxType BoxType).IsSupportedVersion(ver, ctx) (r)
  prop C12
  ensures [registered] anyDef(boxType, ctx) ==> r == listsVersion(boxMap[boxType][latest(boxType, ctx)], ver)
  ensures [item] !anyDef(boxType, ctx) ==> r == numberedItem(boxType, ctx)
  loop 0
    invariant forall k int :: 0 <= k && k < $k ==> boxDef.versions[k] != ver

func (boxType BoxType).GetSupportedVersions(ctx) (vs, err)
  prop C12
  ensures err == nil <==> isSupported(boxType, ctx)
  ensures [registered] anyDef(boxType, ctx) ==> vs == boxMap[boxType][latest(boxType, ctx)].versions
  ensures [item] !anyDef(boxType, ctx) ==> len(vs) == 0

// creation
logic elemType(rt ref) ref
logic ptrType(rt ref) ref
logic rvIface(v reflect.Value) any
logic rvDyn(v reflect.Value) ref = typeof(rvIface(v))
logic rvRef(v reflect.Value) ref = ref(rvIface(v))
ghost btype(b ref) BoxType
represents btype(b *AnyTypeBox) = b.Type

extern reflect.New(t) (v)
  ensures rvDyn(v) == ptrType(ref(t)) && fresh(rvRef(v))

extern (v reflect.Value).Interface() (i)
  pure
  ensures i == rvIface(v)

iface reflect.Type.Elem(t) (e)
  pure
  ensures e != nil && ref(e) == elemType(ref(t))

iface IAnyType.SetType(b, t)
  modifies btype(b)
  ensures btype(b) == t

logic typeOf(b ref) BoxType
iface IImmutableBox.GetType(b) (t)
  pure
  ensures t == (impl(b, IAnyType) ? btype(b) : typeOf(typeof(b)))

func (e *AnyTypeBox).SetType(boxType)
  prop C12
  modifies e.Type
  ensures btype(e) == boxType

func (e *AnyTypeBox).GetType() (t)
  prop C12
  pure
  ensures t == btype(e)

func (boxType BoxType).String() (s)
  trusted
  pure

func (boxType BoxType).New(ctx) (box, err)
  prop C12
  requires forall i int :: {boxMap[boxType][i].isTarget} 0 <= i && i < len(boxMap[boxType]) ==> boxMap[boxType][i].dataType != nil
  ensures !isSupported(boxType, ctx) ==> err == ErrBoxInfoNotFound && box == nil
  ensures [registered] err == nil && anyDef(boxType, ctx) ==> typeof(box) == ptrType(ref(boxMap[boxType][latest(boxType, ctx)].dataType))
  ensures [item] err == nil && !anyDef(boxType, ctx) ==> typeof(box) == ptrType(rtype(typeid(Item)))
  ensures [type] err == nil && impl(box, IAnyType) ==> btype(box) == boxType

// registration
func buildFields(box) (fs)
  trusted

logic reported(b IBox) BoxType = impl(b, IAnyType) ? btype(b) : typeOf(typeof(b))

func AddBoxDef(payload, versions)
  prop C12
  requires boxMap != nil
  modifies *
  let t = reported(payload)
  let n = len(boxMap[t])
  ensures [one] len(boxMap[t]) == n + 1
  ensures [newest] boxMap[t][n].dataType != nil && ref(boxMap[t][n].dataType) == elemType(rtype(typeof(payload))) && boxMap[t][n].isTarget == nil && boxMap[t][n].versions == versions
  ensures [older] forall i int :: {boxMap[t][i].isTarget} 0 <= i && i < n ==> boxMap[t][i] == old(boxMap[t][i])
  ensures [others] forall u BoxType :: {len(boxMap[u])} u != t ==> boxMap[u] == old(boxMap[u])

func AddBoxDefEx(payload, isTarget, versions)
  prop C12
  requires boxMap != nil
  modifies *
  let t = reported(payload)
  let n = len(boxMap[t])
  ensures [one] len(boxMap[t]) == n + 1
  ensures [newest] boxMap[t][n].dataType != nil && ref(boxMap[t][n].dataType) == elemType(rtype(typeof(payload))) && boxMap[t][n].isTarget == isTarget && boxMap[t][n].versions == versions
  ensures [older] forall i int :: {boxMap[t][i].isTarget} 0 <= i && i < n ==> boxMap[t][i] == old(boxMap[t][i])
  ensures [others] forall u BoxType :: {len(boxMap[u])} u != t ==> boxMap[u] == old(boxMap[u])

func AddAnyTypeBoxDef(payload, boxType, versions)
  prop C12
  requires boxMap != nil
  modifies *
  let t = boxType
  let n = len(boxMap[t])
  ensures [one] len(boxMap[t]) == n + 1
  ensures [newest] boxMap[t][n].dataType != nil && ref(boxMap[t][n].dataType) == elemType(rtype(typeof(payload))) && boxMap[t][n].isTarget == nil && boxMap[t][n].versions == versions
  ensures [older] forall i int :: {boxMap[t][i].isTarget} 0 <= i && i < n ==> boxMap[t][i] == old(boxMap[t][i])
  ensures [others] forall u BoxType :: {len(boxMap[u])} u != t ==> boxMap[u] == old(boxMap[u])

func AddAnyTypeBoxDefEx(payload, boxType, isTarget, versions)
  prop C12
  requires boxMap != nil
  modifies *
  let t = boxType
  let n = len(boxMap[t])
  ensures [one] len(boxMap[t]) == n + 1
  ensures [newest] boxMap[t][n].dataType != nil && ref(boxMap[t][n].dataType) == elemType(rtype(typeof(payload))) && boxMap[t][n].isTarget == isTarget && boxMap[t][n].versions == versions
  ensures [older] forall i int :: {boxMap[t][i].isTarget} 0 <= i && i < n ==> boxMap[t][i] == old(boxMap[t][i])
  ensures [others] forall u BoxType :: {len(boxMap[u])} u != t ==> boxMap[u] == old(boxMap[u])

