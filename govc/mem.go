package main

// Values, type layouts, heap maps and states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: its type and its leaf terms.
type Val struct {
	T  types.Type
	L  []*Term
	LV *LVal    // for pointers that are interior leaf addresses
	Fn *FuncVal // statically known function value
}

type FuncVal struct {
	Fn   *ssa.Function
	Bind []Val
}

type LVal struct {
	Key string // heap map key prefix
	Row bool   // S: maps (backing) vs F:/C:/G: maps
	Obj *Term
	Idx *Term
	T   types.Type
}

var opaque = map[string]*Sort{} // type string -> sort
var ghostTypes = map[string]types.Type{}

func ghostType(name string, s *Sort) types.Type {
	if t, ok := ghostTypes[name]; ok {
		return t
	}
	tn := types.NewTypeName(0, nil, name, nil)
	t := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	ghostTypes[name] = t
	opaque[types.TypeString(t, nil)] = s
	return t
}

var refT = types.Typ[types.UnsafePointer]
var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var u64T = types.Typ[types.Uint64]
var u8T = types.Typ[types.Uint8]
var strT = types.Typ[types.String]

func isOpaque(t types.Type) *Sort {
	if _, ok := t.(*types.Named); ok {
		return opaque[types.TypeString(t, nil)]
	}
	return nil
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

var sortMemo = map[types.Type][]*Sort{}

func leafSorts(t types.Type) []*Sort {
	if s, ok := sortMemo[t]; ok {
		return s
	}
	s := leafSorts0(t)
	sortMemo[t] = s
	return s
}

func leafSorts0(t types.Type) []*Sort {
	if s := isOpaque(t); s != nil {
		return []*Sort{s}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []*Sort{BoolS}
		case u.Info()&types.IsString != 0:
			return []*Sort{StrS}
		case u.Info()&types.IsFloat != 0:
			return []*Sort{FltS}
		case u.Info()&types.IsInteger != 0:
			return []*Sort{BV(intWidth(u))}
		case u.Kind() == types.Invalid:
			return nil
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []*Sort{IntS}
		}
		unsup("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []*Sort{IntS}
	case *types.Slice:
		return []*Sort{IntS, BV(64), BV(64), BV(64)}
	case *types.Interface:
		return []*Sort{IntS, IntS}
	case *types.Struct:
		var r []*Sort
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leafSorts(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			unsup("array too large: %s", t)
		}
		e := leafSorts(u.Elem())
		var r []*Sort
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, e...)
		}
		return r
	case *types.Tuple:
		var r []*Sort
		for i := 0; i < u.Len(); i++ {
			r = append(r, leafSorts(u.At(i).Type())...)
		}
		return r
	}
	unsup("type %s", t)
	return nil
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isAggr(t types.Type) bool {
	if isOpaque(t) != nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroLeaf(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SBV:
		return BVc(0, s.W)
	case SInt:
		return IntC(0)
	case SUn:
		if s == StrS {
			return StrLit("")
		}
		return App("zero!"+s.Name, s)
	}
	panic("zeroLeaf " + s.str)
}

func zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, s := range leafSorts(t) {
		v.L = append(v.L, zeroLeaf(s))
	}
	return v
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return p.Name()
	})
}

// fieldInfo
func structOf(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("not a struct: %s", t)
	}
	return s
}

func fieldLeafRange(t types.Type, i int) (int, int) {
	s := structOf(t)
	o := 0
	for k := 0; k < i; k++ {
		o += len(leafSorts(s.Field(k).Type()))
	}
	return o, o + len(leafSorts(s.Field(i).Type()))
}

func (v Val) field(i int) Val {
	s := structOf(v.T)
	a, b := fieldLeafRange(v.T, i)
	return Val{T: s.Field(i).Type(), L: v.L[a:b]}
}

func (v Val) tupleAt(i int) Val {
	tt := v.T.(*types.Tuple)
	o := 0
	for k := 0; k < i; k++ {
		o += len(leafSorts(tt.At(k).Type()))
	}
	n := len(leafSorts(tt.At(i).Type()))
	return Val{T: tt.At(i).Type(), L: v.L[o : o+n]}
}

func (v Val) term() *Term {
	if v.LV != nil {
		unsup("interior pointer used as a value (%s)", v.LV.Key)
	}
	if len(v.L) != 1 {
		unsup("value of type %s is not a single leaf", v.T)
	}
	return v.L[0]
}

func mkVal(t types.Type, l ...*Term) Val { return Val{T: t, L: l} }
func boolVal(t *Term) Val                { return Val{T: boolT, L: []*Term{t}} }

// slice accessors
func (v Val) arr() *Term { return v.L[0] }
func (v Val) off() *Term { return v.L[1] }
func (v Val) ln() *Term  { return v.L[2] }
func (v Val) cp() *Term  { return v.L[3] }

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	unsup("elemOf %s", t)
	return nil
}

// ---- heap ----

// State is one symbolic machine state.
type State struct {
	pc     *Term
	heap   map[string]*Term
	top    *Term
	defers []deferred
	vals   map[ssa.Value]Val // values of SSA registers defined in loops that were unrolled
}

type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	site  ssa.Instruction
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	n := &State{pc: s.pc, heap: h, top: s.top, defers: append([]deferred{}, s.defers...)}
	if s.vals != nil {
		n.vals = make(map[ssa.Value]Val, len(s.vals))
		for k, v := range s.vals {
			n.vals[k] = v
		}
	}
	return n
}

func keyFor(prefix string, t types.Type, k, n int) string {
	if n == 1 {
		return prefix
	}
	return fmt.Sprintf("%s#%d", prefix, k)
}

// initial heap variables are shared by name so all states of a run agree.
func (x *Exec) hget(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := x.initHeap[key]; ok {
		st.heap[key] = t
		return t
	}
	t := NamedVar("H0:"+key, s)
	x.initHeap[key] = t
	x.heapSort[key] = s
	st.heap[key] = t
	return t
}

func fieldKey(t types.Type, i int) string {
	s := structOf(t)
	return "F:" + tname(t) + "." + s.Field(i).Name()
}

func subRef(t types.Type, i int, obj *Term) *Term {
	s := structOf(t)
	return App("sub!"+tname(t)+"."+s.Field(i).Name(), IntS, obj)
}

func elemRef(t types.Type, arr, idx *Term) *Term {
	return App("elem!"+tname(t), IntS, arr, idx)
}

// fieldAddr returns the address of field i of the struct of type t at obj.
func fieldAddr(t types.Type, i int, obj *Term) Val {
	ft := structOf(t).Field(i).Type()
	pt := types.NewPointer(ft)
	if isAggr(ft) {
		return Val{T: pt, L: []*Term{subRef(t, i, obj)}}
	}
	return Val{T: pt, LV: &LVal{Key: fieldKey(t, i), Obj: obj, T: ft}}
}

func indexAddr(et types.Type, arr, idx *Term) Val {
	pt := types.NewPointer(et)
	if isAggr(et) {
		return Val{T: pt, L: []*Term{elemRef(et, arr, idx)}}
	}
	return Val{T: pt, LV: &LVal{Key: "S:" + tname(et), Row: true, Obj: arr, Idx: idx, T: et}}
}

func rowSort(leaf *Sort) *Sort { return ArrS(BV(64), leaf) }

// load reads the value at pointer p.
func (x *Exec) load(st *State, p Val) Val {
	et := elemOf(p.T)
	if p.LV != nil {
		return x.loadLV(st, p.LV)
	}
	return x.loadAt(st, et, p.term())
}

func (x *Exec) loadLV(st *State, lv *LVal) Val {
	ss := leafSorts(lv.T)
	v := Val{T: lv.T}
	for k, s := range ss {
		key := keyFor(lv.Key, lv.T, k, len(ss))
		if strings.HasPrefix(key, "G:") {
			v.L = append(v.L, x.hget(st, key, s))
		} else if lv.Row {
			m := x.hget(st, key, ArrS(IntS, rowSort(s)))
			v.L = append(v.L, Select(Select(m, lv.Obj), lv.Idx))
		} else {
			m := x.hget(st, key, ArrS(IntS, s))
			v.L = append(v.L, Select(m, lv.Obj))
		}
	}
	x.wf(st, v)
	return v
}

func (x *Exec) loadAt(st *State, t types.Type, ref *Term) Val {
	if o := isOpaque(t); o == nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			v := Val{T: t}
			for i := 0; i < u.NumFields(); i++ {
				fv := x.load(st, fieldAddr(t, i, ref))
				v.L = append(v.L, fv.L...)
			}
			return v
		case *types.Array:
			v := Val{T: t}
			for i := int64(0); i < u.Len(); i++ {
				ev := x.load(st, indexAddr(u.Elem(), ref, BVc(uint64(i), 64)))
				v.L = append(v.L, ev.L...)
			}
			return v
		}
	}
	return x.loadLV(st, &LVal{Key: "C:" + tname(t), Obj: ref, T: t})
}

func (x *Exec) store(st *State, p Val, v Val) {
	et := elemOf(p.T)
	if p.LV != nil {
		x.storeLV(st, p.LV, v)
		return
	}
	x.storeAt(st, et, p.term(), v)
}

func (x *Exec) storeLV(st *State, lv *LVal, v Val) {
	if v.LV != nil {
		unsup("storing an interior pointer into %s", lv.Key)
	}
	ss := leafSorts(lv.T)
	if len(ss) != len(v.L) {
		unsup("store leaf mismatch at %s: %d vs %d (%s := %s)", lv.Key, len(ss), len(v.L), lv.T, v.T)
	}
	for k, s := range ss {
		key := keyFor(lv.Key, lv.T, k, len(ss))
		if strings.HasPrefix(key, "G:") {
			x.hget(st, key, s)
			x.noteWrite(st, key, nil)
			st.heap[key] = v.L[k]
		} else if lv.Row {
			m := x.hget(st, key, ArrS(IntS, rowSort(s)))
			x.noteWrite(st, key, lv.Obj)
			st.heap[key] = Store(m, lv.Obj, Store(Select(m, lv.Obj), lv.Idx, v.L[k]))
		} else {
			m := x.hget(st, key, ArrS(IntS, s))
			x.noteWrite(st, key, lv.Obj)
			st.heap[key] = Store(m, lv.Obj, v.L[k])
		}
	}
	if v.Fn != nil {
		x.fnvals[v.L[0]] = v.Fn
	}
}

func (x *Exec) storeAt(st *State, t types.Type, ref *Term, v Val) {
	if o := isOpaque(t); o == nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			o := 0
			for i := 0; i < u.NumFields(); i++ {
				n := len(leafSorts(u.Field(i).Type()))
				x.store(st, fieldAddr(t, i, ref), Val{T: u.Field(i).Type(), L: v.L[o : o+n]})
				o += n
			}
			return
		case *types.Array:
			n := len(leafSorts(u.Elem()))
			for i := int64(0); i < u.Len(); i++ {
				x.store(st, indexAddr(u.Elem(), ref, BVc(uint64(i), 64)), Val{T: u.Elem(), L: v.L[int(i)*n : int(i)*n+n]})
			}
			return
		}
	}
	x.storeLV(st, &LVal{Key: "C:" + tname(t), Obj: ref, T: t}, v)
}

var keySorts = map[string]*Sort{}

// heapKeys lists the heap map keys (with sorts) that hold the contents of an object of type t at ref.
type loc struct {
	key string
	obj *Term
	idx *Term // nil: whole cell/row
	s   *Sort // leaf sort
	row bool
}

func locsAt(t types.Type, ref *Term) []loc {
	var out []loc
	if isOpaque(t) == nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, locsOf(fieldAddr(t, i, ref))...)
			}
			return out
		case *types.Array:
			if !isAggr(u.Elem()) {
				ss := leafSorts(u.Elem())
				for k, s := range ss {
					key := keyFor("S:"+tname(u.Elem()), u.Elem(), k, len(ss))
					out = append(out, loc{key: key, obj: ref, s: s, row: true})
					keySorts[key] = ArrS(IntS, rowSort(s))
				}
				return out
			}
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, locsOf(indexAddr(u.Elem(), ref, BVc(uint64(i), 64)))...)
			}
			return out
		}
	}
	return locsOf(Val{T: types.NewPointer(t), LV: &LVal{Key: "C:" + tname(t), Obj: ref, T: t}})
}

func locsOf(p Val) []loc {
	if p.LV == nil {
		return locsAt(elemOf(p.T), p.term())
	}
	ss := leafSorts(p.LV.T)
	var out []loc
	for k, s := range ss {
		key := keyFor(p.LV.Key, p.LV.T, k, len(ss))
		out = append(out, loc{key: key, obj: p.LV.Obj, idx: p.LV.Idx, s: s, row: p.LV.Row})
		switch {
		case strings.HasPrefix(key, "G:"):
			keySorts[key] = s
		case p.LV.Row:
			keySorts[key] = ArrS(IntS, rowSort(s))
		default:
			keySorts[key] = ArrS(IntS, s)
		}
	}
	return out
}

const maxLen = uint64(1) << 47

// wf assumes the well-formedness facts that hold of every Go value of this type that was read from memory
// or received from outside.
func (x *Exec) wf(st *State, v Val) {
	if v.T == nil || len(v.L) == 0 {
		return
	}
	if isOpaque(v.T) != nil {
		return
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		if v.ln().isConst() && v.cp().isConst() {
			return
		}
		key := v.ln()
		if x.wfSeen[key] == v.arr() {
			return
		}
		x.wfSeen[key] = v.arr()
		x.wfLog = append(x.wfLog, key)
		x.assume(True, And(
			Ule(v.ln(), v.cp()), Ule(v.cp(), BVc(maxLen, 64)),
			Implies(Eq(v.arr(), IntC(0)), And(Eq(v.cp(), BVc(0, 64)))),
		))
		x.oldRef(st, v.arr())
	case *types.Pointer, *types.Map:
		x.oldRef(st, v.L[0])
	case *types.Interface:
		x.oldRef(st, v.L[1])
		if !v.L[0].isConst() {
			x.assumeOnce(ILe(IntC(0), v.L[0]))
			x.assumeOnce(Implies(Eq(v.L[0], IntC(0)), Eq(v.L[1], IntC(0))))
		}
	case *types.Basic:
		_ = u
	}
}

func baseTerm(t *Term) *Term {
	b := baseOf(t)
	if b.Op == "fresh" || b.isConst() {
		return b
	}
	if b.Op == "ite" {
		return Ite(b.Args[0], baseTerm(b.Args[1]), baseTerm(b.Args[2]))
	}
	return App("base", IntS, b)
}

func (x *Exec) oldRef(st *State, t *Term) {
	b := baseOf(t)
	if b.Op == "fresh" || b.isConst() || b.Op == "ite" || b.bound {
		return
	}
	x.assumeOnce(ILe(baseTerm(b), st.top))
}

// freshObj allocates a new object reference.
func (x *Exec) freshObj(st *State, name string) *Term {
	f := FreshRef(name)
	x.assume(True, And(ILt(st.top, f)))
	st.top = f
	return f
}

func (x *Exec) symVal(t types.Type, name string) Val {
	v := Val{T: t}
	ss := leafSorts(t)
	for k, s := range ss {
		n := name
		if len(ss) > 1 {
			n = fmt.Sprintf("%s.%d", name, k)
		}
		v.L = append(v.L, NewVar(n, s))
	}
	return v
}

func (x *Exec) assume(pc, t *Term) {
	t = Implies(pc, t)
	if t == True {
		return
	}
	x.assumes = append(x.assumes, t)
}

func (x *Exec) assumeOnce(t *Term) {
	if t == True || x.once[t] {
		return
	}
	x.once[t] = true
	x.assumes = append(x.assumes, t)
}
