package main

// Hash-consed first-order terms with a light simplifier and an SMT-LIB printer.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SInt
	SArr
	SUn
)

type Sort struct {
	K    SortKind
	W    int
	A, B *Sort
	Name string
	str  string
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	var k string
	switch s.K {
	case SBool:
		k = "Bool"
	case SBV:
		k = fmt.Sprintf("(_ BitVec %d)", s.W)
	case SInt:
		k = "Int"
	case SArr:
		k = fmt.Sprintf("(Array %s %s)", s.A.str, s.B.str)
	case SUn:
		k = s.Name
	}
	if x, ok := sortTab[k]; ok {
		return x
	}
	s.str = k
	sortTab[k] = &s
	return &s
}

var (
	BoolS = mkSort(Sort{K: SBool})
	IntS  = mkSort(Sort{K: SInt})
	StrS  = mkSort(Sort{K: SUn, Name: "Str"})
	FltS  = mkSort(Sort{K: SUn, Name: "Flt"})
)

func BV(n int) *Sort           { return mkSort(Sort{K: SBV, W: n}) }
func ArrS(a, b *Sort) *Sort    { return mkSort(Sort{K: SArr, A: a, B: b}) }
func UnS(name string) *Sort    { return mkSort(Sort{K: SUn, Name: name}) }
func (s *Sort) String() string { return s.str }

type Term struct {
	Op   string // "var","const","true","false","ite","forall","exists","app", or SMT op
	S    *Sort
	Args []*Term
	Name string   // var / app name; strings
	V    *big.Int // constants
	I, J int      // extract hi, lo ; extension amount
	id   int
	// Bound variables present (free occurrences)
	bound bool
	Trig  [][]*Term
}

var termTab = map[string]*Term{}
var termCnt int

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(t.S.str)
	if t.V != nil {
		b.WriteByte('#')
		b.WriteString(t.V.String())
	}
	fmt.Fprintf(&b, "|%d,%d", t.I, t.J)
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, tr := range t.Trig {
		b.WriteString(";")
		for _, a := range tr {
			fmt.Fprintf(&b, "~%d", a.id)
		}
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCnt++
	t.id = termCnt
	if t.Op == "bvar" {
		t.bound = true
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.bound = computeBound(&t)
	} else {
		for _, a := range t.Args {
			if a.bound {
				t.bound = true
			}
		}
	}
	n := t
	termTab[k] = &n
	return &n
}

func computeBound(q *Term) bool {
	// free bound vars of the body minus own
	own := map[*Term]bool{}
	for _, v := range q.Args[:len(q.Args)-1] {
		own[v] = true
	}
	return hasFreeBound(q.Args[len(q.Args)-1], own, map[*Term]bool{})
}

func hasFreeBound(t *Term, own map[*Term]bool, seen map[*Term]bool) bool {
	if !t.bound || seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "bvar" {
		return !own[t]
	}
	if t.Op == "forall" || t.Op == "exists" {
		o2 := map[*Term]bool{}
		for k := range own {
			o2[k] = true
		}
		for _, v := range t.Args[:len(t.Args)-1] {
			o2[v] = true
		}
		return hasFreeBound(t.Args[len(t.Args)-1], o2, map[*Term]bool{})
	}
	for _, a := range t.Args {
		if hasFreeBound(a, own, seen) {
			return true
		}
	}
	return false
}

var (
	True  = intern(Term{Op: "true", S: BoolS})
	False = intern(Term{Op: "false", S: BoolS})
)

var freshCnt int

func FreshVar(prefix string, s *Sort) *Term {
	freshCnt++
	return intern(Term{Op: "var", S: s, Name: fmt.Sprintf("%s!%d", sanitize(prefix), freshCnt)})
}
func NamedVar(name string, s *Sort) *Term {
	return intern(Term{Op: "var", S: s, Name: sanitize(name)})
}
func BoundVar(prefix string, s *Sort) *Term {
	freshCnt++
	return intern(Term{Op: "bvar", S: s, Name: fmt.Sprintf("%s?%d", sanitize(prefix), freshCnt)})
}
func sanitize(s string) string {
	s = strings.ReplaceAll(s, "|", "_")
	return strings.ReplaceAll(s, "\\", "_")
}

func BVc(v uint64, w int) *Term { return BVbig(new(big.Int).SetUint64(v), w) }
func BVbig(v *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(v, m)
	return intern(Term{Op: "const", S: BV(w), V: r})
}
func IntC(v int64) *Term { return intern(Term{Op: "const", S: IntS, V: big.NewInt(v)}) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.Op == "const" }

// signed value of a BV const
func (t *Term) sval() *big.Int {
	if t.S.K == SInt {
		return t.V
	}
	half := new(big.Int).Lsh(big.NewInt(1), uint(t.S.W-1))
	if t.V.Cmp(half) >= 0 {
		return new(big.Int).Sub(t.V, new(big.Int).Lsh(big.NewInt(1), uint(t.S.W)))
	}
	return t.V
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return intern(Term{Op: "not", S: BoolS, Args: []*Term{a}})
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False {
			return false
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{Op: "and", S: BoolS, Args: out})
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True {
			return false
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// common factor: (a & c) | (b & c) -> keep simple
	return intern(Term{Op: "or", S: BoolS, Args: out})
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return intern(Term{Op: "=>", S: BoolS, Args: []*Term{a, b}})
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s", a.S, b.S))
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.S == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return intern(Term{Op: "ite", S: a.S, Args: []*Term{c, a, b}})
}

// distinct decides syntactic disequality.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return a.V.Cmp(b.V) != 0
	}
	if (a == True && b == False) || (a == False && b == True) {
		return true
	}
	if a.Op == "str" && b.Op == "str" {
		return a.Name != b.Name
	}
	if a.S == IntS {
		return refDistinct(a, b)
	}
	if a.S.K == SBV {
		// x+c1 vs x+c2
		ab, ac := addConst(a)
		bb, bc := addConst(b)
		if ab == bb && ac.Cmp(bc) != 0 {
			return true
		}
	}
	return false
}

func addConst(a *Term) (*Term, *big.Int) {
	if a.isConst() {
		return nil, a.V
	}
	if a.Op == "bvadd" && a.Args[len(a.Args)-1].isConst() && len(a.Args) == 2 {
		return a.Args[0], a.Args[1].V
	}
	return a, big.NewInt(0)
}

// Reference terms: "fresh" vars (allocation sites) carry Op "fresh"; sub-objects are app sub!..., elem!...
func baseOf(t *Term) *Term {
	for t.Op == "app" && (strings.HasPrefix(t.Name, "sub!") || strings.HasPrefix(t.Name, "elem!")) {
		t = t.Args[0]
	}
	return t
}

func refDistinct(a, b *Term) bool {
	ba, bb := baseOf(a), baseOf(b)
	if ba.Op == "fresh" && bb.Op == "fresh" && ba != bb {
		return true
	}
	// a fresh object is distinct from everything older
	if ba.Op == "fresh" && older(bb, ba) {
		return true
	}
	if bb.Op == "fresh" && older(ba, bb) {
		return true
	}
	aApp := a != ba
	bApp := b != bb
	if aApp && bApp {
		if a.Name != b.Name {
			// different outer constructors
			return true
		}
		if strings.HasPrefix(a.Name, "sub!") {
			return distinct(a.Args[0], b.Args[0])
		}
		return distinct(a.Args[0], b.Args[0]) || (a.Args[0] == b.Args[0] && distinct(a.Args[1], b.Args[1]))
	}
	if aApp != bApp {
		// constructed vs root object
		x := bb
		if bApp {
			x = ba
		}
		if x.Op == "fresh" || x.isConst() {
			return true
		}
	}
	return false
}

// older: every fresh leaf inside t was allocated before f (syntactically: t built when only smaller birth numbers existed)
func older(t, f *Term) bool {
	return t.maxBirth() < f.I
}

var birthMemo = map[*Term]int{}
var birthClock int // incremented at each allocation / havoc; terms record the clock when created through vars

var varBirth = map[*Term]int{}

func (t *Term) maxBirth() int {
	if b, ok := birthMemo[t]; ok {
		return b
	}
	b := 0
	switch t.Op {
	case "fresh":
		b = t.I
	case "var", "bvar":
		b = varBirth[t]
		if t.Op == "bvar" {
			b = 1 << 30
		}
		if t.S != IntS && t.S.K != SArr {
			b = 0
		}
		if t.S.K == SArr {
			b = varBirth[t]
		}
	}
	for _, a := range t.Args {
		if x := a.maxBirth(); x > b {
			b = x
		}
	}
	birthMemo[t] = b
	return b
}

func FreshRef(prefix string) *Term {
	birthClock++
	freshCnt++
	return intern(Term{Op: "fresh", S: IntS, Name: fmt.Sprintf("%s!%d", sanitize(prefix), freshCnt), I: birthClock})
}

// NewVar is a fresh variable whose reference content may point to anything allocated so far.
func NewVar(prefix string, s *Sort) *Term {
	t := FreshVar(prefix, s)
	varBirth[t] = birthClock
	return t
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sort mismatch: %s:%s vs %s:%s", a.short(), a.S, b.short(), b.S))
	}
	if distinct(a, b) {
		return False
	}
	if a.S == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// ite(c, k1, k2) == k
	if a.Op == "ite" && (b.isConst() || b.Op == "str") {
		if x, y := a.Args[1], a.Args[2]; isVal(x) || isVal(y) {
			return Ite(a.Args[0], Eq(x, b), Eq(y, b))
		}
	}
	if b.Op == "ite" && (a.isConst() || a.Op == "str") {
		if x, y := b.Args[1], b.Args[2]; isVal(x) || isVal(y) {
			return Ite(b.Args[0], Eq(a, x), Eq(a, y))
		}
	}
	if a.S.K == SBV && b.isConst() && a.Op == "zext" {
		x := a.Args[0]
		if b.V.BitLen() > x.S.W {
			return False
		}
		return Eq(x, BVbig(b.V, x.S.W))
	}
	if a.S.K == SBV && a.isConst() && b.Op == "zext" {
		return Eq(b, a)
	}
	if a.S.K == SBV && b.isConst() && a.Op == "bvadd" && len(a.Args) == 2 && a.Args[1].isConst() {
		return Eq(a.Args[0], BVbig(new(big.Int).Sub(b.V, a.Args[1].V), a.S.W))
	}
	if a.S.K == SBV && a.isConst() && b.Op == "bvadd" {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{Op: "=", S: BoolS, Args: []*Term{a, b}})
}

func isVal(t *Term) bool { return t.isConst() || t.Op == "str" }

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func StrLit(s string) *Term { return intern(Term{Op: "str", S: StrS, Name: s}) }

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(Term{Op: "app", S: s, Name: name, Args: args})
}

var selMemo = map[[2]*Term]*Term{}

func Select(m, i *Term) *Term {
	if m.Op == "var" {
		if f := frameOf[m]; f != nil {
			return f.sel(m, i)
		}
		return intern(Term{Op: "select", S: m.S.B, Args: []*Term{m, i}})
	}
	k := [2]*Term{m, i}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := select0(m, i)
	selMemo[k] = r
	return r
}

// havoced maps remember what they were before the havoc and which references may have been written.
type frameInfo struct {
	prev  *Term
	excl  []*Term // references that may differ
	birth int     // references older than this, not in excl, are unchanged
	elems []*Term // backings whose elements may differ
}

var frameOf = map[*Term]*frameInfo{}

func (f *frameInfo) sel(m, i *Term) *Term {
	if i.S == IntS && i.maxBirth() <= f.birth {
		ok := true
		for _, e := range f.excl {
			if e.Op == "app" && e.Name == "elem!*" {
				ow := elemOwner(i)
				if ow != nil && distinct(ow, e.Args[0]) || ow == nil && notElem(i) {
					continue
				}
				ok = false
				break
			}
			if !distinct(i, e) {
				ok = false
				break
			}
		}
		if ok {
			return Select(f.prev, i)
		}
	}
	return intern(Term{Op: "select", S: m.S.B, Args: []*Term{m, i}})
}

// notElem: the reference is certainly not (part of) an element of a slice.
func notElem(t *Term) bool {
	for t.Op == "app" && strings.HasPrefix(t.Name, "sub!") {
		t = t.Args[0]
	}
	return t.Op == "fresh" || t.isConst() || t.Op == "app" && strings.HasPrefix(t.Name, "glob!")
}

func select0(m, i *Term) *Term {
	if m.S.K != SArr {
		panic("select on " + m.S.str + " " + m.short())
	}
	if m.S.A != i.S {
		panic(fmt.Sprintf("select index sort %s vs %s: %s", m.S.A, i.S, m.short()))
	}
	for {
		if m.Op == "store" {
			if m.Args[1] == i {
				return m.Args[2]
			}
			if distinct(m.Args[1], i) {
				m = m.Args[0]
				continue
			}
		}
		if m.Op == "constarr" {
			return m.Args[0]
		}
		if m.Op == "var" {
			return Select(m, i)
		}
		if m.Op == "ite" {
			// push select through ite when it resolves on both or one side cheaply
			a, b := m.Args[1], m.Args[2]
			sa, sb := Select(a, i), Select(b, i)
			return Ite(m.Args[0], sa, sb)
		}
		break
	}
	return intern(Term{Op: "select", S: m.S.B, Args: []*Term{m, i}})
}

func Store(m, i, v *Term) *Term {
	if m.S.A != i.S || m.S.B != v.S {
		panic(fmt.Sprintf("store sorts %s [%s] := %s", m.S, i.S, v.S))
	}
	if v.Op == "select" && v.Args[0] == m && v.Args[1] == i {
		return m
	}
	if m.Op == "store" && m.Args[1] == i {
		m = m.Args[0]
	}
	return intern(Term{Op: "store", S: m.S, Args: []*Term{m, i, v}})
}

func ConstArr(s *Sort, v *Term) *Term {
	return intern(Term{Op: "constarr", S: s, Args: []*Term{v}})
}

// ---- bit-vector operations ----

func mod(v *big.Int, w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return new(big.Int).Mod(v, m)
}

func BVOp(op string, a, b *Term) *Term {
	if a.S != b.S || a.S.K != SBV {
		panic(fmt.Sprintf("bvop %s sorts %s %s", op, a.S, b.S))
	}
	w := a.S.W
	if a.isConst() && b.isConst() {
		x, y := a.V, b.V
		r := new(big.Int)
		switch op {
		case "bvadd":
			return BVbig(r.Add(x, y), w)
		case "bvsub":
			return BVbig(r.Sub(x, y), w)
		case "bvmul":
			return BVbig(r.Mul(x, y), w)
		case "bvand":
			return BVbig(r.And(x, y), w)
		case "bvor":
			return BVbig(r.Or(x, y), w)
		case "bvxor":
			return BVbig(r.Xor(x, y), w)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVc(0, w)
			}
			return BVbig(r.Lsh(x, uint(y.Uint64())), w)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVc(0, w)
			}
			return BVbig(r.Rsh(x, uint(y.Uint64())), w)
		case "bvashr":
			sh := uint(w)
			if y.Cmp(big.NewInt(int64(w))) < 0 {
				sh = uint(y.Uint64())
			}
			return BVbig(r.Rsh(a.sval(), sh), w)
		case "bvudiv":
			if y.Sign() != 0 {
				return BVbig(r.Div(x, y), w)
			}
		case "bvurem":
			if y.Sign() != 0 {
				return BVbig(r.Mod(x, y), w)
			}
		case "bvsdiv":
			if y.Sign() != 0 {
				return BVbig(r.Quo(a.sval(), b.sval()), w)
			}
		case "bvsrem":
			if y.Sign() != 0 {
				return BVbig(r.Rem(a.sval(), b.sval()), w)
			}
		}
	}
	zero := func(t *Term) bool { return t.isConst() && t.V.Sign() == 0 }
	ones := func(t *Term) bool {
		return t.isConst() && t.V.Cmp(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))) == 0
	}
	switch op {
	case "bvadd":
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if b.isConst() && a.Op == "bvadd" && len(a.Args) == 2 && a.Args[1].isConst() {
			return BVOp("bvadd", a.Args[0], BVbig(new(big.Int).Add(a.Args[1].V, b.V), w))
		}
		// (x + c) + y -> (x + y) + c
		if a.Op == "bvadd" && a.Args[1].isConst() {
			return BVOp("bvadd", BVOp("bvadd", a.Args[0], b), a.Args[1])
		}
		if b.Op == "bvadd" && b.Args[1].isConst() {
			return BVOp("bvadd", BVOp("bvadd", a, b.Args[0]), b.Args[1])
		}
		// (x - y) + y
		if a.Op == "bvsub" && a.Args[1] == b {
			return a.Args[0]
		}
		if b.Op == "bvsub" && b.Args[1] == a {
			return b.Args[0]
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case "bvsub":
		if zero(b) {
			return a
		}
		if a == b {
			return BVc(0, w)
		}
		if b.isConst() {
			return BVOp("bvadd", a, BVbig(new(big.Int).Neg(b.V), w))
		}
		if a.Op == "bvadd" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
			if a.Args[1].isConst() {
				return BVOp("bvadd", BVOp("bvsub", a.Args[0], b), a.Args[1])
			}
		}
		if b.Op == "bvadd" && b.Args[1].isConst() {
			return BVOp("bvadd", BVOp("bvsub", a, b.Args[0]), BVbig(new(big.Int).Neg(b.Args[1].V), w))
		}
	case "bvmul":
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if b.isConst() && b.V.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case "bvand":
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if ones(b) || a == b {
			return a
		}
	case "bvor", "bvxor":
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if a == b {
			if op == "bvor" {
				return a
			}
			return BVc(0, w)
		}
	case "bvshl", "bvlshr", "bvashr":
		if zero(b) {
			return a
		}
		if zero(a) {
			return a
		}
	case "bvudiv", "bvsdiv":
		if b.isConst() && b.V.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if op == "bvudiv" && b.isConst() {
			if k := pow2(b.V); k >= 0 {
				return BVOp("bvlshr", a, BVc(uint64(k), w))
			}
		}
	case "bvurem":
		if b.isConst() {
			if k := pow2(b.V); k >= 0 {
				return BVOp("bvand", a, BVbig(new(big.Int).Sub(b.V, big.NewInt(1)), w))
			}
		}
	}
	return intern(Term{Op: op, S: a.S, Args: []*Term{a, b}})
}

func pow2(v *big.Int) int {
	if v.Sign() <= 0 {
		return -1
	}
	n := v.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0 {
		return n
	}
	return -1
}

func BVNot(a *Term) *Term {
	if a.isConst() {
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.S.W)), big.NewInt(1))
		return BVbig(new(big.Int).Xor(a.V, m), a.S.W)
	}
	if a.Op == "bvnot" {
		return a.Args[0]
	}
	return intern(Term{Op: "bvnot", S: a.S, Args: []*Term{a}})
}
func BVNeg(a *Term) *Term {
	if a.isConst() {
		return BVbig(new(big.Int).Neg(a.V), a.S.W)
	}
	return intern(Term{Op: "bvneg", S: a.S, Args: []*Term{a}})
}

func ZExt(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.S.W > w {
		return Extract(a, w-1, 0)
	}
	if a.isConst() {
		return BVbig(a.V, w)
	}
	if a.Op == "zext" {
		return ZExt(a.Args[0], w)
	}
	return intern(Term{Op: "zext", S: BV(w), I: w - a.S.W, Args: []*Term{a}})
}
func SExt(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.S.W > w {
		return Extract(a, w-1, 0)
	}
	if a.isConst() {
		return BVbig(a.sval(), w)
	}
	return intern(Term{Op: "sext", S: BV(w), I: w - a.S.W, Args: []*Term{a}})
}
func Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.S.W-1 {
		return a
	}
	if a.isConst() {
		return BVbig(new(big.Int).Rsh(a.V, uint(lo)), hi-lo+1)
	}
	if (a.Op == "zext" || a.Op == "sext") && hi < a.Args[0].S.W {
		return Extract(a.Args[0], hi, lo)
	}
	if a.Op == "zext" && lo >= a.Args[0].S.W {
		return BVc(0, hi-lo+1)
	}
	if a.Op == "extract" {
		return Extract(a.Args[0], hi+a.J, lo+a.J)
	}
	if a.Op == "ite" && (isVal(a.Args[1]) || isVal(a.Args[2])) {
		return Ite(a.Args[0], Extract(a.Args[1], hi, lo), Extract(a.Args[2], hi, lo))
	}
	return intern(Term{Op: "extract", S: BV(hi - lo + 1), I: hi, J: lo, Args: []*Term{a}})
}

// comparisons
func Cmp(op string, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("cmp %s sorts %s %s", op, a.S, b.S))
	}
	if a.isConst() && b.isConst() {
		var c int
		switch op[2] {
		case 'u':
			c = a.V.Cmp(b.V)
		case 's':
			c = a.sval().Cmp(b.sval())
		}
		switch op[3:] {
		case "lt":
			return BoolC(c < 0)
		case "le":
			return BoolC(c <= 0)
		}
	}
	if a == b {
		return BoolC(op[3:] == "le")
	}
	zero := func(t *Term) bool { return t.isConst() && t.V.Sign() == 0 }
	if op == "bvult" && zero(b) {
		return False
	}
	if op == "bvule" && zero(a) {
		return True
	}
	// compare small zero-extended values
	if a.Op == "zext" && b.Op == "zext" && a.Args[0].S == b.Args[0].S {
		return Cmp("bvu"+op[3:], a.Args[0], b.Args[0])
	}
	if a.Op == "zext" && b.isConst() && (op[2] == 'u' || b.sval().Sign() >= 0) {
		x := a.Args[0]
		if b.V.BitLen() > x.S.W {
			return True
		}
		return Cmp("bvu"+op[3:], x, BVbig(b.V, x.S.W))
	}
	if b.Op == "zext" && a.isConst() && (op[2] == 'u' || a.sval().Sign() >= 0) {
		x := b.Args[0]
		if a.V.BitLen() > x.S.W {
			return False
		}
		return Cmp("bvu"+op[3:], BVbig(a.V, x.S.W), x)
	}
	return intern(Term{Op: op, S: BoolS, Args: []*Term{a, b}})
}
func Ult(a, b *Term) *Term { return Cmp("bvult", a, b) }
func Ule(a, b *Term) *Term { return Cmp("bvule", a, b) }
func Slt(a, b *Term) *Term { return Cmp("bvslt", a, b) }
func Sle(a, b *Term) *Term { return Cmp("bvsle", a, b) }

// integer (reference order) comparison
func ILe(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		return BoolC(a.V.Cmp(b.V) <= 0)
	}
	return intern(Term{Op: "<=", S: BoolS, Args: []*Term{a, b}})
}
func ILt(a, b *Term) *Term { return Not(ILe(b, a)) }

func Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.bound {
		return body
	}
	return intern(Term{Op: "forall", S: BoolS, Args: append(append([]*Term{}, vars...), body), Trig: trig})
}
func Exists(vars []*Term, body *Term) *Term {
	if body == True || body == False || !body.bound {
		return body
	}
	return intern(Term{Op: "exists", S: BoolS, Args: append(append([]*Term{}, vars...), body)})
}

// ---- substitution ----

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substRec(t, m, memo)
}

func substRec(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = substRec(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		var trig [][]*Term
		for _, tr := range t.Trig {
			var x []*Term
			for _, a := range tr {
				x = append(x, substRec(a, m, memo))
			}
			trig = append(trig, x)
		}
		r = rebuild(t, args, trig)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term, trig [][]*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "bvnot":
		return BVNot(args[0])
	case "bvneg":
		return BVNeg(args[0])
	case "zext":
		return ZExt(args[0], t.S.W)
	case "sext":
		return SExt(args[0], t.S.W)
	case "extract":
		return Extract(args[0], t.I, t.J)
	case "bvult", "bvule", "bvslt", "bvsle":
		return Cmp(t.Op, args[0], args[1])
	case "<=":
		return ILe(args[0], args[1])
	case "forall":
		return Forall(args[:len(args)-1], args[len(args)-1], trig...)
	case "exists":
		return Exists(args[:len(args)-1], args[len(args)-1])
	}
	if strings.HasPrefix(t.Op, "bv") && len(args) == 2 {
		return BVOp(t.Op, args[0], args[1])
	}
	n := *t
	n.Args = args
	n.Trig = trig
	n.bound = false
	return intern(n)
}

func (t *Term) short() string {
	s := printTree(t, 6)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func printTree(t *Term, d int) string {
	if d == 0 {
		return "..."
	}
	switch t.Op {
	case "var", "bvar", "fresh":
		return t.Name
	case "const":
		if t.S.K == SInt {
			return t.V.String()
		}
		if t.V.BitLen() < 16 {
			return t.V.String()
		}
		return "0x" + t.V.Text(16)
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "true", "false":
		return t.Op
	}
	n := t.Op
	if n == "app" {
		n = t.Name
	}
	if n == "extract" {
		n = fmt.Sprintf("extract[%d:%d]", t.I, t.J)
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, printTree(a, d-1))
	}
	return "(" + n + " " + strings.Join(p, " ") + ")"
}

// ---- SMT printing ----

type smtPrinter struct {
	decls   []string
	declSet map[string]bool
	body    strings.Builder
	named   map[*Term]string
	refs    map[*Term]int
	cnt     int
	strs    []*Term
	freshes []*Term
	sorts   map[string]bool
	apps    []*Term // closed applications seen

	trigName map[*Term]*Term
}

func newPrinter() *smtPrinter {
	return &smtPrinter{declSet: map[string]bool{}, named: map[*Term]string{}, refs: map[*Term]int{}, sorts: map[string]bool{}}
}

func q(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			return "|" + s + "|"
		}
	}
	return s
}

func (p *smtPrinter) declSort(s *Sort) {
	switch s.K {
	case SUn:
		if !p.sorts[s.Name] {
			p.sorts[s.Name] = true
			p.decls = append(p.decls, fmt.Sprintf("(declare-sort %s 0)", s.Name))
		}
	case SArr:
		p.declSort(s.A)
		p.declSort(s.B)
	}
}

func (p *smtPrinter) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, tr := range t.Trig {
		for _, a := range tr {
			p.count(a)
		}
	}
}

func (p *smtPrinter) str(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	s := p.raw(t)
	if len(t.Args) > 0 && p.refs[t] > 1 && !t.bound {
		p.cnt++
		n := fmt.Sprintf("n%d", p.cnt)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, t.S.str, s)
		p.named[t] = n
		return n
	}
	return s
}

func (p *smtPrinter) declare(name, sig string) {
	if !p.declSet[name] {
		p.declSet[name] = true
		p.decls = append(p.decls, sig)
	}
}

func (p *smtPrinter) raw(t *Term) string {
	p.declSort(t.S)
	switch t.Op {
	case "true", "false":
		return t.Op
	case "var":
		p.declare("v:"+t.Name, fmt.Sprintf("(declare-fun %s () %s)", q(t.Name), t.S.str))
		return q(t.Name)
	case "fresh":
		if !p.declSet["v:"+t.Name] {
			p.freshes = append(p.freshes, t)
		}
		p.declare("v:"+t.Name, fmt.Sprintf("(declare-fun %s () Int)", q(t.Name)))
		return q(t.Name)
	case "bvar":
		return q(t.Name)
	case "const":
		if t.S.K == SInt {
			if t.V.Sign() < 0 {
				return fmt.Sprintf("(- %s)", new(big.Int).Neg(t.V).String())
			}
			return t.V.String()
		}
		if t.S.W%4 == 0 {
			return fmt.Sprintf("#x%0*s", t.S.W/4, t.V.Text(16))
		}
		return fmt.Sprintf("#b%0*s", t.S.W, t.V.Text(2))
	case "str":
		n := "str:" + t.Name
		if !p.declSet["v:"+n] {
			p.strs = append(p.strs, t)
		}
		p.declare("v:"+n, fmt.Sprintf("(declare-fun %s () Str)", qs(n)))
		return qs(n)
	case "app":
		var as []string
		for _, a := range t.Args {
			as = append(as, p.str(a))
		}
		if !p.declSet["f:"+t.Name] {
			var ss []string
			for _, a := range t.Args {
				p.declSort(a.S)
				ss = append(ss, a.S.str)
			}
			p.declare("f:"+t.Name, fmt.Sprintf("(declare-fun %s (%s) %s)", q(t.Name), strings.Join(ss, " "), t.S.str))
		}
		if len(as) == 0 {
			return q(t.Name)
		}
		return "(" + q(t.Name) + " " + strings.Join(as, " ") + ")"
	case "forall", "exists":
		t = p.plainTriggers(t)
		var vs []string
		n := len(t.Args) - 1
		for _, v := range t.Args[:n] {
			p.declSort(v.S)
			vs = append(vs, fmt.Sprintf("(%s %s)", q(v.Name), v.S.str))
		}
		b := p.str(t.Args[n])
		if len(t.Trig) > 0 {
			var ps []string
			for _, tr := range t.Trig {
				var xs []string
				for _, a := range tr {
					xs = append(xs, p.str(a))
				}
				ps = append(ps, ":pattern ("+strings.Join(xs, " ")+")")
			}
			b = "(! " + b + " " + strings.Join(ps, " ") + ")"
		}
		return "(" + t.Op + " (" + strings.Join(vs, " ") + ") " + b + ")"
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.S.str, p.str(t.Args[0]))
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.I, p.str(t.Args[0]))
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.I, p.str(t.Args[0]))
	case "extract":
		return fmt.Sprintf("((_ extract %d %d) %s)", t.I, t.J, p.str(t.Args[0]))
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, p.str(a))
	}
	return "(" + t.Op + " " + strings.Join(as, " ") + ")"
}

// plainTriggers names the closed subterms of a trigger that hold a conditional: solvers refuse such patterns.
func (p *smtPrinter) plainTriggers(t *Term) *Term {
	m := map[*Term]*Term{}
	var walk func(q *Term)
	walk = func(q *Term) {
		if q.bound {
			for _, a := range q.Args {
				walk(a)
			}
			return
		}
		if len(q.Args) == 0 || m[q] != nil {
			return
		}
		bad := false
		collect([]*Term{q}, func(r *Term) {
			if r.Op == "ite" || r.S == BoolS && len(r.Args) > 0 {
				bad = true
			}
		})
		if !bad {
			return
		}
		c := p.trigName[q]
		if c == nil {
			if p.trigName == nil {
				p.trigName = map[*Term]*Term{}
			}
			c = NamedVar(fmt.Sprintf("trg!%d", len(p.trigName)), q.S)
			p.trigName[q] = c
			fmt.Fprintf(&p.body, "(assert (= %s %s))\n", p.str(c), p.str(q))
		}
		m[q] = c
	}
	for _, tr := range t.Trig {
		for _, a := range tr {
			walk(a)
		}
	}
	if len(m) == 0 {
		return t
	}
	n := *t
	n.Trig = nil
	for _, tr := range t.Trig {
		var x []*Term
		for _, a := range tr {
			x = append(x, Subst(a, m))
		}
		n.Trig = append(n.Trig, x)
	}
	return &n
}

func qs(s string) string {
	var b strings.Builder
	b.WriteByte('|')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' || c == '\\' || c < 0x20 || c > 0x7e {
			fmt.Fprintf(&b, "<%02x>", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('|')
	return b.String()
}

// collect visits every distinct subterm once.
func collect(ts []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, tr := range t.Trig {
			for _, a := range tr {
				rec(a)
			}
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
