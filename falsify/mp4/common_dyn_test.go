package mp4

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
)

// A box type whose widths, counts and presence are chosen by the case at hand, with an encoder of its own.
type vSynItem struct {
	X uint32 `mp4:"0,size=dynamic"`
	Y int16  `mp4:"1,size=dynamic"`
	Z bool   `mp4:"2,size=dynamic"`
}

type vSyn struct {
	FullBox `mp4:"0,extend"`
	// declared out of wire order on purpose
	L   uint8      `mp4:"12,size=dynamic,opt=dynamic"`
	A   uint64     `mp4:"1,size=dynamic,opt=dynamic"`
	B   int64      `mp4:"2,size=dynamic,opt=dynamic"`
	C   uint16     `mp4:"3,size=dynamic,opt=dynamic"`
	D   int8       `mp4:"4,size=dynamic,opt=dynamic"`
	E   bool       `mp4:"5,size=dynamic,opt=dynamic"`
	F   uint32     `mp4:"6,varint,opt=dynamic"`
	G   [3]int32   `mp4:"7,size=dynamic,opt=dynamic"`
	H   []uint16   `mp4:"8,size=dynamic,len=dynamic,opt=dynamic"`
	I   []vSynItem `mp4:"9,len=dynamic,opt=dynamic"`
	J   string     `mp4:"10,string,opt=dynamic"`
	K   []byte     `mp4:"11,size=8,len=dynamic,opt=dynamic"`
	N   *vSynItem  `mp4:"13,opt=dynamic"`
	P   string     `mp4:"14,string,opt=dynamic"`
	V   uint32     `mp4:"15,size=32,ver=1"`
	W   uint16     `mp4:"16,size=16,opt=0x000004"`
	Q   []byte     `mp4:"17,size=8,opt=dynamic"`
	R   []int32    `mp4:"18,size=dynamic,opt=dynamic"`
	S   string     `mp4:"19,boxstring,opt=dynamic"`
	cfg *vSynCfg
}

type vSynCfg struct {
	on   map[string]bool
	size map[string]uint
	len  map[string]uint
}

var vSynType = BoxType{'v', 's', 'y', '0'}
var vSynOnce sync.Once

func vSynRegister() { vSynOnce.Do(func() { AddBoxDef(&vSyn{}, 0, 1) }) }

func (*vSyn) GetType() BoxType                                        { return vSynType }
func (s *vSyn) GetFieldSize(n string, _ Context) uint                 { return s.cfg.size[n] }
func (s *vSyn) GetFieldLength(n string, _ Context) uint               { return s.cfg.len[n] }
func (s *vSyn) IsOptFieldEnabled(n string, _ Context) bool            { return s.cfg.on[n] }
func (s *vSyn) String() string                                        { return vSynShow(s) }

func vSynShow(s *vSyn) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "v%d f%x", s.Version, s.GetFlags())
	show := func(n string, x interface{}) {
		if s.cfg.on[n] {
			fmt.Fprintf(&b, " %s:%d*%d=%v", n, s.cfg.size[n], s.cfg.len[n], x)
		}
	}
	show("A", s.A); show("B", s.B); show("C", s.C); show("D", s.D); show("E", s.E); show("F", s.F); show("G", s.G)
	show("H", s.H); show("I", s.I); show("J", fmt.Sprintf("%q", s.J)); show("K", s.K); show("L", s.L)
	if s.N != nil {
		show("N", *s.N)
	}
	show("P", fmt.Sprintf("%q", s.P)); show("Q", s.Q); show("R", s.R); show("S", fmt.Sprintf("%q", s.S))
	fmt.Fprintf(&b, " X%d Y%d Z%d", s.cfg.size["X"], s.cfg.size["Y"], s.cfg.size["Z"])
	return b.String()
}

// vBits is a bit string, one octet per bit.
type vBits []byte

func (b *vBits) num(v uint64, n uint) {
	for i := uint(0); i < n; i++ {
		sh := n - 1 - i
		x := byte(0)
		if sh < 64 {
			x = byte(v>>sh) & 1
		}
		*b = append(*b, x)
	}
}

func (b *vBits) str(s string, zero bool) {
	for i := 0; i < len(s); i++ {
		b.num(uint64(s[i]), 8)
	}
	if zero {
		b.num(0, 8)
	}
}

func (b *vBits) item(s *vSyn, it *vSynItem) {
	b.num(uint64(it.X), s.cfg.size["X"])
	b.num(uint64(int64(it.Y)), s.cfg.size["Y"])
	b.flag(it.Z, s.cfg.size["Z"])
}

func (b *vBits) flag(v bool, n uint) {
	x := uint64(0)
	if v {
		x = ^x
	}
	b.num(x, n)
}

func (b vBits) bytes() []byte {
	r := make([]byte, (len(b)+7)/8)
	for i, x := range b {
		r[i/8] |= x << (7 - uint(i%8))
	}
	return r
}

// vSynBits lays the box out; ok is false when a list is shorter than declared.
func vSynBits(s *vSyn) (b vBits, ok bool) {
	c := s.cfg
	ok = true
	b.num(uint64(s.Version), 8)
	b.num(uint64(s.GetFlags()), 24)
	if c.on["A"] {
		b.num(s.A, c.size["A"])
	}
	if c.on["B"] {
		b.num(uint64(s.B), c.size["B"])
	}
	if c.on["C"] {
		b.num(uint64(s.C), c.size["C"])
	}
	if c.on["D"] {
		b.num(uint64(int64(s.D)), c.size["D"])
	}
	if c.on["E"] {
		b.flag(s.E, c.size["E"])
	}
	if c.on["F"] {
		for i := 3; i >= 0; i-- {
			more := uint64(0)
			if i > 0 {
				more = 0x80
			}
			b.num(uint64(s.F>>(7*uint(i)))&0x7f|more, 8)
		}
	}
	if c.on["G"] {
		for _, x := range s.G {
			b.num(uint64(int64(x)), c.size["G"])
		}
	}
	if c.on["H"] {
		if uint(len(s.H)) < c.len["H"] {
			return b, false
		}
		for i := uint(0); i < c.len["H"]; i++ {
			b.num(uint64(s.H[i]), c.size["H"])
		}
	}
	if c.on["I"] {
		if uint(len(s.I)) < c.len["I"] {
			return b, false
		}
		for i := uint(0); i < c.len["I"]; i++ {
			b.item(s, &s.I[i])
		}
	}
	if c.on["J"] {
		b.str(s.J, true)
	}
	if c.on["K"] {
		if uint(len(s.K)) < c.len["K"] {
			return b, false
		}
		for i := uint(0); i < c.len["K"]; i++ {
			b.num(uint64(s.K[i]), 8)
		}
	}
	if c.on["L"] {
		b.num(uint64(s.L), c.size["L"])
	}
	if c.on["N"] {
		b.item(s, s.N)
	}
	if c.on["P"] {
		b.str(s.P, true)
	}
	if s.Version == 1 {
		b.num(uint64(s.V), 32)
	}
	if s.GetFlags()&4 != 0 {
		b.num(uint64(s.W), 16)
	}
	if c.on["Q"] {
		for _, x := range s.Q {
			b.num(uint64(x), 8)
		}
	}
	if c.on["R"] {
		for _, x := range s.R {
			b.num(uint64(int64(x)), c.size["R"])
		}
	}
	if c.on["S"] {
		b.str(s.S, false)
	}
	return b, true
}

func vText(r *rand.Rand) string {
	if r.Intn(8) == 0 { // texts that look special
		w := []string{"\ufeff", " ", "\t", "\r\n", "\u65e5\u672c", "\xff\xfe", "\xfe\xff", "\x7f", "\"", "\\", "%", "a", "A", "\ufffd", "\x80", "0", "."}
		s := ""
		for k := 1 + r.Intn(4); k > 0; k-- {
			s += w[r.Intn(len(w))]
		}
		return s
	}
	n := r.Intn(6)
	if r.Intn(12) == 0 {
		n = 200 + r.Intn(120)
	}
	s := make([]byte, n)
	for i := range s {
		s[i] = byte(1 + r.Intn(255))
	}
	return string(s)
}

func vWidth(r *rand.Rand, max int) uint {
	if r.Intn(3) == 0 {
		w := 8 * (1 + r.Intn(8))
		if w <= max {
			return uint(w)
		}
	}
	return uint(1 + r.Intn(max))
}

func (v *vctx) fitsU(n uint) uint64 {
	x := v.u64()
	if v.r.Intn(6) == 0 {
		x = ^uint64(0)
	}
	if n < 64 {
		x &= 1<<n - 1
	}
	return x
}

func (v *vctx) fitsI(n uint) int64 {
	x := v.fitsU(n)
	if n < 64 && x>>(n-1)&1 != 0 {
		x |= ^uint64(0) << n
	}
	return int64(x)
}

func (v *vctx) synItem(c *vSynCfg) vSynItem {
	return vSynItem{X: uint32(v.fitsU(c.size["X"])), Y: int16(v.fitsI(c.size["Y"])), Z: v.r.Intn(2) == 0}
}

// syn draws a box whose values fit and whose bits end on an octet.
func (v *vctx) syn() *vSyn {
	c := &vSynCfg{on: map[string]bool{}, size: map[string]uint{}, len: map[string]uint{}}
	s := &vSyn{cfg: c}
	one := v.r.Intn(4) == 0
	for _, n := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "N", "P"} {
		c.on[n] = v.r.Intn(3) == 0
		if one {
			c.on[n] = v.r.Intn(13) == 0
		}
	}
	w := func(n string, max int) uint { c.size[n] = vWidth(v.r, max); return c.size[n] }
	s.Version = uint8(v.r.Intn(2))
	s.SetFlags(uint32(v.u64()) & 0xffffff)
	s.A = v.fitsU(w("A", 64))
	s.B = v.fitsI(w("B", 64))
	s.C = uint16(v.fitsU(w("C", 16)))
	s.D = int8(v.fitsI(w("D", 8)))
	w("E", 8)
	s.E = v.r.Intn(2) == 0
	s.F = uint32(v.fitsU(28))
	w("G", 32)
	for i := range s.G {
		s.G[i] = int32(v.fitsI(c.size["G"]))
	}
	w("H", 16)
	c.len["H"] = uint(v.r.Intn(5))
	for i := uint(0); i < c.len["H"]; i++ {
		s.H = append(s.H, uint16(v.fitsU(c.size["H"])))
	}
	w("X", 32)
	w("Y", 16)
	w("Z", 8)
	c.len["I"] = uint(v.r.Intn(4))
	for i := uint(0); i < c.len["I"]; i++ {
		s.I = append(s.I, v.synItem(c))
	}
	it := v.synItem(c)
	s.N = &it
	s.J, s.P = vText(v.r), vText(v.r)
	c.len["K"] = uint(v.r.Intn(6))
	for i := uint(0); i < c.len["K"]; i++ {
		s.K = append(s.K, byte(v.r.Intn(256)))
	}
	s.V, s.W = uint32(v.u64()), uint16(v.u64())
	w("R", 32)
	switch v.r.Intn(5) {
	case 0:
		c.on["Q"] = true
		for i := v.r.Intn(8); i > 0; i-- {
			s.Q = append(s.Q, byte(v.r.Intn(256)))
		}
	case 1:
		c.on["R"] = true
		c.size["R"] = uint(8 * (1 + v.r.Intn(4)))
		for i := v.r.Intn(5); i > 0; i-- {
			s.R = append(s.R, int32(v.fitsI(c.size["R"])))
		}
	case 2:
		c.on["S"] = true
		s.S = vText(v.r)
	}
	c.on["L"] = false
	if b, _ := vSynBits(s); len(b)%8 != 0 {
		c.on["L"] = true
		c.size["L"] = uint(8 - len(b)%8)
		s.L = uint8(v.fitsU(c.size["L"]))
	}
	return s
}

// vSynSame compares what was decoded with what was coded, selected fields only.
func vSynSame(a, b *vSyn) string {
	if a.FullBox != b.FullBox {
		return fmt.Sprintf("FullBox %v, want %v", b.FullBox, a.FullBox)
	}
	av, bv := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < av.NumField(); i++ {
		n := av.Type().Field(i).Name
		on := a.cfg.on[n] || n == "V" && a.Version == 1 || n == "W" && a.GetFlags()&4 != 0
		if n == "cfg" || n == "FullBox" || !on {
			continue
		}
		x, y := av.Field(i), bv.Field(i)
		if x.Kind() == reflect.Slice {
			k := x.Len()
			if l, ok := a.cfg.len[n]; ok {
				k = int(l)
			}
			if y.Len() != k {
				return fmt.Sprintf("%s has %d elements, want %d", n, y.Len(), k)
			}
			if k == 0 {
				continue
			}
			x = x.Slice(0, k)
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return fmt.Sprintf("%s = %v, want %v", n, y.Interface(), x.Interface())
		}
	}
	return ""
}
