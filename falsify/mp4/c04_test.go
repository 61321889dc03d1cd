package mp4

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

// Boxes whose fields carry every combination of presence rules.  Each leaf is one octet (or one bit run summing to octets).
type vRuleBase struct {
	BaseCustomFieldObject
	Opts map[string]bool
}

func (b *vRuleBase) IsOptFieldEnabled(name string, ctx Context) bool {
	return b.Opts[name] != ctx.UnderWave
}

type vRuleIn struct { // answers for itself
	vRuleBase
	P uint8 `mp4:"0,size=8,opt=dynamic"`
	Q uint8 `mp4:"1,size=8,nver=1,nopt=0x4"`
	R uint8 `mp4:"2,size=8,opt=dynamic,ver=1"`
}

type vRulePlain struct { // answered for by the box
	S uint8 `mp4:"0,size=8,opt=dynamic"`
	T uint8 `mp4:"1,size=8,ver=2,opt=0x000010"`
	U uint8 `mp4:"2,size=8"`
}

type vRule1 struct {
	AnyTypeBox
	vRuleBase
	Version uint8        `mp4:"3,size=8"`
	Flags   [3]byte      `mp4:"4,size=8"`
	B       uint8        `mp4:"1,size=8,nver=0"`
	A       uint8        `mp4:"0,size=8,ver=1"`
	C       uint8        `mp4:"5,size=8,ver=0"`
	D       uint8        `mp4:"6,size=8,nver=0"`
	E       uint8        `mp4:"7,size=8,ver=1,nver=1"`
	F       uint8        `mp4:"8,size=8,opt=0x000001"`
	G       uint8        `mp4:"9,size=8,nopt=0x000001"`
	H       uint8        `mp4:"10,size=8,opt=0x800006,nopt=0x100"`
	I       uint8        `mp4:"11,size=8,opt=65536"`
	J       uint8        `mp4:"12,size=8,opt=dynamic"`
	K       uint8        `mp4:"13,size=8,opt=dynamic,ver=0"`
	L       uint8        `mp4:"14,size=8,opt=dynamic,nopt=0x2"`
	M       vRuleIn      `mp4:"15,opt=0x8"`
	N       vRulePlain   `mp4:"16,nver=2"`
	O       []vRulePlain `mp4:"17,len=dynamic,ver=254"`
	V       []vRuleIn    `mp4:"18,len=dynamic,nopt=7"`
	W       [2]uint8     `mp4:"19,size=8,ver=2,nopt=1"`
	X       *vRuleIn     `mp4:"20,opt=0x20"`
	Y       uint8        `mp4:"22,size=8,nver=254,ver=2"`
	Z       uint8        `mp4:"21,size=8,nver=254,opt=dynamic,nopt=0x400000,ver=1"`
	Z2      uint8        `mp4:"-1,size=8,opt=0x1"`
}

func (b *vRule1) IsOptFieldEnabled(name string, ctx Context) bool {
	return b.vRuleBase.IsOptFieldEnabled(name, ctx)
}
func (b *vRule1) GetFieldLength(name string, ctx Context) uint {
	if name == "O" {
		return uint(len(b.O))
	}
	return uint(len(b.V))
}
func (b *vRule1) GetFieldSize(name string, ctx Context) uint              { panic("size") }
func (b *vRule1) StringifyField(string, string, int, Context) (string, bool) { return "", false }
func (b *vRule1) IsPString(string, []byte, uint64, Context) bool           { return true }
func (b *vRule1) GetVersion() uint8                                       { return b.Version }
func (b *vRule1) SetVersion(v uint8)                                      { b.Version = v }
func (b *vRule1) GetFlags() uint32 {
	return uint32(b.Flags[0])<<16 | uint32(b.Flags[1])<<8 | uint32(b.Flags[2])
}

var vRuleNames = []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "P", "Q", "R", "S", "T", "U", "Z"}

func vTag(tag, key string) (string, bool) {
	for _, e := range strings.Split(tag, ",") {
		kv := strings.SplitN(strings.TrimSpace(e), "=", 2)
		if kv[0] == key {
			if len(kv) == 2 {
				return kv[1], true
			}
			return "", true
		}
	}
	return "", false
}

func vTagOrder(tag string) int {
	for _, e := range strings.Split(tag, ",") {
		if n, err := strconv.Atoi(e); err == nil {
			return n
		}
	}
	return 0
}

// c04walk lists the leaves that are present, in wire order, by the rule of the property.
func c04walk(box *vRule1, v reflect.Value, opts map[string]bool, ctx Context, ver int, flags uint32, leaf func(name string, v reflect.Value)) {
	t := v.Type()
	var idx []int
	for i := 0; i < t.NumField(); i++ {
		if _, ok := t.Field(i).Tag.Lookup("mp4"); ok {
			idx = append(idx, i)
		}
	}
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if vTagOrder(t.Field(idx[j]).Tag.Get("mp4")) < vTagOrder(t.Field(idx[i]).Tag.Get("mp4")) {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
	}
	if b, ok := v.Addr().Interface().(*vRuleIn); ok {
		opts = b.Opts
	} else {
		opts = box.Opts
	}
	for _, i := range idx {
		tag := t.Field(i).Tag.Get("mp4")
		name := t.Field(i).Name
		cv := ver
		if cv != 255 {
			if s, ok := vTag(tag, "ver"); ok && s != fmt.Sprint(cv) {
				continue
			}
			if s, ok := vTag(tag, "nver"); ok && s == fmt.Sprint(cv) {
				continue
			}
		}
		if s, ok := vTag(tag, "opt"); ok {
			if s == "dynamic" {
				if opts[name] == ctx.UnderWave {
					continue
				}
			} else if m, _ := strconv.ParseUint(s, 0, 32); flags&uint32(m) == 0 {
				continue
			}
		}
		if s, ok := vTag(tag, "nopt"); ok {
			if m, _ := strconv.ParseUint(s, 0, 32); flags&uint32(m) != 0 {
				continue
			}
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Struct:
			leaf(name, reflect.Value{})
			c04walk(box, f, opts, ctx, ver, flags, leaf)
		case reflect.Ptr:
			leaf(name, reflect.Value{})
			c04walk(box, f.Elem(), opts, ctx, ver, flags, leaf)
		case reflect.Slice, reflect.Array:
			leaf(name, reflect.Value{})
			for k := 0; k < f.Len(); k++ {
				if f.Index(k).Kind() == reflect.Struct {
					c04walk(box, f.Index(k), opts, ctx, ver, flags, leaf)
				} else {
					leaf("", f.Index(k))
				}
			}
		default:
			leaf(name, f)
		}
	}
}

func TestVerifC04Presence(t *testing.T) {
	v := newV(t)
	defer v.done()
	bt := Uint32ToBoxType(0xe0000004)
	AddAnyTypeBoxDef(&vRule1{}, bt)
	opts := func() map[string]bool {
		m := map[string]bool{}
		for _, n := range vRuleNames {
			m[n] = v.r.Intn(2) == 0
		}
		return m
	}
	for i := 0; i < v.rounds(2500) && !v.late(); i++ {
		b := &vRule1{}
		b.SetType(bt)
		b.Opts = opts()
		b.M.Opts = opts()
		b.X = &vRuleIn{}
		b.X.Opts = opts()
		b.O = make([]vRulePlain, v.r.Intn(3))
		b.V = make([]vRuleIn, v.r.Intn(3))
		for k := range b.V {
			b.V[k].Opts = opts()
		}
		ver := []uint8{0, 1, 2, 254, 3, 255}[v.r.Intn(6)]
		b.Version = ver
		var flags uint32
		for k := v.r.Intn(4); k > 0; k-- {
			flags |= []uint32{1, 2, 4, 8, 0x10, 0x20, 0x100, 0x10000, 0x400000, 0x800000, 0xffffff}[v.r.Intn(11)]
		}
		b.Flags = [3]byte{byte(flags >> 16), byte(flags >> 8), byte(flags)}
		ctx := Context{UnderWave: v.r.Intn(2) == 0}
		// every leaf gets its own value
		n := byte(0x40)
		var fill func(reflect.Value)
		fill = func(x reflect.Value) {
			for k := 0; k < x.NumField(); k++ {
				if _, ok := x.Type().Field(k).Tag.Lookup("mp4"); !ok || x.Type().Field(k).Name == "Version" || x.Type().Field(k).Name == "Flags" {
					continue
				}
				f := x.Field(k)
				switch f.Kind() {
				case reflect.Uint8:
					n++
					f.SetUint(uint64(n))
				case reflect.Struct:
					fill(f)
				case reflect.Ptr:
					fill(f.Elem())
				case reflect.Slice, reflect.Array:
					for j := 0; j < f.Len(); j++ {
						if f.Index(j).Kind() == reflect.Struct {
							fill(f.Index(j))
						} else {
							n++
							f.Index(j).SetUint(uint64(n))
						}
					}
				}
			}
		}
		fill(reflect.ValueOf(b).Elem())
		var want []byte
		var names []string
		c04walk(b, reflect.ValueOf(b).Elem(), b.Opts, ctx, int(ver), flags, func(name string, x reflect.Value) {
			if x.IsValid() {
				want = append(want, byte(x.Uint()))
			}
			if name != "" {
				names = append(names, name)
			}
		})
		desc := fmt.Sprintf("version=%d flags=%06x wave=%v opts=%v inner=%v lens=%d,%d", ver, flags, ctx.UnderWave, b.Opts, b.M.Opts, len(b.O), len(b.V))
		v.eval("%s", desc)
		v.guard("Marshal", desc, func() {
			var out bytes.Buffer
			k, err := Marshal(&out, b, ctx)
			if err != nil || !bytes.Equal(out.Bytes(), want) || k != uint64(len(want)) {
				v.fail("Marshal", "%s: wrote %x (%d, %v), the present fields are %x (%v)", desc, out.Bytes(), k, err, want, names)
			}
			s, err := Stringify(b, ctx)
			if err != nil {
				v.fail("Stringify", "%s: %v", desc, err)
				return
			}
			var got []string
			for _, w := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" {}[],", r) }) {
				if j := strings.Index(w, "="); j > 0 {
					got = append(got, w[:j])
				}
			}
			if !reflect.DeepEqual(got, names) {
				v.fail("Stringify", "%s: printed fields %v, present %v", desc, got, names)
			}
		})
		if ver == 255 {
			continue
		}
		// reading: before the version is read no version rule excludes a field
		v.guard("Unmarshal", desc, func() {
			src := make([]byte, 200)
			for k := range src {
				src[k] = byte(v.r.Intn(256))
			}
			d := &vRule1{}
			d.SetType(bt)
			d.Opts = b.Opts
			pos := 2 // A, B come before the version; Z2 depends on flags still zero
			src[pos] = ver
			copy(src[pos+1:], b.Flags[:])
			d.O, d.V = nil, nil
			k, err := Unmarshal(bytes.NewReader(src), uint64(len(src)), d, ctx)
			if err != nil {
				v.fail("Unmarshal", "%s: %v", desc, err)
				return
			}
			if d.A != src[0] || d.B != src[1] {
				v.fail("Unmarshal", "%s: fields before the version: A=%x B=%x in %x", desc, d.A, d.B, src[:3])
			}
			// the rest by the rule, in order
			exp := []byte{}
			c04walk(d, reflect.ValueOf(d).Elem(), d.Opts, ctx, int(ver), flags, func(name string, x reflect.Value) {
				if name != "A" && name != "B" && name != "Z2" && x.IsValid() {
					exp = append(exp, byte(x.Uint()))
				}
			})
			if k != uint64(2+len(exp)) || !bytes.Equal(exp, src[2:2+len(exp)]) {
				v.fail("Unmarshal", "%s: consumed %d, present fields hold %x, input %x", desc, k, exp, src[:40])
			}
		})
	}
}

