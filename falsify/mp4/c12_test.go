package mp4

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
)

// four payload types that differ in wire size and in the name of their field
type vReg1 struct {
	AnyTypeBox
	Version uint8   `mp4:"0,size=8"`
	Flags   [3]byte `mp4:"1,size=8"`
	One     uint8   `mp4:"2,size=8"`
}
type vReg2 struct {
	FullBox `mp4:"0,extend"`
	Two     uint16 `mp4:"1,size=16"`
}
type vReg3 struct {
	FullBox `mp4:"0,extend"`
	Three   [3]byte `mp4:"1,size=8"`
}
type vReg4 struct {
	AnyTypeBox
	Four uint32 `mp4:"0,size=32"`
}

func (b *vReg1) GetVersion() uint8   { return b.Version }
func (b *vReg1) SetVersion(v uint8)  { b.Version = v }
func (*vReg2) GetType() BoxType      { return vRegType[2] }
func (*vReg3) GetType() BoxType      { return vRegType[3] }

var vRegType [5]BoxType

type vRegEntry struct {
	kind int
	cond func(Context) bool
	vers []uint8
	name string
}

func TestVerifC12Registry(t *testing.T) {
	v := newV(t)
	defer v.done()
	names := []string{"", "One", "Two", "Three", "Four"}
	sizes := []int{0, 5, 6, 7, 4}
	serial := uint32(0xf0000000)
	conds := []struct {
		name string
		f    func(Context) bool
	}{
		{"always", nil},
		{"wave", func(c Context) bool { return c.UnderWave }},
		{"notWave", func(c Context) bool { return !c.UnderWave }},
		{"ilst", func(c Context) bool { return c.UnderIlst }},
		{"udta", func(c Context) bool { return c.UnderUdta }},
		{"qt", func(c Context) bool { return c.IsQuickTimeCompatible }},
		{"keys3", func(c Context) bool { return c.QuickTimeKeysMetaEntryCount > 3 }},
		{"never", func(Context) bool { return false }},
	}
	for round := 0; round < v.rounds(150) && !v.late(); round++ {
		// three types are registered side by side
		var ts [3]BoxType
		for i := range ts {
			serial++
			ts[i] = Uint32ToBoxType(serial)
			if v.r.Intn(4) == 0 {
				// a small number: also a candidate item
				ts[i] = Uint32ToBoxType(uint32(1 + 400 + round*3 + i))
			}
		}
		regs := map[BoxType][]vRegEntry{}
		check := func() {
			for k := 0; k < 6; k++ {
				ctx := Context{
					IsQuickTimeCompatible:       v.r.Intn(2) == 0,
					QuickTimeKeysMetaEntryCount: []int{0, 1, 3, 4, 400, 700, 100000, 1 << 30}[v.r.Intn(8)],
					UnderWave:                   v.r.Intn(2) == 0, UnderIlst: v.r.Intn(2) == 0,
					UnderIlstMeta: v.r.Intn(2) == 0, UnderIlstFreeMeta: v.r.Intn(2) == 0, UnderUdta: v.r.Intn(2) == 0,
				}
				for i := 0; i < 5; i++ {
					var bt BoxType
					if i < 3 {
						bt = ts[i]
					} else {
						n := ctx.QuickTimeKeysMetaEntryCount + 500000*(v.r.Intn(2)) // one past, or far past
						if i == 4 && n > 300000 {
							n = 300000 + v.r.Intn(1000)
						}
						bt = Uint32ToBoxType(uint32(n + v.r.Intn(3) - 1))
						if len(regs[bt]) != 0 {
							continue
						}
						if bt == (BoxType{}) {
							continue
						}
					}
					vRegCheck(v, bt, ctx, regs[bt], names, sizes)
				}
			}
		}
		for n := 0; n < 1+v.r.Intn(6); n++ {
			bt := ts[v.r.Intn(3)]
			e := vRegEntry{kind: 1 + v.r.Intn(4)}
			c := conds[0]
			if v.r.Intn(3) > 0 {
				c = conds[v.r.Intn(len(conds))]
			}
			e.cond, e.name = c.f, c.name
			for m := v.r.Intn(3); m > 0; m-- {
				e.vers = append(e.vers, []uint8{0, 1, 2, 7, 254}[v.r.Intn(5)])
			}
			vRegType[2], vRegType[3] = bt, bt
			v.guard("register", "register", func() {
				if e.kind == 1 || e.kind == 4 {
					var p IAnyType = &vReg1{}
					if e.kind == 4 {
						p = &vReg4{}
					}
					other := v.r.Intn(2) == 0
					if other {
						p.SetType(bt)
						if e.cond == nil {
							AddBoxDef(p, e.vers...)
						} else {
							AddBoxDefEx(p, e.cond, e.vers...)
						}
					} else if e.cond == nil {
						AddAnyTypeBoxDef(p, bt, e.vers...)
					} else {
						AddAnyTypeBoxDefEx(p, bt, e.cond, e.vers...)
					}
				} else {
					var p IBox = &vReg2{}
					if e.kind == 3 {
						p = &vReg3{}
					}
					if e.cond == nil {
						AddBoxDef(p, e.vers...)
					} else {
						AddBoxDefEx(p, e.cond, e.vers...)
					}
				}
			})
			regs[bt] = append(regs[bt], e)
			check()
		}
	}
}

func vRegCheck(v *vctx, bt BoxType, ctx Context, l []vRegEntry, names []string, sizes []int) {
	hist := []string{}
	for _, e := range l {
		hist = append(hist, fmt.Sprintf("%s/%s%v", names[e.kind], e.name, e.vers))
	}
	desc := fmt.Sprintf("type=%x registrations=[%s] ctx=%+v", [4]byte(bt), strings.Join(hist, " "), ctx)
	v.eval("%s", desc)
	var want *vRegEntry
	for i := range l {
		if l[i].cond == nil || l[i].cond(ctx) {
			want = &l[i]
		}
	}
	num := uint32(bt[0])<<24 | uint32(bt[1])<<16 | uint32(bt[2])<<8 | uint32(bt[3])
	item := want == nil && ctx.UnderIlst && num >= 1 && int64(num) <= int64(ctx.QuickTimeKeysMetaEntryCount)
	v.guard("lookup", desc, func() {
		sup := want != nil || item
		if got := bt.IsSupported(ctx); got != sup {
			v.fail("IsSupported", "%s: got %v", desc, got)
			return
		}
		var wvers []uint8
		if want != nil {
			wvers = want.vers
		}
		vers, err := bt.GetSupportedVersions(ctx)
		if (err == nil) != sup {
			v.fail("GetSupportedVersions", "%s: error %v", desc, err)
		} else if len(vers) != len(wvers) {
			v.fail("GetSupportedVersions", "%s: got %v want %v", desc, vers, wvers)
		} else {
			for i := range vers {
				if vers[i] != wvers[i] {
					v.fail("GetSupportedVersions", "%s: got %v want %v", desc, vers, wvers)
				}
			}
		}
		okver := func(ver uint8) bool {
			if !sup {
				return false
			}
			if len(wvers) == 0 {
				return true
			}
			for _, w := range wvers {
				if w == ver {
					return true
				}
			}
			return false
		}
		for _, ver := range []uint8{0, 1, 2, 3, 7, 254, 255} {
			if got := bt.IsSupportedVersion(ver, ctx); got != okver(ver) {
				v.fail("IsSupportedVersion", "%s version %d: got %v", desc, ver, got)
			}
		}
		box, err := bt.New(ctx)
		if !sup {
			if err != ErrBoxInfoNotFound || box != nil {
				v.fail("New", "%s: unsupported, got %v %v", desc, box, err)
			}
			_, _, err := UnmarshalAny(bytes.NewReader(make([]byte, 64)), bt, 64, ctx)
			if err != ErrBoxInfoNotFound {
				v.fail("UnmarshalAny", "%s: unsupported, got %v", desc, err)
			}
			return
		}
		if err != nil {
			v.fail("New", "%s: %v", desc, err)
			return
		}
		var wt interface{} = &Item{}
		if want != nil {
			wt = []interface{}{nil, &vReg1{}, &vReg2{}, &vReg3{}, &vReg4{}}[want.kind]
		}
		if reflect.TypeOf(box) != reflect.TypeOf(wt) {
			v.fail("New", "%s: created a %T, want %T", desc, box, wt)
			return
		}
		_, fixed2 := box.(*vReg2)
		_, fixed3 := box.(*vReg3)
		if fixed2 || fixed3 {
			vRegType[2], vRegType[3] = bt, bt
		}
		if box.GetType() != bt {
			v.fail("New", "%s: the created box reports type %x", desc, [4]byte(box.GetType()))
		}
		if want == nil {
			_, n, err := UnmarshalAny(bytes.NewReader(make([]byte, 32)), bt, 32, ctx)
			if err != nil || n != 32 {
				v.fail("UnmarshalAny", "%s: numbered item: %d %v", desc, n, err)
			}
			return
		}
		pay := make([]byte, sizes[want.kind])
		for i := range pay {
			pay[i] = byte(v.r.Intn(256))
		}
		pver := uint8(0)
		if want.kind != 4 {
			pay[0] = []byte{0, 1, 2, 7, 254, 5}[v.r.Intn(6)]
			pver = pay[0]
		}
		got, n, err := UnmarshalAny(bytes.NewReader(append(append([]byte{}, pay...), 9, 9, 9)), bt, uint64(len(pay)), ctx)
		if (want.kind == 2 || want.kind == 3) && !okver(pver) {
			if !errors.Is(err, ErrUnsupportedBoxVersion) {
				v.fail("UnmarshalAny", "%s payload %x: version %d is not listed, got error %v", desc, pay, pver, err)
			}
			return
		}
		if err != nil || n != uint64(len(pay)) || reflect.TypeOf(got) != reflect.TypeOf(wt) || got.GetType() != bt {
			v.fail("UnmarshalAny", "%s payload %x: %T %d %v", desc, pay, got, n, err)
			return
		}
		var out bytes.Buffer
		m, err := Marshal(&out, got, ctx)
		if err != nil || m != uint64(len(pay)) || !bytes.Equal(out.Bytes(), pay) {
			v.fail("Marshal", "%s payload %x: wrote %x (%d) %v", desc, pay, out.Bytes(), m, err)
		}
		s, err := Stringify(got, ctx)
		if err != nil || !strings.Contains(s, names[want.kind]+"=") {
			v.fail("Stringify", "%s: %q %v", desc, s, err)
		}
	})
}
