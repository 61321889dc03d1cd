package mp4

import (
	"math"
	"reflect"
	"testing"
)

func TestVerifC18Flags(t *testing.T) {
	v := newV(t)
	defer v.done()
	get := func(b *FullBox) uint32 { return uint32(b.Flags[0])<<16 | uint32(b.Flags[1])<<8 | uint32(b.Flags[2]) }
	for i := 0; i < v.rounds(4000); i++ {
		b := &FullBox{Version: uint8(v.u64()), Flags: [3]byte{byte(v.u64()), byte(v.u64()), byte(v.u64())}}
		b0 := *b
		f := uint32(v.u64())
		v.eval("box=%v flag=%x", b0, f)
		if b.GetFlags() != get(b) || b.GetVersion() != b0.Version || *b != b0 {
			v.fail("GetFlags", "box=%v got %x", b0, b.GetFlags())
		}
		if b.CheckFlag(f) != (get(b)&f != 0) {
			v.fail("CheckFlag", "box=%v flag=%x got %v", b0, f, b.CheckFlag(f))
		}
		b.AddFlag(f)
		if get(b) != get(&b0)|f&0xffffff || b.Version != b0.Version {
			v.fail("AddFlag", "box=%v flag=%x got %v", b0, f, *b)
		}
		*b = b0
		b.RemoveFlag(f)
		if get(b) != get(&b0)&^f || b.Version != b0.Version {
			v.fail("RemoveFlag", "box=%v flag=%x got %v", b0, f, *b)
		}
		*b = b0
		b.SetFlags(f)
		if get(b) != f&0xffffff || b.Version != b0.Version {
			v.fail("SetFlags", "box=%v flag=%x got %v", b0, f, *b)
		}
		*b = b0
		b.SetVersion(uint8(f))
		if b.Version != uint8(f) || b.Flags != b0.Flags {
			v.fail("SetVersion", "box=%v version=%x got %v", b0, uint8(f), *b)
		}
		p := &Box{}
		if p.GetVersion() != 0 || p.GetFlags() != 0 || !p.CheckFlag(f) {
			v.fail("Box", "plain box reports version %d flags %x", p.GetVersion(), p.GetFlags())
		}
	}
}

type c18acc struct {
	box    IBox
	meth   string
	f0, f1 string // field by version; list.field for indexed ones
	list   string
	list1  string
}

func TestVerifC18Accessors(t *testing.T) {
	v := newV(t)
	defer v.done()
	var accs []c18acc
	two := func(b IBox, ns ...string) {
		for _, n := range ns {
			accs = append(accs, c18acc{b, "Get" + n, n + "V0", n + "V1", "", ""})
		}
	}
	two(&Cslg{}, "CompositionToDTSShift", "LeastDecodeToDisplayDelta", "GreatestDecodeToDisplayDelta", "CompositionStartTime", "CompositionEndTime")
	for _, b := range []IBox{&Mdhd{}, &Mvhd{}, &Tkhd{}} {
		two(b, "CreationTime", "ModificationTime", "Duration")
	}
	two(&Mehd{}, "FragmentDuration")
	two(&Sidx{}, "EarliestPresentationTime", "FirstOffset")
	two(&Tfdt{}, "BaseMediaDecodeTime")
	accs = append(accs,
		c18acc{&Ctts{}, "GetSampleOffset", "SampleOffsetV0", "SampleOffsetV1", "Entries", "Entries"},
		c18acc{&Elst{}, "GetSegmentDuration", "SegmentDurationV0", "SegmentDurationV1", "Entries", "Entries"},
		c18acc{&Elst{}, "GetMediaTime", "MediaTimeV0", "MediaTimeV1", "Entries", "Entries"},
		c18acc{&Saio{}, "GetOffset", "", "", "OffsetV0", "OffsetV1"},
		c18acc{&Tfra{}, "GetTime", "TimeV0", "TimeV1", "Entries", "Entries"},
		c18acc{&Tfra{}, "GetMoofOffset", "MoofOffsetV0", "MoofOffsetV1", "Entries", "Entries"},
		c18acc{&Trun{}, "GetSampleCompositionTimeOffset", "SampleCompositionTimeOffsetV0", "SampleCompositionTimeOffsetV1", "Entries", "Entries"})
	num := func(x reflect.Value) (hi bool, u uint64) {
		if x.Kind() >= reflect.Int && x.Kind() <= reflect.Int64 {
			return x.Int() < 0, uint64(x.Int())
		}
		return false, x.Uint()
	}
	for _, a := range accs {
		for i := 0; i < v.rounds(150); i++ {
			b := reflect.New(reflect.TypeOf(a.box).Elem())
			ver := i % 2
			b.Interface().(IBox).SetVersion(uint8(ver))
			b.Interface().(IBox).SetFlags(uint32(v.u64()))
			n := 1 + v.r.Intn(6)
			v.fillNum(b.Elem(), n)
			b.Interface().(IBox).SetVersion(uint8(ver))
			var want reflect.Value
			var args []reflect.Value
			idx := v.r.Intn(n)
			fld, lst := a.f0, a.list
			if ver == 1 {
				fld, lst = a.f1, a.list1
			}
			if lst != "" {
				args = append(args, reflect.ValueOf(idx))
				want = b.Elem().FieldByName(lst).Index(idx)
				if fld != "" {
					want = want.FieldByName(fld)
				}
			} else {
				want = b.Elem().FieldByName(fld)
			}
			var got reflect.Value
			v.guard(a.meth, b.Type().String(), func() { got = b.MethodByName(a.meth).Call(args)[0] })
			if !got.IsValid() {
				continue
			}
			v.eval("%T.%s(%d) version %d = %v", a.box, a.meth, idx, ver, want.Interface())
			wn, wu := num(want)
			gn, gu := num(got)
			if wn != gn || wu != gu {
				v.fail("accessor", "%T.%s(%d) version %d is %v, the field is %v (index %d of %d)", a.box, a.meth, idx, ver, got.Interface(), want.Interface(), idx, n)
			}
		}
	}
}

// fillNum sets every integer field at random; slices get n elements.
func (v *vctx) fillNum(x reflect.Value, n int) {
	switch x.Kind() {
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if x.Field(i).CanSet() {
				v.fillNum(x.Field(i), n)
			}
		}
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			v.fillNum(x.Index(i), n)
		}
	case reflect.Slice:
		x.Set(reflect.MakeSlice(x.Type(), n, n))
		for i := 0; i < n; i++ {
			v.fillNum(x.Index(i), n)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x.SetInt(int64(v.u64()) << uint(64-x.Type().Bits()) >> uint(64-x.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(v.u64() << uint(64-x.Type().Bits()) >> uint(64-x.Type().Bits()))
	case reflect.Bool:
		x.SetBool(v.r.Intn(2) == 0)
	}
}

func TestVerifC18Fixed(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(3000); i++ {
		u := uint32(v.u64())
		v.eval("fixed %x", u)
		ck := func(n string, got, want interface{}) {
			if !reflect.DeepEqual(got, want) {
				v.fail("fixed", "%s of raw %#x is %v, want %v", n, u, got, want)
			}
		}
		m := &Mvhd{Rate: int32(u)}
		ck("Mvhd.GetRate", m.GetRate(), float64(int32(u))/65536)
		ck("Mvhd.GetRateInt", m.GetRateInt(), int16(math.Floor(float64(int32(u))/65536)))
		a := &AudioSampleEntry{SampleRate: u}
		ck("AudioSampleEntry.GetSampleRate", a.GetSampleRate(), float64(u)/65536)
		ck("AudioSampleEntry.GetSampleRateInt", a.GetSampleRateInt(), uint16(math.Floor(float64(u)/65536)))
		k := &Tkhd{Width: u, Height: ^u}
		ck("Tkhd.GetWidth", k.GetWidth(), float64(u)/65536)
		ck("Tkhd.GetWidthInt", k.GetWidthInt(), uint16(math.Floor(float64(u)/65536)))
		ck("Tkhd.GetHeight", k.GetHeight(), float64(^u)/65536)
		ck("Tkhd.GetHeightInt", k.GetHeightInt(), uint16(math.Floor(float64(^u)/65536)))
		s := &Smhd{Balance: int16(u)}
		ck("Smhd.GetBalance", s.GetBalance(), float32(int16(u))/256)
		ck("Smhd.GetBalanceInt", s.GetBalanceInt(), int8(math.Floor(float64(int16(u))/256)))
	}
}
