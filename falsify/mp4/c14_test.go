package mp4

import (
	"fmt"
	"testing"
)

type c14frag struct {
	id, defDur, defSize uint32
	tfFlags             uint32
	tfdt                int // -1: none
	base                uint64
	trun                bool
	ver                 byte
	flags               uint32
	n                   uint32
	rows                [][4]uint32
	extra               bool // another traf before
	none                bool // no track header
}

func (v *vctx) c14gen() *c14frag {
	f := &c14frag{id: v.pick(4), defDur: v.pick(1000), defSize: v.pick(1000), tfdt: v.r.Intn(3) - 1, base: v.u64(), trun: v.r.Intn(6) > 0, ver: byte(v.r.Intn(2)), none: v.r.Intn(12) == 0, extra: v.r.Intn(5) == 0}
	if f.tfdt == 0 {
		f.base = uint64(uint32(f.base))
	}
	for _, b := range []uint32{1, 2, 8, 0x10, 0x20, 0x10000, 0x20000} {
		if v.r.Intn(2) == 0 {
			f.tfFlags |= b
		}
	}
	if f.tfFlags&8 == 0 {
		f.defDur = 0
	}
	if f.tfFlags&0x10 == 0 {
		f.defSize = 0
	}
	for _, b := range []uint32{1, 4, 0x100, 0x200, 0x400, 0x800} {
		if v.r.Intn(2) == 0 {
			f.flags |= b
		}
	}
	f.n = uint32(v.r.Intn(6))
	big := v.r.Intn(3) == 0
	for i := uint32(0); i < f.n; i++ {
		var r [4]uint32
		for j := range r {
			r[j] = uint32(v.r.Intn(3000))
			if big {
				r[j] = v.pick(3000)
			}
		}
		if f.ver == 1 && v.r.Intn(2) == 0 {
			r[3] = -r[3]
		}
		f.rows = append(f.rows, r)
	}
	return f
}

func (f *c14frag) traf(v *vctx) []byte {
	var tfhd, trun []byte
	tfhd = vCat(vFull(0, f.tfFlags), vU32(f.id))
	for _, o := range []struct {
		b uint32
		d []byte
	}{{1, vU64(99)}, {2, vU32(1)}, {8, vU32(f.defDur)}, {0x10, vU32(f.defSize)}, {0x20, vU32(0x1010000)}} {
		if f.tfFlags&o.b != 0 {
			tfhd = vCat(tfhd, o.d)
		}
	}
	parts := [][]byte{}
	if !f.none {
		parts = append(parts, vBox("tfhd", tfhd))
	}
	if f.tfdt == 0 {
		parts = append(parts, vBox("tfdt", vFull(0, 0), vU32(uint32(f.base))))
	} else if f.tfdt == 1 {
		parts = append(parts, vBox("tfdt", vFull(1, 0), vU64(f.base)))
	}
	if f.trun {
		trun = vCat(vFull(f.ver, f.flags), vU32(f.n))
		if f.flags&1 != 0 {
			trun = vCat(trun, vU32(8))
		}
		if f.flags&4 != 0 {
			trun = vCat(trun, vU32(0x2000000))
		}
		for _, r := range f.rows {
			for j, b := range []uint32{0x100, 0x200, 0x400, 0x800} {
				if f.flags&b != 0 {
					trun = vCat(trun, vU32(r[j]))
				}
			}
		}
		parts = append(parts, vBox("trun", trun))
	}
	return vBox("traf", v.mix(parts))
}

func (f *c14frag) want(off uint64) Segment {
	s := Segment{TrackID: f.id, MoofOffset: off, DefaultSampleDuration: f.defDur}
	if f.tfdt >= 0 {
		s.BaseMediaDecodeTime = f.base
	}
	if !f.trun {
		return s
	}
	s.SampleCount = f.n
	el := uint32(0)
	for i, r := range f.rows {
		o := int32(0)
		if f.flags&0x800 != 0 {
			o = int32(r[3])
		}
		if o += int32(el); i == 0 || o < s.CompositionTimeOffset {
			s.CompositionTimeOffset = o
		}
		d, z := f.defDur, f.defSize
		if f.flags&0x100 != 0 {
			d = r[0]
		}
		if f.flags&0x200 != 0 {
			z = r[1]
		}
		el += d
		s.Size += z
	}
	s.Duration = el
	return s
}

func TestVerifC14(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(6000) && !v.late(); i++ {
		data := vBox("styp", []byte("msdh\x00\x00\x00\x00"))
		var want []Segment
		bad := false
		desc := ""
		for n := 1 + v.r.Intn(3); n > 0; n-- {
			f := v.c14gen()
			bad = bad || f.none
			want = append(want, f.want(uint64(len(data))))
			desc += fmt.Sprintf("%+v ", *f)
			// one track fragment each: which of several is summarised is not settled
			data = append(data, vBox("moof", vBox("mfhd", vFull(0, 0), vU32(uint32(n))), f.traf(v))...)
			data = append(data, vBox("mdat", v.bytes(v.r.Intn(9)))...)
		}
		v.eval("%s", desc)
		v.guard("Probe", desc, func() {
			p, err := Probe(&vFile{data: data, short: i%3 == 0})
			if (err == nil) != !bad {
				v.fail("Probe-error", "%s: error %v", desc, err)
				return
			}
			if err != nil {
				return
			}
			if len(p.Segments) != len(want) {
				v.fail("Probe-segments", "%s: %d segments want %d", desc, len(p.Segments), len(want))
				return
			}
			for j, w := range want {
				if *p.Segments[j] != w {
					v.fail("Probe-segment", "%s: segment %d is %+v want %+v", desc, j, *p.Segments[j], w)
				}
			}
		})
	}
}
