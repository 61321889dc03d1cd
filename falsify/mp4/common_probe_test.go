package mp4

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// ---- movies and fragments for Probe, laid out by hand ----

func vU16(x uint16) []byte { return []byte{byte(x >> 8), byte(x)} }
func vU32(x uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, x); return b }
func vU64(x uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, x); return b }

func vCat(parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func vBox(typ string, parts ...[]byte) []byte {
	b := vCat(parts...)
	return vCat(vU32(uint32(8+len(b))), []byte(typ), b)
}

func vFull(ver byte, flags uint32) []byte { return vU32(uint32(ver)<<24 | flags) }

// vTrak describes a track; nil tables are left out.
type vTrak struct {
	id         uint32
	tkver      byte
	scale      uint32
	dur        uint64
	mdver      byte
	elver      byte
	elst       [][2]int64 // media time, duration
	stco       []uint32
	co64       []uint64
	stts, ctts [][2]uint32
	ctver      byte
	stsc       [][2]uint32
	stsz       []uint32
	stszFixed  uint32
	codec      string
	avcc       []byte // level, profile, compat, lengthSizeMinusOne
	w, h       uint16
	chans      uint16
	oti        int // -1: no decoder configuration
	asc        []byte
	noasc      bool
	noesds     bool
	wave       bool
	skip       map[string]bool
	twice      bool // descriptors follow that come second
}

func vDescr(tag byte, b []byte) []byte {
	n := len(b)
	return vCat([]byte{tag, 0x80 | byte(n>>21), 0x80 | byte(n>>14)&0x7f, 0x80 | byte(n>>7)&0x7f, byte(n) & 0x7f}, b)
}

func (k *vTrak) esds() []byte {
	d := vDescr(3, []byte{0, 1, 0})
	if k.oti >= 0 {
		d = vCat(d, vDescr(4, vCat([]byte{byte(k.oti), 0x15, 0, 0, 0}, vU32(1), vU32(2))))
	}
	if !k.noasc {
		d = vCat(d, vDescr(5, k.asc))
	}
	d = vCat(d, vDescr(6, []byte{2}))
	if k.twice {
		d = vCat(d, vDescr(4, vCat([]byte{byte(k.oti + 1), 0x15, 0, 0, 0}, vU32(1), vU32(2))), vDescr(5, []byte{0x08, 0}))
	}
	return vBox("esds", vFull(0, 0), d)
}

func vPairs(ps [][2]uint32) []byte {
	b := vU32(uint32(len(ps)))
	for _, p := range ps {
		b = vCat(b, vU32(p[0]), vU32(p[1]))
	}
	return b
}

func (v *vctx) mix(parts [][]byte) []byte {
	v.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	if v.r.Intn(3) == 0 {
		parts = append(parts, vBox("free", make([]byte, v.r.Intn(5))))
	}
	return vCat(parts...)
}

func (v *vctx) trak(k *vTrak) []byte {
	var tkhd, mdhd []byte
	if k.tkver == 0 {
		tkhd = vBox("tkhd", vFull(0, 7), vU32(1), vU32(2), vU32(k.id), vU32(0), vU32(77), make([]byte, 60))
	} else {
		tkhd = vBox("tkhd", vFull(1, 7), vU64(1), vU64(2), vU32(k.id), vU32(0), vU64(77), make([]byte, 60))
	}
	if k.mdver == 0 {
		mdhd = vBox("mdhd", vFull(0, 0), vU32(3), vU32(4), vU32(k.scale), vU32(uint32(k.dur)), vU32(0x55c40000))
	} else {
		mdhd = vBox("mdhd", vFull(1, 0), vU64(3), vU64(4), vU32(k.scale), vU64(k.dur), vU32(0x55c40000))
	}
	var entry []byte
	switch k.codec {
	case "avc1", "encv":
		var c []byte
		if k.avcc != nil {
			c = vBox("avcC", []byte{1, k.avcc[1], k.avcc[2], k.avcc[0], 0xfc | k.avcc[3], 0xe0, 0})
			if p := k.avcc[1]; p == 100 || p == 110 || p == 122 || p == 144 {
				c = vBox("avcC", []byte{1, k.avcc[1], k.avcc[2], k.avcc[0], 0xfc | k.avcc[3], 0xe0, 0, 0xfd, 0xf8, 0xf8, 0})
			}
		}
		entry = vBox(k.codec, make([]byte, 6), vU16(1), make([]byte, 16), vU16(k.w), vU16(k.h), vU32(0x480000), vU32(0x480000), vU32(0), vU16(1), make([]byte, 32), vU16(0x18), vU16(0xffff), c)
	case "mp4a", "enca":
		var c []byte
		if !k.noesds {
			c = k.esds()
			if k.wave && k.codec == "mp4a" {
				c = vBox("wave", vBox("frma", []byte("mp4a")), c)
			}
		}
		entry = vBox(k.codec, make([]byte, 6), vU16(1), make([]byte, 8), vU16(k.chans), vU16(16), vU32(0), vU32(44100<<16), c)
	}
	n := uint32(0)
	if entry != nil {
		n = 1
	}
	stbl := [][]byte{vBox("stsd", vFull(0, 0), vU32(n), entry)}
	if k.stco != nil {
		b := vU32(uint32(len(k.stco)))
		for _, o := range k.stco {
			b = vCat(b, vU32(o))
		}
		stbl = append(stbl, vBox("stco", vFull(0, 0), b))
	}
	if k.co64 != nil {
		b := vU32(uint32(len(k.co64)))
		for _, o := range k.co64 {
			b = vCat(b, vU64(o))
		}
		stbl = append(stbl, vBox("co64", vFull(0, 0), b))
	}
	if !k.skip["stts"] {
		stbl = append(stbl, vBox("stts", vFull(0, 0), vPairs(k.stts)))
	}
	if k.ctts != nil {
		stbl = append(stbl, vBox("ctts", vFull(k.ctver, 0), vPairs(k.ctts)))
	}
	if !k.skip["stsc"] {
		b := vU32(uint32(len(k.stsc)))
		for _, o := range k.stsc {
			b = vCat(b, vU32(o[0]), vU32(o[1]), vU32(1))
		}
		stbl = append(stbl, vBox("stsc", vFull(0, 0), b))
	}
	if k.stsz != nil {
		b := vCat(vU32(k.stszFixed), vU32(uint32(len(k.stsz))))
		if k.stszFixed == 0 {
			for _, o := range k.stsz {
				b = vCat(b, vU32(o))
			}
		}
		stbl = append(stbl, vBox("stsz", vFull(0, 0), b))
	}
	mdia := [][]byte{vBox("minf", vBox("dinf"), vBox("stbl", v.mix(stbl)))}
	if !k.skip["mdhd"] {
		mdia = append(mdia, mdhd)
	}
	parts := [][]byte{vBox("mdia", v.mix(mdia))}
	if !k.skip["tkhd"] {
		parts = append(parts, tkhd)
	}
	if k.elst != nil {
		b := vU32(uint32(len(k.elst)))
		for _, e := range k.elst {
			if k.elver == 0 {
				b = vCat(b, vU32(uint32(e[1])), vU32(uint32(e[0])), vU32(0x10000))
			} else {
				b = vCat(b, vU64(uint64(e[1])), vU64(uint64(e[0])), vU32(0x10000))
			}
		}
		parts = append(parts, vBox("edts", vBox("elst", vFull(k.elver, 0), b)))
	}
	return vBox("trak", v.mix(parts))
}

func (k *vTrak) String() string {
	var sk []string
	for s := range k.skip {
		sk = append(sk, s)
	}
	return fmt.Sprintf("id=%d v%d scale=%d dur=%d v%d elst=%v v%d stco=%v co64=%v stts=%v ctts=%v v%d stsc=%v stsz=%v fixed=%d codec=%s avcc=%v %dx%d ch=%d oti=%d asc=%x noasc=%v noesds=%v wave=%v skip=%s",
		k.id, k.tkver, k.scale, k.dur, k.mdver, k.elst, k.elver, k.stco, k.co64, k.stts, k.ctts, k.ctver, k.stsc, k.stsz, k.stszFixed, k.codec, k.avcc, k.w, k.h, k.chans, k.oti, k.asc, k.noasc, k.noesds, k.wave, strings.Join(sk, ","))
}

// pick chooses among boundary and random 32-bit values.
func (v *vctx) pick(n int) uint32 {
	switch v.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint32(v.u64())
	case 2:
		return []uint32{0x7fffffff, 0x80000000, 0xffffffff, 1}[v.r.Intn(4)]
	}
	return uint32(v.r.Intn(n))
}

// genTrak makes a track whose tables need not fit together.
func (v *vctx) genTrak() *vTrak {
	k := &vTrak{id: v.pick(9), tkver: byte(v.r.Intn(2)), scale: v.pick(90000), mdver: byte(v.r.Intn(2)), elver: byte(v.r.Intn(2)), ctver: byte(v.r.Intn(2)), w: uint16(v.u64()), h: uint16(v.u64()), chans: uint16(v.u64()), oti: 0x40, skip: map[string]bool{}}
	k.dur = v.u64()
	if k.mdver == 0 {
		k.dur = uint64(uint32(k.dur))
	}
	if v.r.Intn(2) == 0 {
		k.elst = [][2]int64{}
		for n := v.r.Intn(4); n > 0; n-- {
			e := [2]int64{int64(v.u64()), int64(v.u64())}
			if k.elver == 0 {
				e = [2]int64{int64(int32(v.pick(1000))), int64(v.pick(1000))}
			}
			if v.r.Intn(3) == 0 {
				e[0] = -1
			}
			k.elst = append(k.elst, e)
		}
	}
	nc := v.r.Intn(7)
	which := v.r.Intn(5)
	if which <= 2 {
		k.stco = []uint32{}
		for i := 0; i < nc; i++ {
			k.stco = append(k.stco, v.pick(1000))
		}
	}
	if which >= 2 && which < 4 || which == 4 && v.r.Intn(2) == 0 {
		k.co64 = []uint64{}
		for i := 0; i < nc; i++ {
			k.co64 = append(k.co64, v.u64())
		}
	}
	ns := 0
	for n := v.r.Intn(5); n > 0; n-- {
		c := v.r.Intn(4)
		ns += c
		k.stts = append(k.stts, [2]uint32{uint32(c), v.pick(1000)})
	}
	if v.r.Intn(2) == 0 {
		k.ctts = [][2]uint32{}
		for n := v.r.Intn(6); n > 0; n-- {
			c := uint32(v.r.Intn(4))
			if v.r.Intn(8) == 0 {
				c = v.pick(10)
			}
			k.ctts = append(k.ctts, [2]uint32{c, v.pick(1000)})
		}
	}
	next := uint32(1)
	for n := v.r.Intn(4); n > 0; n-- {
		fc := next
		switch v.r.Intn(8) {
		case 0:
			fc = v.pick(10)
		case 1:
			fc = uint32(nc + v.r.Intn(3))
		}
		next = fc + 1 + uint32(v.r.Intn(2))
		k.stsc = append(k.stsc, [2]uint32{fc, v.pick(5)})
	}
	if v.r.Intn(4) > 0 {
		k.stsz = []uint32{}
		n := ns
		if v.r.Intn(3) == 0 {
			n = v.r.Intn(9)
		}
		for i := 0; i < n; i++ {
			k.stsz = append(k.stsz, v.pick(1000))
		}
	}
	k.codec = []string{"", "avc1", "encv", "mp4a", "enca"}[v.r.Intn(5)]
	if v.r.Intn(5) > 0 {
		k.avcc = v.bytes(4)
		k.avcc[3] &= 3
	}
	k.asc = []byte{0x10, 0}
	k.noesds = v.r.Intn(5) == 0
	k.wave = v.r.Intn(2) == 0
	if v.r.Intn(6) == 0 {
		k.skip[[]string{"tkhd", "mdhd", "stts", "stsc"}[v.r.Intn(4)]] = true
	}
	return k
}

func (k *vTrak) complete() bool { return len(k.skip) == 0 && (k.stco != nil || k.co64 != nil) }

func vMvhd(ver byte, scale uint32, dur uint64) []byte {
	if ver == 0 {
		return vBox("mvhd", vFull(0, 0), vU32(1), vU32(2), vU32(scale), vU32(uint32(dur)), make([]byte, 80))
	}
	return vBox("mvhd", vFull(1, 0), vU64(1), vU64(2), vU32(scale), vU64(dur), make([]byte, 80))
}
