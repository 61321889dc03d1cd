package mp4

import (
	"fmt"
	"testing"
)

type c17bits struct {
	b []byte
	p int
}

func (r *c17bits) left() int { return len(r.b)*8 - r.p }

func (r *c17bits) get(n int) (x int) {
	for ; n > 0; n-- {
		x <<= 1
		if r.p < len(r.b)*8 {
			x |= int(r.b[r.p/8]>>(7-r.p%8)) & 1
		}
		r.p++
	}
	return
}

func (r *c17bits) typ() int {
	t := r.get(5)
	if t == 31 {
		t = 32 + r.get(6)
	}
	return t
}

func (r *c17bits) freq() {
	if r.get(4) == 15 {
		r.get(24)
	}
}

// c17want: the profile, and whether every field announced is there.
func c17want(d []byte) (int, bool) {
	r := &c17bits{b: d}
	t := r.typ()
	r.freq()
	if r.left() < 0 {
		return t, false
	}
	if t != 2 || r.left() < 20 {
		return t, true
	}
	r.get(4)
	if r.get(11) != 0x2b7 {
		return t, true
	}
	x := r.typ()
	if r.left() < 0 {
		return t, false
	}
	if x != 5 && x != 22 {
		return t, true
	}
	sbr := r.get(1)
	if r.left() < 0 {
		return t, false
	}
	if sbr == 0 {
		return t, true
	}
	if x == 22 {
		return 5, true
	}
	r.freq()
	if r.left() < 0 {
		return t, false
	}
	if r.left() >= 12 && r.get(11) == 0x548 && r.get(1) == 1 {
		return 29, true
	}
	return 5, true
}

type c17w struct {
	b []byte
	n int
}

func (w *c17w) put(x, n int) {
	for n--; n >= 0; n-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(x>>uint(n)&1) << (7 - w.n%8)
		w.n++
	}
}

func (v *vctx) c17typ(w *c17w, t int) {
	if t >= 32 {
		w.put(31, 5)
		w.put(t-32, 6)
	} else {
		w.put(t, 5)
	}
}

func (v *vctx) c17freq(w *c17w) {
	if v.r.Intn(3) == 0 {
		w.put(15, 4)
		w.put(v.r.Intn(1<<24), 24)
	} else {
		w.put(v.r.Intn(15), 4)
	}
}

func (v *vctx) c17cfg() []byte {
	if v.r.Intn(10) == 0 {
		return v.bytes(v.r.Intn(10))
	}
	w := &c17w{}
	t := []int{2, 2, 2, 2, 5, 29, 1, 31, 32, 34, 37, 42, 63, 94, 30, 22}[v.r.Intn(16)]
	v.c17typ(w, t)
	v.c17freq(w)
	if v.r.Intn(5) > 0 {
		w.put(v.r.Intn(16), 4)
		switch v.r.Intn(6) {
		case 0:
			w.put([]int{0x2b7 ^ 1<<uint(v.r.Intn(11)), v.r.Intn(8)<<8 | 0xb7, 0x548}[v.r.Intn(3)], 11)
		default:
			w.put(0x2b7, 11)
		}
		v.c17typ(w, []int{5, 5, 5, 22, 2, 37, 54, 32 + 5, 21}[v.r.Intn(9)])
		w.put(v.r.Intn(4)/3^1, 1)
		v.c17freq(w)
		if v.r.Intn(3) > 0 {
			w.put([]int{0x548, 0x548, 0x548, 0x548 ^ 1<<uint(v.r.Intn(11)), v.r.Intn(8)<<8 | 0x48, 0x2b7}[v.r.Intn(6)], 11)
			w.put(v.r.Intn(2), 1)
		}
	}
	for v.r.Intn(4) == 0 {
		w.put(v.r.Intn(256), 8)
	}
	if v.r.Intn(5) == 0 && len(w.b) > 0 {
		w.b = w.b[:v.r.Intn(len(w.b))]
	}
	return w.b
}

func TestVerifC17(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(12000) && !v.late(); i++ {
		k := v.genTrak()
		k.codec, k.noesds, k.skip = []string{"mp4a", "enca"}[v.r.Intn(2)], false, map[string]bool{}
		if k.stco == nil && k.co64 == nil {
			k.stco = []uint32{}
		}
		k.stts, k.stsc, k.elst, k.stsz, k.ctts = nil, nil, nil, nil, nil
		k.asc = v.c17cfg()
		k.noasc = v.r.Intn(12) == 0
		k.twice = v.r.Intn(8) == 0
		switch v.r.Intn(10) {
		case 0:
			k.oti = -1
		case 1:
			k.oti = []int{0x6b, 0x69, 0xff, 0, 0xa5, 0x41}[v.r.Intn(6)]
		}
		if k.twice && (k.oti < 0 || k.noasc) {
			k.twice = false
		}
		want, all := 0, true
		oti := 0
		if k.oti >= 0 {
			oti = k.oti
		}
		fails := false
		if k.oti == 0x40 {
			if k.noasc {
				fails = true
			} else {
				want, all = c17want(k.asc)
			}
		}
		data := vBox("moov", vMvhd(0, 1, 1), v.trak(k))
		desc := fmt.Sprintf("oti=%d asc=%x noasc=%v twice=%v codec=%s wave=%v", k.oti, k.asc, k.noasc, k.twice, k.codec, k.wave)
		v.eval("%s", desc)
		v.guard("Probe", desc, func() {
			p, err := Probe(&vFile{data: data})
			if fails && err == nil {
				v.fail("no-error", "%s: no error without decoder specific info", desc)
			}
			if err != nil {
				if !fails && all {
					v.fail("error", "%s: error %v want %d", desc, err, want)
				}
				return
			}
			m := p.Tracks[0].MP4A
			if m == nil {
				v.fail("missing", "%s: no MP4A", desc)
				return
			}
			if !all { // cut off: an error or the base type
				want, _ = c17want(k.asc)
			}
			if int(m.OTI) != oti || int(m.AudOTI) != want || m.ChannelCount != k.chans {
				v.fail("profile", "%s: got %d/%d want %d/%d", desc, m.OTI, m.AudOTI, oti, want)
			}
		})
	}
}

// streams laid out by ISO/IEC 14496-3: three bits of GASpecificConfig lie before the sync extension
func TestVerifC17Iso(t *testing.T) {
	v := newV(t)
	defer v.done()
	for _, c := range []struct {
		asc  []byte
		want uint8
	}{{[]byte{0x12, 0x10, 0x56, 0xe5, 0x80}, 5}} {
		k := v.genTrak()
		k.codec, k.noesds, k.wave, k.skip, k.stco, k.stts, k.asc = "mp4a", false, false, map[string]bool{}, []uint32{}, nil, c.asc
		data := vBox("moov", vMvhd(0, 1, 1), v.trak(k))
		v.eval("%x", c.asc)
		v.guard("Probe", "iso", func() {
			p, err := Probe(&vFile{data: data})
			if err != nil || p.Tracks[0].MP4A == nil {
				v.fail("iso-error", "asc %x: error %v", c.asc, err)
				return
			}
			switch got := p.Tracks[0].MP4A.AudOTI; got {
			case c.want:
			case 2:
				v.fail("iso-ga-specific", "asc %x: reported type %d, the stream signals %d", c.asc, got, c.want)
			default:
				v.fail("iso-other", "asc %x: reported type %d, the stream signals %d", c.asc, got, c.want)
			}
		})
	}
}
