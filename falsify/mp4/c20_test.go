package mp4

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

func vZText(v *vctx) string {
	s := vText(v.r)
	if v.r.Intn(6) == 0 {
		s = s + vText(v.r) + vText(v.r)
	}
	return s
}

func be(n int, x uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, x)
	return b[8-n:]
}

func cat(l ...[]byte) (r []byte) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

func (v *vctx) c20file(p []byte, tail int) (r *vFile, f *vFile) {
	f = &vFile{data: append(append([]byte{}, p...), v.bytes(tail)...), short: v.r.Intn(2) == 0, dataErr: v.r.Intn(2) == 0}
	return f, f
}

func TestVerifC20Special(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(12000) && !v.late(); i++ {
		tail := v.r.Intn(3)
		switch v.r.Intn(4) {
		case 0: // emsg
			ver := byte(v.r.Intn(2))
			e := &Emsg{FullBox: FullBox{Version: ver}, SchemeIdUri: vZText(v), Value: vZText(v), Timescale: uint32(v.u64()), EventDuration: uint32(v.u64()), Id: uint32(v.u64()), MessageData: v.bytes(v.r.Intn(5))}
			strs := []byte(e.SchemeIdUri + "\x00" + e.Value + "\x00")
			var p []byte
			if ver == 0 {
				e.PresentationTimeDelta = uint32(v.u64())
				p = cat([]byte{0, 0, 0, 0}, strs, be(4, uint64(e.Timescale)), be(4, uint64(e.PresentationTimeDelta)), be(4, uint64(e.EventDuration)), be(4, uint64(e.Id)), e.MessageData)
			} else {
				e.PresentationTime = v.u64()
				p = cat([]byte{1, 0, 0, 0}, be(4, uint64(e.Timescale)), be(8, e.PresentationTime), be(4, uint64(e.EventDuration)), be(4, uint64(e.Id)), strs, e.MessageData)
			}
			desc := fmt.Sprintf("emsg %+v as %x", *e, p)
			v.eval("%s", desc)
			v.guard("emsg", desc, func() {
				var w bytes.Buffer
				n, err := Marshal(&w, e, Context{})
				if err != nil || !bytes.Equal(w.Bytes(), p) || n != uint64(len(p)) {
					v.fail("emsgWrite", "%s: wrote %x (%d, %v)", desc, w.Bytes(), n, err)
				}
				r, f := v.c20file(p, tail)
				d := &Emsg{}
				n, err = Unmarshal(r, uint64(len(p)), d, Context{})
				if err != nil || n != uint64(len(p)) || f.pos != int64(len(p)) || fmt.Sprintf("%+v", *d) != fmt.Sprintf("%+v", *e) {
					v.fail("emsgRead", "%s: read %+v (%d, %v)", desc, *d, n, err)
				}
				// an event whose strings do not end within the box
				cut := v.r.Intn(len(p))
				r, f = v.c20file(p[:cut], 0)
				if n, err := Unmarshal(r, uint64(cut), &Emsg{}, Context{}); err == nil && (n != uint64(cut) || f.pos != int64(n)) {
					v.fail("emsgCut", "%s cut to %d: %d, nil", desc, cut, n)
				}
			})
		case 1: // hdlr
			pre := uint32(0)
			if v.r.Intn(3) > 0 {
				pre = uint32(v.u64())
			}
			n := v.r.Intn(6)
			if v.r.Intn(4) == 0 {
				n = 250 + v.r.Intn(10)
			}
			name := v.bytes(n)
			if n > 0 && v.r.Intn(2) == 0 {
				name[0] = byte(n - 1)
			}
			if n > 0 && v.r.Intn(2) == 0 {
				name[n-1] = 0
			}
			want := name
			if pre != 0 && n >= 2 && int(name[0]) == n-1 {
				want = name[1:]
			} else if k := bytes.IndexByte(name, 0); k >= 0 {
				want = name[:k]
			}
			p := cat([]byte{0, 0, 0, 0}, be(4, uint64(pre)), []byte("vide"), make([]byte, 12), name)
			desc := fmt.Sprintf("hdlr predefined %d name %x", pre, name)
			v.eval("%s", desc)
			v.guard("hdlr", desc, func() {
				r, f := v.c20file(p, tail)
				d := &Hdlr{}
				n, err := Unmarshal(r, uint64(len(p)), d, Context{})
				if err != nil || n != uint64(len(p)) || f.pos != int64(len(p)) || d.Name != string(want) || d.PreDefined != pre || d.HandlerType != [4]byte{'v', 'i', 'd', 'e'} {
					v.fail("hdlr", "%s: %q, %d of %d octets (%v), now at %d, want %q", desc, d.Name, n, len(p), err, f.pos, want)
				}
			})
		case 2: // meta
			p := make([]byte, 4)
			if v.r.Intn(3) > 0 {
				p[v.r.Intn(4)] = byte(v.r.Intn(256))
			}
			zero := bytes.Equal(p, []byte{0, 0, 0, 0})
			p = append(p, v.bytes(4+v.r.Intn(6))...)
			desc := fmt.Sprintf("meta %x", p)
			v.eval("%s", desc)
			v.guard("meta", desc, func() {
				r, f := v.c20file(p, tail)
				d := &Meta{FullBox: FullBox{Version: 9, Flags: [3]byte{1, 2, 3}}}
				n, err := Unmarshal(r, uint64(len(p)), d, Context{})
				want := uint64(0)
				if zero {
					want = 4
				}
				if err != nil || n != want || f.pos != int64(n) || d.Version != 0 || d.Flags != [3]byte{} {
					v.fail("meta", "%s: %d (%v), now at %d, %+v", desc, n, err, f.pos, d.FullBox)
				}
			})
		case 3: // avcC
			a := &AVCDecoderConfiguration{AnyTypeBox: AnyTypeBox{Type: BoxTypeAvcC()}, ConfigurationVersion: 1, ProfileCompatibility: byte(v.u64()), Level: byte(v.u64()), Reserved: 63, LengthSizeMinusOne: byte(v.r.Intn(4)), Reserved2: 7}
			profiles := []byte{66, 77, 88, 100, 110, 122, 144, 99, 0, 244, byte(v.u64())}
			a.Profile = profiles[v.r.Intn(len(profiles))]
			high := a.Profile == 100 || a.Profile == 110 || a.Profile == 122 || a.Profile == 144
			ps := func(max int) (l []AVCParameterSet, b []byte) {
				for j := v.r.Intn(max); j > 0; j-- {
					x := v.bytes(v.r.Intn(5))
					l = append(l, AVCParameterSet{Length: uint16(len(x)), NALUnit: x})
					b = cat(b, be(2, uint64(len(x))), x)
				}
				return
			}
			s1, b1 := ps(3)
			s2, b2 := ps(3)
			s3, b3 := ps(3)
			a.NumOfSequenceParameterSets, a.SequenceParameterSets = uint8(len(s1)), s1
			a.NumOfPictureParameterSets, a.PictureParameterSets = uint8(len(s2)), s2
			p := cat([]byte{1, a.Profile, a.ProfileCompatibility, a.Level, 63<<2 | a.LengthSizeMinusOne, 7<<5 | byte(len(s1))}, b1, []byte{byte(len(s2))}, b2)
			rest := v.r.Intn(2) == 0
			a.HighProfileFieldsEnabled = rest
			if rest {
				a.Reserved3, a.ChromaFormat, a.Reserved4, a.BitDepthLumaMinus8, a.Reserved5, a.BitDepthChromaMinus8 = 63, byte(v.r.Intn(4)), 31, byte(v.r.Intn(8)), 31, byte(v.r.Intn(8))
				a.NumOfSequenceParameterSetExt, a.SequenceParameterSetsExt = uint8(len(s3)), s3
				p = cat(p, []byte{63<<2 | a.ChromaFormat, 31<<3 | a.BitDepthLumaMinus8, 31<<3 | a.BitDepthChromaMinus8, byte(len(s3))}, b3)
			}
			desc := fmt.Sprintf("avcC %x", p)
			v.eval("%s", desc)
			v.guard("avcC", desc, func() {
				var w bytes.Buffer
				n, err := Marshal(&w, a, Context{})
				if rest && !high {
					if err == nil {
						v.fail("avcCwrite", "%s: high profile fields written for profile %d", desc, a.Profile)
					}
				} else if err != nil || !bytes.Equal(w.Bytes(), p) {
					v.fail("avcCwrite", "%s: wrote %x (%d, %v)", desc, w.Bytes(), n, err)
				}
				// up to five octets behind the picture parameter sets
				q := p
				if !rest {
					q = append(append([]byte{}, p...), make([]byte, v.r.Intn(6))...)
				}
				left := len(q) - len(p)
				if rest {
					left = 4 + len(b3)
				}
				r, f := v.c20file(q, tail)
				d := &AVCDecoderConfiguration{AnyTypeBox: AnyTypeBox{Type: BoxTypeAvcC()}}
				n, err = Unmarshal(r, uint64(len(q)), d, Context{})
				on := high && left >= 4
				want := uint64(len(q) - left)
				if on && rest {
					want = uint64(len(p))
				} else if on {
					want += 4
				}
				if err != nil || d.HighProfileFieldsEnabled != on || n != want || f.pos != int64(n) || len(d.SequenceParameterSets) != len(s1) || len(d.PictureParameterSets) != len(s2) {
					v.fail("avcCread", "%s with %d octets left: on %v, %d of %d (%v)", desc, left, d.HighProfileFieldsEnabled, n, want, err)
				} else if on && rest && (d.ChromaFormat != a.ChromaFormat || d.BitDepthLumaMinus8 != a.BitDepthLumaMinus8 || d.BitDepthChromaMinus8 != a.BitDepthChromaMinus8 || len(d.SequenceParameterSetsExt) != len(s3)) {
					v.fail("avcCread", "%s: read %+v", desc, *d)
				}
			})
		}
	}
}
