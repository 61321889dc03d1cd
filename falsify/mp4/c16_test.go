package mp4

import (
	"fmt"
	"io"
	"reflect"
	"testing"
)

// c16src is a file whose octets lie at base..base+len(data); it records the octets read.
type c16src struct {
	base, pos int64
	data      []byte
	read      map[int64]bool
	calls     int
	short     bool
}

func (s *c16src) Seek(o int64, w int) (int64, error) {
	s.calls++
	switch w {
	case io.SeekStart:
		s.pos = o
	case io.SeekCurrent:
		s.pos += o
	default:
		s.pos = s.base + int64(len(s.data)) + o
	}
	if s.pos < 0 {
		s.pos = 0
		return 0, errFault
	}
	return s.pos, nil
}

func (s *c16src) Read(p []byte) (int, error) {
	s.calls++
	if s.calls > 1<<20 {
		panic("the search does not end")
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if s.short && n > 1 {
		n = 1 + n/2
	}
	for i := 0; i < n; i++ {
		at := s.pos - s.base
		if at >= int64(len(s.data)) {
			if i == 0 {
				return 0, io.EOF
			}
			return i, nil
		}
		p[i] = 0
		if at >= 0 {
			p[i] = s.data[at]
		}
		s.read[s.pos] = true
		s.pos++
	}
	return n, nil
}

func TestVerifC16(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(20000) && !v.late(); i++ {
		w := 1 + v.r.Intn(4)
		src := &c16src{read: map[int64]bool{}, short: v.r.Intn(3) == 0}
		if v.r.Intn(4) == 0 {
			src.base = []int64{1 << 20, 1 << 31, 1<<32 - 7, 1 << 40}[v.r.Intn(4)]
		}
		var ss Samples
		var cs Chunks
		want := []int{}
		allowed := map[int64]bool{}
		cut := v.r.Intn(10) == 0
		nc := v.r.Intn(5)
		for c := 0; c < nc; c++ {
			src.data = append(src.data, v.bytes(v.r.Intn(6))...)
			ch := &Chunk{DataOffset: uint64(src.base) + uint64(len(src.data)), SamplesPerChunk: uint32(v.r.Intn(4))}
			cs = append(cs, ch)
			for k := uint32(0); k < ch.SamplesPerChunk; k++ {
				var d []byte
				hit, ends := false, false
				for n := v.r.Intn(4); n > 0; n-- {
					l := v.r.Intn(7)
					typ := byte(v.r.Intn(8))
					if v.r.Intn(3) > 0 && typ == 5 {
						typ = 1
					}
					h := typ | byte(v.r.Intn(8))<<5
					if v.r.Intn(12) == 0 { // a length of zero: the octet after it is looked at all the same
						l = 0
					}
					if w > 1 && v.r.Intn(20) == 0 {
						l = 256 + v.r.Intn(40)
					}
					pre := make([]byte, w)
					x := l
					for j := w - 1; j >= 0; j-- {
						pre[j] = byte(x)
						x >>= 8
					}
					if v.r.Intn(10) == 0 { // hostile
						pre[0] = byte(0xff - v.r.Intn(3)*0x40)
						if w == 4 && v.r.Intn(2) == 0 {
							pre = []byte{0xff, 0xff, 0xff, byte(0xff - v.r.Intn(12))}
						}
					}
					d = append(d, pre...)
					if l > 0 {
						d = append(d, h)
						d = append(d, v.bytes(l-1)...)
					}
				}
				d = append(d, v.bytes(v.r.Intn(w+1))...)
				// the reference walk
				for o := uint64(0); !ends && o+uint64(w)+1 <= uint64(len(d)); {
					var x uint64
					for j := 0; j < w; j++ {
						x = x<<8 | uint64(d[o+uint64(j)])
					}
					if d[o+uint64(w)]&0x1f == 5 {
						hit, ends = true, true
					}
					o += uint64(w) + x
				}
				for j := range d {
					allowed[src.base+int64(len(src.data)+j)] = true
				}
				if hit {
					want = append(want, len(ss))
				}
				ss = append(ss, &Sample{Size: uint32(len(d))})
				src.data = append(src.data, d...)
			}
		}
		extra := v.r.Intn(3) == 0
		if extra { // more chunks than samples, or samples no chunk holds
			if v.r.Intn(2) == 0 {
				cs = append(cs, &Chunk{DataOffset: uint64(src.base), SamplesPerChunk: []uint32{1, 1000, 0xffffffff}[v.r.Intn(3)]})
			} else {
				for j := 0; j < 3; j++ {
					ss = append(ss, &Sample{Size: uint32(v.r.Intn(40))})
				}
			}
		}
		if nc > 0 && !extra && v.r.Intn(4) == 0 { // the last chunk claims more than there is
			cs[nc-1].SamplesPerChunk += uint32(1 + v.r.Intn(1000))
			if v.r.Intn(2) == 0 {
				cs[nc-1].SamplesPerChunk = 0xffffffff
			}
		}
		if cut && len(src.data) > 0 {
			src.data = src.data[:v.r.Intn(len(src.data))]
		}
		tr := &Track{AVC: &AVCDecConfigInfo{LengthSize: uint16(w)}, Samples: ss, Chunks: cs}
		if v.r.Intn(20) == 0 {
			tr.AVC, want = nil, []int{}
		}
		desc := fmt.Sprintf("w=%d base=%d data=%x chunks=", w, src.base, src.data)
		for _, c := range cs {
			desc += fmt.Sprintf("(%d,%d)", c.DataOffset, c.SamplesPerChunk)
		}
		desc += " sizes="
		for _, s := range ss {
			desc += fmt.Sprintf("%d,", s.Size)
		}
		v.eval("%s", desc)
		v.guard("FindIDRFrames", desc, func() {
			got, err := FindIDRFrames(src, tr)
			if err == nil && !(len(got) == 0 && len(want) == 0) && !reflect.DeepEqual(got, want) {
				v.fail("FindIDRFrames", "%s: got %v want %v", desc, got, want)
			}
			if err != nil && !cut {
				v.fail("FindIDRFrames-error", "%s: error %v, want %v", desc, err, want)
			}
			for at := range src.read {
				if !allowed[at] {
					v.fail("FindIDRFrames-extent", "%s: reads octet %d outside the samples", desc, at)
					break
				}
			}
		})
	}
}
