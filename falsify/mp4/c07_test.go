package mp4

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
)

func TestVerifC07Write(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(20000) && !v.late(); i++ {
		bi := BoxInfo{Offset: v.u64(), Size: v.u64(), HeaderSize: uint64([]int{0, 8, 16, 8, 16, 12}[v.r.Intn(6)]), Type: vType(v), ExtendToEOF: v.r.Intn(4) == 0}
		if v.r.Intn(3) == 0 {
			bi.Size = 0xfffffff0 + uint64(v.r.Intn(40))
		}
		bi.Context.UnderWave = v.r.Intn(2) == 0
		f := &vFile{data: make([]byte, v.r.Intn(60))}
		v.r.Read(f.data)
		f.pos = int64(v.r.Intn(50))
		if v.r.Intn(5) == 0 {
			f.failOp = 1 + v.r.Intn(3)
		}
		p := f.pos
		before := append([]byte{}, f.data...)
		in := bi
		desc := fmt.Sprintf("WriteBoxInfo(%+v) at %d, file of %d, fault at op %d", bi, p, len(before), f.failOp)
		v.eval("%s", desc)
		v.guard("write.panic", desc, func() {
			r, err := WriteBoxInfo(f, &bi)
			if bi != in {
				v.fail("write.arg", "%s alters its argument to %+v", desc, bi)
			}
			if f.failed {
				if !errors.Is(err, errFault) {
					v.fail("write.err", "%s hides the fault: %v", desc, err)
				}
				return
			}
			if err != nil {
				v.fail("write.ok", "%s: %v", desc, err)
				return
			}
			var want []byte
			switch {
			case in.ExtendToEOF:
				want = []byte{0, 0, 0, 0}
			case in.Size <= math.MaxUint32 && in.HeaderSize != 16:
				want = []byte{byte(in.Size >> 24), byte(in.Size >> 16), byte(in.Size >> 8), byte(in.Size)}
			default:
				want = []byte{0, 0, 0, 1}
			}
			want = append(want, in.Type[:]...)
			if want[3] == 1 && !in.ExtendToEOF && (in.Size > math.MaxUint32 || in.HeaderSize == 16) {
				for k := 56; k >= 0; k -= 8 {
					want = append(want, byte(in.Size>>uint(k)))
				}
			}
			all := append([]byte{}, before...)
			for int64(len(all)) < p+int64(len(want)) {
				all = append(all, 0)
			}
			copy(all[p:], want)
			if !bytes.Equal(all, f.data) {
				v.fail("write.octets", "%s leaves %x, want %x", desc, f.data, all)
			}
			if f.pos != p+int64(len(want)) {
				v.fail("write.pos", "%s leaves the position at %d", desc, f.pos)
			}
			exp := BoxInfo{Offset: uint64(p), HeaderSize: uint64(len(want)), Size: in.Size - in.HeaderSize + uint64(len(want)), Type: in.Type, ExtendToEOF: in.ExtendToEOF}
			if *r != exp {
				v.fail("write.report", "%s reports %+v, want %+v", desc, *r, exp)
			}
			// read back when the header length did not change
			if exp.HeaderSize == in.HeaderSize && !in.ExtendToEOF && in.Size >= in.HeaderSize && in.Size <= math.MaxInt64-uint64(p) {
				f.failOp = 0
				f.Seek(p, io.SeekStart)
				q, err := ReadBoxInfo(f)
				if err != nil || *q != exp {
					v.fail("roundtrip", "%s read back as %+v, %v", desc, q, err)
				}
			}
		})
	}
}

func TestVerifC07Read(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(40000) && !v.late(); i++ {
		f := &vFile{data: make([]byte, v.r.Intn(40)), dataErr: v.r.Intn(3) == 0, short: v.r.Intn(3) == 0}
		v.r.Read(f.data)
		f.pos = int64(v.r.Intn(24))
		if v.r.Intn(3) > 0 {
			f.pos = int64(v.r.Intn(4))
		}
		p := int(f.pos)
		if p+16 <= len(f.data) && v.r.Intn(3) > 0 {
			var s uint64
			switch v.r.Intn(4) {
			case 0:
				s = uint64(v.r.Intn(20))
			case 1:
				s = v.u64()
			case 2:
				s = math.MaxInt64 - uint64(v.r.Intn(30))
			case 3:
				s = math.MaxUint64 - uint64(v.r.Intn(30))
			}
			for k := 0; k < 4; k++ {
				f.data[p+k] = byte(s >> uint(24-8*k))
			}
			if v.r.Intn(3) > 0 {
				copy(f.data[p:], []byte{0, 0, 0, 1})
				for k := 0; k < 8; k++ {
					f.data[p+8+k] = byte(s >> uint(56-8*k))
				}
			}
		} else if p+4 <= len(f.data) && v.r.Intn(2) == 0 {
			copy(f.data[p:], []byte{0, 0, 0, byte(v.r.Intn(12))})
		}
		if v.r.Intn(6) == 0 {
			f.failOp = 1 + v.r.Intn(6)
		}
		desc := fmt.Sprintf("ReadBoxInfo of %x at %d (dataErr=%v short=%v failOp=%d)", f.data, p, f.dataErr, f.short, f.failOp)
		v.eval("%s", desc)
		var want *BoxInfo
		if p+8 <= len(f.data) {
			b := f.data[p:]
			w := BoxInfo{Offset: uint64(p), HeaderSize: 8, Type: BoxType{b[4], b[5], b[6], b[7]}}
			w.Size = uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
			ok := true
			switch w.Size {
			case 0:
				w.Size = uint64(len(b))
				w.ExtendToEOF = true
			case 1:
				w.HeaderSize = 16
				if ok = len(b) >= 16; ok {
					w.Size = 0
					for _, c := range b[8:16] {
						w.Size = w.Size<<8 | uint64(c)
					}
				}
			}
			if ok && w.Size >= w.HeaderSize && w.Size <= math.MaxInt64-w.Offset {
				want = &w
			}
		}
		v.guard("read.panic", desc, func() {
			r, err := ReadBoxInfo(f)
			if f.failed {
				if !errors.Is(err, errFault) {
					v.fail("read.err", "%s hides the fault: %v, %v", desc, r, err)
				}
				return
			}
			if want == nil {
				if err == nil {
					v.fail("read.invalid", "%s accepted as %+v", desc, *r)
				}
				return
			}
			if err != nil || *r != *want {
				v.fail("read", "%s gives %+v, %v; want %+v", desc, r, err, *want)
				return
			}
			if f.pos != int64(r.Offset+r.HeaderSize) {
				v.fail("read.pos", "%s leaves the stream at %d", desc, f.pos)
			}
			for k, fn := range []func(io.Seeker) (int64, error){r.SeekToStart, r.SeekToPayload, r.SeekToEnd} {
				to := int64(r.Offset + []uint64{0, r.HeaderSize, r.Size}[k])
				n, err := fn(f)
				if f.failed {
					if err == nil {
						v.fail("seek.err", "%s: seek %d hides the fault", desc, k)
					}
					return
				}
				if err != nil || n != to || f.pos != to {
					v.fail("seek", "%s: seek %d gives %d, %v, at %d", desc, k, n, err, f.pos)
				}
			}
		})
	}
}
