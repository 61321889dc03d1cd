package mp4

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
)

func TestVerifC08Nesting(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(6000) && !v.late(); i++ {
		f := &vFile{data: make([]byte, v.r.Intn(40))}
		v.r.Read(f.data)
		f.pos = int64(v.r.Intn(len(f.data) + 1))
		if v.r.Intn(4) == 0 {
			f.failOp = 1 + v.r.Intn(30)
		}
		model := append([]byte{}, f.data...)
		pos := int(f.pos)
		put := func(at int, b []byte) {
			for len(model) < at+len(b) {
				model = append(model, 0)
			}
			copy(model[at:], b)
		}
		type open struct {
			off, hs int
			typ     BoxType
			eof     bool
			bi      *BoxInfo
		}
		var stack []open
		hdr := func(o open, size uint64) []byte {
			var b []byte
			switch {
			case o.eof:
				b = []byte{0, 0, 0, 0}
			case o.hs == 16:
				b = []byte{0, 0, 0, 1}
			default:
				b = []byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}
			}
			b = append(b, o.typ[:]...)
			if o.hs == 16 {
				for k := 56; k >= 0; k -= 8 {
					b = append(b, byte(size>>uint(k)))
				}
			}
			return b
		}
		w := NewWriter(f)
		hist := fmt.Sprintf("file of %d at %d, fault at op %d:", len(f.data), pos, f.failOp)
		v.guard("panic", hist, func() {
			for k := 0; k < 25; k++ {
				op := v.r.Intn(5)
				switch {
				case op <= 1 && len(stack) < 6:
					o := open{off: pos, hs: 8, typ: vType(v), eof: v.r.Intn(5) == 0}
					bi := &BoxInfo{Type: o.typ, ExtendToEOF: o.eof, Offset: v.u64(), Size: uint64(v.r.Intn(30)), HeaderSize: 8}
					if v.r.Intn(3) == 0 {
						bi.HeaderSize = 16
						if !o.eof {
							o.hs = 16
						}
					} else if v.r.Intn(8) == 0 && !o.eof {
						bi.Size = 1 << 33 // forces the long form, which will not be needed when it is closed
						o.hs = 16
					}
					hist += fmt.Sprintf(" start(%+v)@%d", *bi, pos)
					r, err := w.StartBox(bi)
					if f.failed {
						if !errors.Is(err, errFault) {
							v.fail("start.err", "%s hides the fault", hist)
						}
						return
					}
					if err != nil {
						v.fail("start", "%s: %v", hist, err)
						return
					}
					o.bi = r
					put(pos, hdr(o, bi.Size))
					pos += o.hs
					if int(r.Offset) != o.off || int(r.HeaderSize) != o.hs || r.Type != o.typ {
						v.fail("start.report", "%s reports %+v", hist, *r)
						return
					}
					stack = append(stack, o)
				case op == 2 && len(stack) > 0:
					o := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					hist += fmt.Sprintf(" end@%d", pos)
					r, err := w.EndBox()
					if f.failed {
						if !errors.Is(err, errFault) {
							v.fail("end.err", "%s hides the fault", hist)
						}
						return
					}
					size := uint64(pos - o.off)
					if err != nil {
						v.fail("end", "%s: %v", hist, err)
						return
					}
					put(o.off, hdr(o, size))
					if r.Size != size || int(r.Offset) != o.off || r.Type != o.typ {
						v.fail("end.report", "%s reports %+v, want size %d at %d", hist, *r, size, o.off)
						return
					}
				case op == 3:
					p := make([]byte, v.r.Intn(12))
					v.r.Read(p)
					hist += fmt.Sprintf(" write(%d)@%d", len(p), pos)
					n, err := w.Write(p)
					if f.failed {
						if !errors.Is(err, errFault) {
							v.fail("write.err", "%s hides the fault", hist)
						}
						return
					}
					if n != len(p) || err != nil {
						v.fail("write", "%s: %d, %v", hist, n, err)
						return
					}
					put(pos, p)
					pos += n
				case op == 4:
					src := &vFile{data: make([]byte, 8+v.r.Intn(40)), short: v.r.Intn(2) == 0, dataErr: v.r.Intn(2) == 0}
					v.r.Read(src.data)
					off := v.r.Intn(len(src.data))
					size := v.r.Intn(len(src.data) - off + 1)
					bi := &BoxInfo{Offset: uint64(off), Size: uint64(size), HeaderSize: 8, Type: vType(v)}
					bad := false
					if v.r.Intn(6) == 0 {
						bi.Size = uint64(len(src.data)-off) + 1 + uint64(v.r.Intn(5))
						if v.r.Intn(3) == 0 {
							bi.Size = 1<<63 + uint64(v.r.Intn(3))
						}
						bad = true
					}
					if v.r.Intn(6) == 0 {
						src.failOp = 1 + v.r.Intn(3)
					}
					src.pos = int64(v.r.Intn(10))
					hist += fmt.Sprintf(" copy(%d+%d of %d, fault %d)@%d", bi.Offset, bi.Size, len(src.data), src.failOp, pos)
					err := w.CopyBox(src, bi)
					if f.failed || src.failed || bad {
						if err == nil && !(src.failed && !bad && !f.failed && f.pos == int64(pos+size)) {
							v.fail("copy.err", "%s hides a failure", hist)
						}
						return
					}
					if err != nil {
						v.fail("copy", "%s: %v", hist, err)
						return
					}
					put(pos, src.data[off:off+size])
					pos += size
				}
				if !bytes.Equal(model, f.data) {
					v.fail("octets", "%s leaves %x, want %x", hist, f.data, model)
					return
				}
				if f.pos != int64(pos) {
					v.fail("position", "%s leaves the position at %d, want %d", hist, f.pos, pos)
					return
				}
			}
		})
		v.eval("%s", hist)
	}
}

// a box that outgrows its short header
func TestVerifC08Outgrown(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(300); i++ {
		f := &vFile{}
		w := NewWriter(f)
		pre := v.r.Intn(20)
		w.Write(make([]byte, pre))
		long := v.r.Intn(2) == 0
		bi := &BoxInfo{Type: BoxType{'m', 'd', 'a', 't'}, HeaderSize: 8}
		if long {
			bi.HeaderSize = 16
		}
		if _, err := w.StartBox(bi); err != nil {
			v.fail("start", "%v", err)
			return
		}
		head := append([]byte{}, f.data...)
		end := int64(pre) + 0xffffffff - 3 + int64(v.r.Intn(8))
		f.pos = end
		size := uint64(end) - uint64(pre)
		desc := fmt.Sprintf("closing a box of %#x octets opened with a %d octet header", size, bi.HeaderSize)
		v.eval("%s", desc)
		v.guard("panic", desc, func() {
			r, err := w.EndBox()
			if !long && size > 0xffffffff {
				if err == nil {
					v.fail("outgrown", "%s gives no error (%+v)", desc, *r)
				}
				return
			}
			if err != nil || r.Size != size || f.pos != end {
				v.fail("big", "%s gives %+v, %v, position %d", desc, r, err, f.pos)
				return
			}
			want := append([]byte{}, head...)
			for k := 0; k < 4 && !long; k++ {
				want[pre+k] = byte(size >> uint(24-8*k))
			}
			for k := 0; k < 8 && long; k++ {
				want[pre+8+k] = byte(size >> uint(56-8*k))
			}
			if !bytes.Equal(want, f.data) {
				v.fail("big.octets", "%s leaves %x", desc, f.data)
			}
		})
	}
}
