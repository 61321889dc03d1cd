package mp4

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/abema/go-mp4/internal/bitio"
)

// Every case runs under a watch: a panic, more than 8 s, or memory out of
// proportion to the input refutes the property.

type vWatch struct {
	v     *vctx
	start int64
	key   atomic.Value
	desc  atomic.Value
}

func (v *vctx) watch() *vWatch {
	w := &vWatch{v: v}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			s := atomic.LoadInt64(&w.start)
			if s == 0 {
				continue
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			why := ""
			if time.Now().UnixNano()-s > int64(8*time.Second) {
				why = "no result after 8 s"
			} else if m.HeapAlloc > 1<<30 {
				why = fmt.Sprintf("%d octets of memory", m.HeapAlloc)
			} else {
				continue
			}
			if atomic.LoadInt64(&w.start) != s {
				continue
			}
			fmt.Printf("VERIF-FALSIFIED %s %.1500s: %s\n", w.key.Load(), w.desc.Load(), why)
			fmt.Printf("VERIF-EVALS %d %d\n", v.n, len(v.seen))
			os.Exit(1)
		}
	}()
	return w
}

// run watches one call on an input of n octets.
func (w *vWatch) run(key, desc string, n int, f func()) {
	w.key.Store(key)
	w.desc.Store(desc)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	atomic.StoreInt64(&w.start, time.Now().UnixNano())
	w.v.guard(key, desc, f)
	atomic.StoreInt64(&w.start, 0)
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > 32<<20+4000*uint64(n) {
		w.v.fail(key, "%.1500s: %d octets allocated for an input of %d", desc, d, n)
	}
}

// stingy readers: part of what is asked for, io.EOF with the last octets
type vStingy struct {
	*bytes.Reader
	k int
}

func (s *vStingy) Read(p []byte) (int, error) {
	s.k++
	if len(p) > 1 && s.k%2 == 0 {
		p = p[:1+s.k%len(p)]
	}
	n, err := s.Reader.Read(p)
	if err == nil && s.Reader.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func (v *vctx) hostile(d []byte) []byte {
	d = v.mutate(d)
	for k := v.r.Intn(3); k > 0 && len(d) > 0; k-- {
		i, n := v.r.Intn(len(d)), []int{1, 2, 4, 4, 4, 8}[v.r.Intn(6)]
		if v.r.Intn(2) == 0 {
			i &^= 3
		}
		x := make([]byte, 8)
		binary.BigEndian.PutUint64(x, []uint64{0xffffffffffffffff, 0x7fffffffffffffff, 0x8000000080000000, 0, 1 << 56, 0x2000000020000001, 0x0fffffff0fffffff, 0x3fffffffffffffff}[v.r.Intn(8)])
		copy(d[i:], x[:n])
	}
	return d
}

// emptyRun: a trun whose samples have no fields; its known endless list is a case of its own
func vEmptyRun(t BoxType, d []byte) bool {
	return t == vT("trun") && len(d) >= 8 && d[2]&0xf == 0 && binary.BigEndian.Uint32(d[4:]) > 1<<12
}

func TestVerifC21Payloads(t *testing.T) {
	v := newV(t)
	defer v.done()
	w := v.watch()
	l := vLoadLayouts(t)
	sizes := []uint64{1 << 32, 1 << 40, 1 << 48, 1<<61 - 1, 1 << 61, 1<<61 + 9, 1 << 62, 1<<63 - 1, 1<<64 - 1}
	for i := 0; i < v.rounds(120) && !v.late(); i++ {
		for _, b := range l.boxes {
			typ := b.types[i%len(b.types)]
			box, e, bt, err := v.layCase(l, b, typ)
			if err != nil {
				continue
			}
			var d []byte
			if e.box.Type().Name() == b.st.name {
				bits, _ := e.bits(b)
				d = bits.bytes()
			}
			for j := 0; j < 6; j++ {
				in := d
				switch j {
				case 0:
				case 1:
					if len(in) > 0 {
						in = in[:v.r.Intn(len(in))]
					}
				case 2: // the last octets of the fixed part turned on
					in = append([]byte{}, in...)
					p := v.r.Intn(len(in) + 1)
					for q := p; q < len(in) && q < p+4; q++ {
						in[q] = 0xff
					}
				default:
					in = v.hostile(in)
				}
				ctx := e.ctx
				if v.r.Intn(3) == 0 {
					ctx = v.ctx()
				}
				size := uint64(len(in))
				switch v.r.Intn(6) {
				case 0:
					size = sizes[v.r.Intn(len(sizes))]
				case 1:
					size = uint64(v.r.Intn(2*len(in) + 8))
				}
				if vEmptyRun(bt, in) {
					continue
				}
				desc := fmt.Sprintf("type %s payload %x size %d in %+v", bt, in, size, ctx)
				v.eval("%s", desc)
				var r io.ReadSeeker = bytes.NewReader(in)
				if v.r.Intn(4) == 0 {
					r = &vStingy{Reader: bytes.NewReader(in)}
				}
				w.run(b.st.name, desc, len(in), func() {
					if v.r.Intn(2) == 0 {
						x, n, err := UnmarshalAny(r, bt, size, ctx)
						if err == nil && x == nil {
							v.fail(b.st.name, "%s: neither a box nor an error", desc)
						}
						if err == nil && n > size && size <= 1<<60 {
							v.fail(b.st.name, "%s: %d octets of %d", desc, n, size)
						}
						return
					}
					x := reflect.New(reflect.TypeOf(box).Elem()).Interface().(IBox)
					Unmarshal(r, size, x, ctx)
				})
			}
		}
	}
}

// Counts and sizes up to the limit of their fields in front of few octets.
func TestVerifC21Counts(t *testing.T) {
	v := newV(t)
	defer v.done()
	w := v.watch()
	types := map[BoxType]bool{}
	for bt := range boxMap {
		types[bt] = true
	}
	for bt := range types {
		for i := 0; i < 12*v.rounds(1); i++ {
			n := 4 * (1 + v.r.Intn(24))
			in := make([]byte, n)
			p := 4 * v.r.Intn(n/4)
			in[0] = byte(v.r.Intn(3))
			if v.r.Intn(2) == 0 {
				v.r.Read(in[1:4])
			}
			if i%3 == 0 {
				for q := p; q < n; q++ {
					in[q] = 0xff
				}
			} else {
				x := []uint32{0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x3fffffff, 0x10000000, 0x01000000}[v.r.Intn(7)]
				binary.BigEndian.PutUint32(in[p:], x)
			}
			ctx := v.ctx()
			if vEmptyRun(bt, in) {
				continue
			}
			size := uint64(n)
			if i%2 == 1 {
				size = 1 << 40
			}
			desc := fmt.Sprintf("type %s payload %x size %d in %+v", bt, in, size, ctx)
			v.eval("%s", desc)
			w.run(bt.String(), desc, n, func() { UnmarshalAny(bytes.NewReader(in), bt, size, ctx) })
		}
	}
}

// A run of samples without any field of their own takes no octets however many there are.
func TestVerifC21EmptyRun(t *testing.T) {
	v := newV(t)
	defer v.done()
	in := []byte{0, 0, 0, 0, 0, 0x08, 0, 0}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	v.eval("%x", in)
	v.guard("trun.empty", "trun", func() { UnmarshalAny(bytes.NewReader(in), vT("trun"), 8, Context{}) })
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > 32<<20 {
		v.fail("trun.empty", "type trun payload %x: %d octets allocated for an input of %d", in, d, len(in))
	}
}

func TestVerifC21Headers(t *testing.T) {
	v := newV(t)
	defer v.done()
	w := v.watch()
	for i := 0; i < v.rounds(20000) && !v.late(); i++ {
		d := v.bytes(v.r.Intn(40))
		if len(d) >= 4 && v.r.Intn(3) > 0 {
			binary.BigEndian.PutUint32(d, uint32(v.u64())>>uint(v.r.Intn(32)))
		}
		if len(d) >= 16 && v.r.Intn(2) == 0 {
			binary.BigEndian.PutUint32(d, 1)
			binary.BigEndian.PutUint64(d[8:], v.u64())
		}
		off := int64(0)
		switch v.r.Intn(4) {
		case 0:
			off = int64(v.r.Intn(len(d) + 4))
		case 1:
			off = int64(v.u64() >> 1)
		}
		desc := fmt.Sprintf("header at %d of %x", off, d)
		v.eval("%s", desc)
		f := func() {
			r := bytes.NewReader(d)
			r.Seek(off, io.SeekStart)
			bi, err := ReadBoxInfo(r)
			if err != nil {
				return
			}
			end := bi.Offset + bi.Size
			if bi.Size < bi.HeaderSize || end < bi.Offset || end > 1<<63-1 {
				v.fail("ReadBoxInfo", "%s: %+v", desc, bi)
			}
			bi.SeekToPayload(r)
			bi.SeekToEnd(r)
			bi.SeekToStart(r)
			var b IBox
			if b, _, err = UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, Context{}); err == nil && b == nil {
				v.fail("ReadBoxInfo", "%s: no box", desc)
			}
		}
		if i%50 == 0 {
			w.run("ReadBoxInfo", desc, len(d), f)
		} else {
			v.guard("ReadBoxInfo", desc, f)
		}
	}
}

var vPlaces = []string{"moov", "trak", "mdia", "minf", "stbl", "stsd", "moof", "traf", "mvex", "udta", "meta", "ilst", "wave", "edts", "dinf"}

// hostileFile: boxes of every registered type with payloads of their layout, damaged, in nested containers.
func (v *vctx) hostileFile(l *vLayouts, depth int) []byte {
	var out []byte
	for k := 1 + v.r.Intn(4); k > 0; k-- {
		var body []byte
		var bt BoxType
		if depth > 0 && v.r.Intn(2) == 0 {
			bt = vT(vPlaces[v.r.Intn(len(vPlaces))])
			if bt == vT("meta") || v.r.Intn(8) == 0 {
				body = make([]byte, 4)
			}
			if bt == vT("stsd") {
				body = []byte{0, 0, 0, 0, 0, 0, 0, 1}
			}
			body = append(body, v.hostileFile(l, depth-1)...)
		} else {
			b := l.boxes[v.r.Intn(len(l.boxes))]
			_, e, t, err := v.layCase(l, b, b.types[v.r.Intn(len(b.types))])
			if err != nil || e.box.Type().Name() != b.st.name {
				continue
			}
			bits, _ := e.bits(b)
			bt, body = t, bits.bytes()
			if v.r.Intn(2) == 0 {
				body = v.hostile(body)
			}
			if vEmptyRun(bt, body) {
				continue
			}
		}
		h := make([]byte, 8)
		n := uint64(len(body)) + 8
		if v.r.Intn(6) == 0 {
			h = make([]byte, 16)
			h[3] = 1
			n += 8
			if v.r.Intn(5) == 0 {
				n = v.u64()
			}
			binary.BigEndian.PutUint64(h[8:], n)
		} else {
			if v.r.Intn(16) == 0 {
				n = v.u64()
			}
			binary.BigEndian.PutUint32(h, uint32(n))
		}
		copy(h[4:8], bt[:])
		out = append(append(out, h...), body...)
	}
	return out
}

// endlessRun: some place of the file reads as a run with many empty samples.
func vEndlessRun(d []byte) bool {
	for i := 0; i+16 <= len(d); i++ {
		if string(d[i:i+4]) == "trun" && (vEmptyRun(vT("trun"), d[i+4:]) || i+20 <= len(d) && vEmptyRun(vT("trun"), d[i+12:])) {
			return true
		}
	}
	return false
}

func TestVerifC21Files(t *testing.T) {
	v := newV(t)
	defer v.done()
	w := v.watch()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(2500) && !v.late(); i++ {
		var d []byte
		if i%3 == 0 {
			d = v.genFile(true)
		} else {
			d = v.hostileFile(l, 3)
			if v.r.Intn(2) == 0 {
				d = append([]byte("\x00\x00\x00\x14ftypisom\x00\x00\x00\x00qt  "), d...)
			}
		}
		if v.r.Intn(2) == 0 {
			d = v.hostile(d)
		}
		if vEndlessRun(d) {
			continue
		}
		desc := fmt.Sprintf("file %x", d)
		v.eval("%s", desc)
		w.run("ReadBoxStructure", desc, len(d), func() {
			steps := 0
			ReadBoxStructure(bytes.NewReader(d), func(h *ReadHandle) (interface{}, error) {
				if steps++; steps > len(d)/8+1 {
					v.fail("ReadBoxStructure", "%.1500s: more boxes than headers fit", desc)
					return nil, io.ErrNoProgress
				}
				if h.BoxInfo.IsSupportedType() {
					h.ReadPayload()
				}
				if v.r.Intn(3) == 0 {
					h.ReadData(io.Discard)
				}
				if h.BoxInfo.IsSupportedType() {
					_, err := h.Expand()
					if v.r.Intn(2) == 0 {
						return nil, err
					}
				}
				return nil, nil
			})
		})
		var path BoxPath
		for k := 1 + v.r.Intn(4); k > 0; k-- {
			path = append(path, vT(vPlaces[v.r.Intn(len(vPlaces))]))
			if v.r.Intn(2) == 0 {
				path[len(path)-1] = BoxTypeAny()
			}
		}
		desc = fmt.Sprintf("extract %v of %s", path, desc)
		w.run("Extract", desc, len(d), func() {
			ExtractBoxesWithPayload(bytes.NewReader(d), nil, []BoxPath{path, {BoxTypeAny()}})
			ExtractBoxes(bytes.NewReader(d), nil, []BoxPath{path})
		})
		r := bytes.NewReader(d)
		if bi, err := ReadBoxInfo(r); err == nil {
			bi.Context = v.ctx()
			w.run("FromInternal", desc, len(d), func() {
				ReadBoxStructureFromInternal(r, bi, func(h *ReadHandle) (interface{}, error) {
					_, _, err := h.ReadPayload()
					return nil, err
				})
				ExtractBoxesWithPayload(r, bi, []BoxPath{path[:1]})
			})
		}
	}
}

// Containers in containers: every level keeps a path of its own, so memory grows with the square of the depth.
func TestVerifC21Nested(t *testing.T) {
	v := newV(t)
	defer v.done()
	for _, n := range []int{50, 4000} {
		d := make([]byte, 8*n)
		for i := 0; i < n; i++ {
			binary.BigEndian.PutUint32(d[8*i:], uint32(8*(n-i)))
			copy(d[8*i+4:], "moov")
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		v.eval("%d nested boxes", n)
		v.guard("nested", fmt.Sprintf("%d nested boxes", n), func() {
			ReadBoxStructure(bytes.NewReader(d), func(h *ReadHandle) (interface{}, error) { return h.Expand() })
		})
		runtime.ReadMemStats(&b)
		if x := b.TotalAlloc - a.TotalAlloc; n == 50 && x > 1<<20 || x > 1000*uint64(len(d)) {
			key := "nested"
			if n == 4000 {
				key = "nested.deep"
			}
			v.fail(key, "%d moov boxes in each other: %d octets allocated for an input of %d", n, x, len(d))
		}
	}
}

// A list up to the end of the box whose elements take no octets ends with an error.
type vHollow struct {
	Box
	A uint8        `mp4:"0,size=8"`
	L []vHollowOne `mp4:"1"`
}
type vHollowOne struct {
	X uint8 `mp4:"0,size=8,opt=dynamic"`
}

func (*vHollow) GetType() BoxType                                { return vT("vhol") }
func (*vHollow) IsOptFieldEnabled(name string, ctx Context) bool { return ctx.UnderWave }

func TestVerifC21Hollow(t *testing.T) {
	v := newV(t)
	defer v.done()
	w := v.watch()
	AddBoxDef(&vHollow{})
	for n := 1; n < 20; n++ {
		for _, wave := range []bool{false, true} {
			desc := fmt.Sprintf("list of elements in %d octets, present %v", n, wave)
			v.eval("%s", desc)
			w.run("hollow", desc, n, func() {
				b, k, err := UnmarshalAny(bytes.NewReader(v.bytes(n)), vT("vhol"), uint64(n), Context{UnderWave: wave})
				if wave && (err != nil || int(k) != n || len(b.(*vHollow).L) != n-1) || !wave && n > 1 && err == nil {
					v.fail("hollow", "%s: %+v %d %v", desc, b, k, err)
				}
			})
		}
	}
}

// Bit readers on any source.
func TestVerifC21Bits(t *testing.T) {
	v := newV(t)
	defer v.done()
	w := v.watch()
	for i := 0; i < v.rounds(2000) && !v.late(); i++ {
		d := v.bytes(v.r.Intn(20))
		var n []uint
		for k := v.r.Intn(8); k > 0; k-- {
			n = append(n, uint(v.r.Intn(70)))
		}
		desc := fmt.Sprintf("widths %v of %x", n, d)
		v.eval("%s", desc)
		f := func() {
			r := bitio.NewReadSeeker(bytes.NewReader(d))
			for _, k := range n {
				if k == 69 {
					r.Seek(int64(v.r.Intn(30)), v.r.Intn(3))
					continue
				}
				if v.r.Intn(4) == 0 {
					r.Read(make([]byte, k))
					continue
				}
				if x, err := r.ReadBits(k); err == nil && len(x) != int(k+7)/8 {
					v.fail("bits", "%s: %d octets for %d bits", desc, len(x), k)
				}
			}
		}
		if i%20 == 0 {
			w.run("bits", desc, len(d), f)
		} else {
			v.guard("bits", desc, f)
		}
	}
}
