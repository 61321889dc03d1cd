package mp4

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
)

// ---- random box files ----

type vNode struct {
	typ   BoxType
	large bool
	own   []byte
	kids  []*vNode
	tail  []byte
}

func vT(s string) BoxType { return BoxType{s[0], s[1], s[2], s[3]} }

var vContainers = []string{"moov", "trak", "mdia", "minf", "stbl", "edts", "dinf", "mvex", "moof", "traf", "udta", "wave", "ilst", "wave", "udta", "ilst"}
var vItems = []BoxType{{0xa9, 'n', 'a', 'm'}, {'-', '-', '-', '-'}, {'c', 'o', 'v', 'r'}, {0xa9, 'A', 'R', 'T'}}

func (v *vctx) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

func vKeys(n int, extra int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b[4:], uint32(n))
	for i := 0; i < n; i++ {
		k := make([]byte, 8+i%3)
		binary.BigEndian.PutUint32(k, uint32(len(k)))
		copy(k[4:], "mdta")
		b = append(b, k...)
	}
	return append(b, make([]byte, extra)...)
}

func vFtyp(qt bool, n int) []byte {
	b := []byte("isom\x00\x00\x00\x01")
	for i := 0; i < n; i++ {
		b = append(b, "mp4"+string(rune('0'+i))...)
	}
	if qt {
		b = append(b, "qt  "...)
		if n%2 == 0 {
			b = append(b, "isom"...)
		}
	}
	return b
}

// genBoxes makes the boxes of one level; up is the type of the box they lie in.
func (v *vctx) genBoxes(depth int, up string, root bool) []*vNode {
	var ns []*vNode
	n := v.r.Intn(4)
	if root {
		n = 1 + v.r.Intn(4)
		if v.r.Intn(3) > 0 {
			ns = append(ns, &vNode{typ: vT("ftyp"), own: vFtyp(v.r.Intn(2) == 0, v.r.Intn(3))})
		}
	}
	if up == "meta" || v.r.Intn(6) == 0 {
		if v.r.Intn(2) == 0 {
			ns = append(ns, &vNode{typ: vT("keys"), own: vKeys(v.r.Intn(4), 0)})
		}
	}
	for i := 0; i < n; i++ {
		ns = append(ns, v.genBox(depth, up))
	}
	return ns
}

func (v *vctx) genBox(depth int, up string) *vNode {
	nd := &vNode{large: v.r.Intn(6) == 0}
	kids := func(name string) {
		nd.typ = vT(name)
		if depth > 0 {
			nd.kids = v.genBoxes(depth-1, name, false)
		}
	}
	if up == "ilst" && v.r.Intn(3) > 0 {
		if v.r.Intn(2) == 0 { // numbered item
			binary.BigEndian.PutUint32(nd.typ[:], uint32(v.r.Intn(5)))
			nd.own = v.bytes(16 + v.r.Intn(6))
			return nd
		}
		nd.typ = vItems[v.r.Intn(len(vItems))]
		if depth > 0 {
			nd.kids = v.genBoxes(depth-1, "item", false)
		}
		return nd
	}
	if up == "item" && v.r.Intn(2) == 0 {
		nd.typ = vT([]string{"data", "mean", "name"}[v.r.Intn(3)])
		nd.own = v.bytes(8 + v.r.Intn(9))
		return nd
	}
	switch v.r.Intn(12) {
	case 0, 1, 2, 3:
		kids(vContainers[v.r.Intn(len(vContainers))])
	case 4:
		kids("meta")
		if v.r.Intn(2) == 0 {
			nd.own = make([]byte, 4)
		}
		if len(nd.kids) == 0 && len(nd.own) == 0 {
			nd.own = make([]byte, 4)
		}
	case 5:
		kids("stsd")
		nd.own = append(make([]byte, 4), v.bytes(4)...)
	case 6:
		kids("mp4a")
		nd.own = v.bytes(28)
		nd.own[8], nd.own[9] = 0, 0
		if up == "wave" {
			nd.kids, nd.own = nil, v.bytes(28+v.r.Intn(8))
		}
	case 7:
		nd.typ = vT("free")
		nd.own = v.bytes(v.r.Intn(20))
	case 8:
		nd.typ = BoxType{}
		nd.own = v.bytes(v.r.Intn(10))
	case 9:
		nd.typ = vT("ftyp")
		nd.own = vFtyp(v.r.Intn(2) == 0, v.r.Intn(3))
	case 10:
		nd.typ = vT("wave")
		nd.kids = []*vNode{{typ: vT("frma"), own: []byte("mp4a")}, {typ: vT("mp4a"), own: v.bytes(30)}}
	default:
		nd.typ = vT([]string{"zzz1", "mdat", "abst", "zz\x00\x01"}[v.r.Intn(4)])
		nd.own = v.bytes(v.r.Intn(30))
	}
	if depth > 0 && nd.kids != nil && v.r.Intn(8) == 0 {
		nd.tail = v.bytes(1 + v.r.Intn(7))
	}
	return nd
}

func (n *vNode) encode(eof bool) []byte {
	b := append([]byte{}, n.own...)
	for _, k := range n.kids {
		b = append(b, k.encode(false)...)
	}
	b = append(b, n.tail...)
	var h []byte
	switch {
	case eof:
		h = make([]byte, 8)
	case n.large:
		h = make([]byte, 16)
		h[3] = 1
		binary.BigEndian.PutUint64(h[8:], uint64(len(b)+16))
	default:
		h = make([]byte, 8)
		binary.BigEndian.PutUint32(h, uint32(len(b)+8))
	}
	copy(h[4:8], n.typ[:])
	return append(h, b...)
}

// genFile makes a file; odd ones carry damage.
func (v *vctx) genFile(damage bool) []byte {
	var b []byte
	ns := v.genBoxes(4, "", true)
	for i, n := range ns {
		b = append(b, n.encode(i == len(ns)-1 && v.r.Intn(4) == 0)...)
	}
	if damage {
		for k := 1 + v.r.Intn(3); k > 0 && len(b) > 0; k-- {
			switch v.r.Intn(5) {
			case 0:
				b = b[:v.r.Intn(len(b)+1)]
			case 1:
				b[v.r.Intn(len(b))] = byte(v.u64())
			case 2, 3: // a size field somewhere
				p := v.r.Intn(len(b))
				for q := p; q+8 < len(b); q++ {
					if b[q+4] >= 'a' && b[q+5] >= 'a' && b[q] == 0 {
						binary.BigEndian.PutUint32(b[q:], binary.BigEndian.Uint32(b[q:])+uint32(v.r.Intn(17))-8)
						break
					}
				}
			case 4:
				b = append(b, v.bytes(1+v.r.Intn(12))...)
			}
		}
	}
	return b
}

// ---- the reference reading of a file ----

type vHdr struct {
	off, size, hdr uint64
	typ            BoxType
	eof            bool
}

var errVEnd = errors.New("end of boxes")
var errVRef = errors.New("reference: malformed")

// vHeader decodes the header at p; errVEnd when the bytes run out.
func vHeader(d []byte, p uint64) (vHdr, error) {
	h := vHdr{off: p, hdr: 8}
	if p > uint64(len(d)) || uint64(len(d))-p < 8 {
		return h, errVEnd
	}
	h.size = uint64(binary.BigEndian.Uint32(d[p:]))
	copy(h.typ[:], d[p+4:])
	if h.size == 0 {
		h.eof = true
		h.size = uint64(len(d)) - p
	} else if h.size == 1 {
		if uint64(len(d))-p < 16 {
			return h, errVEnd
		}
		h.hdr = 16
		h.size = binary.BigEndian.Uint64(d[p+8:])
	}
	if h.size < h.hdr || h.size > 1<<63-1-p {
		return h, errVRef
	}
	return h, nil
}

// vOwn: length of the box's own fields, as decoded from the payload in ctx.
func vOwn(d []byte, h vHdr, ctx Context) (uint64, IBox, error) {
	r := bytes.NewReader(d)
	r.Seek(int64(h.off+h.hdr), 0)
	b, n, err := UnmarshalAny(r, h.typ, h.size-h.hdr, ctx)
	return n, b, err
}

func vPayload(d []byte, h vHdr) ([]byte, bool) {
	a, b := h.off+h.hdr, h.off+h.size
	if b > uint64(len(d)) {
		return nil, false
	}
	return d[a:b], true
}

// vSelf: the box's own context given that of its level; false when a box that must be decoded for it cannot be.
func vSelf(d []byte, h vHdr, root bool, ctx Context) (Context, bool) {
	if (root && h.typ == vT("ftyp")) || h.typ == vT("keys") {
		if _, _, err := vOwn(d, h, Context{}); err != nil {
			return ctx, false
		}
		p, ok := vPayload(d, h)
		if !ok { // a keys box may claim more than it uses
			p = d[h.off+h.hdr:]
		}
		if h.typ == vT("keys") {
			ctx.QuickTimeKeysMetaEntryCount = int(int32(binary.BigEndian.Uint32(p[4:])))
		} else {
			for i := 8; i+4 <= len(p); i += 4 {
				if string(p[i:i+4]) == "qt  " {
					ctx.IsQuickTimeCompatible = true
				}
			}
		}
	}
	return ctx, true
}

// vBelow: the context of a box's children.
func vBelow(t BoxType, c Context) Context {
	item := t[0] == 0xa9
	for _, i := range vItems {
		item = item || t == i
	}
	switch {
	case t == vT("wave"):
		c.UnderWave = true
	case t == vT("ilst"):
		c.UnderIlst = true
	case c.UnderIlst && !c.UnderIlstMeta && item:
		c.UnderIlstMeta = true
		if t == vT("----") {
			c.UnderIlstFreeMeta = true
		}
	case t == vT("udta"):
		c.UnderUdta = true
	}
	return c
}

// vAfter: the context of the siblings that follow a box with own context self.
func vAfter(h vHdr, level, self Context) Context {
	level.IsQuickTimeCompatible = self.IsQuickTimeCompatible
	if h.typ == vT("keys") {
		level.QuickTimeKeysMetaEntryCount = self.QuickTimeKeysMetaEntryCount
	}
	return level
}

type vEvent struct {
	info   BoxInfo
	path   BoxPath
	params string
}

// vPlan: what the handler does with a box, a function of its offset.
type vPlan struct {
	salt   uint64
	failAt int // the event whose handler fails (0: none)
}

func (p vPlan) at(off uint64) uint64 {
	x := (off + p.salt) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>32
}

const (
	plRead = 1 << iota
	plData
	plStray
	plSwallow
	plTwice
	plNoExpand1
	plNoExpand2
	plNoExpand3
	plReadAfter
)

func (x vPlan) expands(off uint64) int {
	a := x.at(off)
	if a&plNoExpand1 != 0 && a&plNoExpand2 != 0 && a&plNoExpand3 != 0 {
		return 0
	}
	if a&plTwice != 0 && a&plNoExpand1 != 0 && a&plNoExpand2 != 0 {
		return 2
	}
	return 1
}

var errPlan = errors.New("verif: handler error")

type vWalk struct {
	d      []byte
	plan   vPlan
	events []vEvent
	limit  int
}

// run walks the file with the plan's handler.
func (w *vWalk) run(f *vFile) ([]interface{}, error) {
	return ReadBoxStructure(f, w.handler(f), "top", 7)
}

func (w *vWalk) handler(f *vFile) ReadHandler {
	return func(h *ReadHandle) (interface{}, error) {
		if len(w.events) > w.limit {
			return nil, errPlan
		}
		w.events = append(w.events, vEvent{h.BoxInfo, append(BoxPath{}, h.Path...), fmt.Sprint(h.Params...)})
		off := h.BoxInfo.Offset
		a := w.plan.at(off)
		if w.plan.failAt == len(w.events) {
			return nil, errPlan
		}
		if a&plRead != 0 {
			h.ReadPayload()
		}
		if a&plData != 0 {
			var b bytes.Buffer
			if n, err := h.ReadData(&b); err == nil {
				p, ok := vPayload(w.d, vHdr{off: off, size: h.BoxInfo.Size, hdr: h.BoxInfo.HeaderSize})
				if !ok || n != uint64(len(p)) || !bytes.Equal(p, b.Bytes()) {
					return nil, fmt.Errorf("verif: ReadData of the box at %d gave %d bytes %x", off, n, b.Bytes())
				}
			}
		}
		if a&plStray != 0 {
			f.Seek(int64(a>>40%1000), 0)
		}
		var out []interface{}
		out = append(out, off)
		for i := 0; i < w.plan.expands(off); i++ {
			vals, err := h.Expand(h.Path[len(h.Path)-1].String(), int(off))
			if err != nil && a&plSwallow == 0 {
				return nil, err
			}
			if err != nil {
				out = append(out, "error")
			} else {
				out = append(out, vals)
			}
			if a&plReadAfter != 0 {
				h.ReadPayload()
			}
			if a&plStray != 0 {
				f.Seek(int64(a>>30%1000), 0)
			}
		}
		return out, nil
	}
}

// vModel replays the reference walk against the events of a real one.
type vModel struct {
	d      []byte
	plan   vPlan
	got    []vEvent
	i      int
	useCtx bool // interpret boxes in the contexts that were reported (else: in the reference ones)
	walk   string
	ctx    string
	path   string
}

func (m *vModel) level(p, total uint64, root bool, path BoxPath, ctx Context, params string) ([]interface{}, error) {
	vals := []interface{}{}
	for root || total >= 8 {
		h, err := vHeader(m.d, p)
		if err == errVEnd && root {
			return vals, nil
		}
		if err != nil {
			return nil, errVRef
		}
		if !root && h.size > total {
			return nil, errVRef
		}
		total -= h.size
		v, self, err := m.box(h, root, path, ctx, params)
		if err != nil || m.walk != "" {
			return nil, err
		}
		vals = append(vals, v)
		ctx = vAfter(h, ctx, self)
		p = h.off + h.size
	}
	if total != 0 && !ctx.IsQuickTimeCompatible {
		return nil, errVRef
	}
	return vals, nil
}

func (m *vModel) box(h vHdr, root bool, path BoxPath, level Context, params string) (interface{}, Context, error) {
	self, ok := vSelf(m.d, h, root, level)
	if !ok {
		return nil, self, errVRef
	}
	if m.i >= len(m.got) {
		m.walk = fmt.Sprintf("the handler was not called for the box %s at %d", h.typ, h.off)
		return nil, self, nil
	}
	e := m.got[m.i]
	m.i++
	if e.info.Offset != h.off || e.info.Size != h.size || e.info.HeaderSize != h.hdr || e.info.Type != h.typ || e.info.ExtendToEOF != h.eof {
		m.walk = fmt.Sprintf("call %d reports %s at %d size %d header %d; the file has %s at %d size %d header %d",
			m.i, e.info.Type, e.info.Offset, e.info.Size, e.info.HeaderSize, h.typ, h.off, h.size, h.hdr)
		return nil, self, nil
	}
	if e.params != params {
		m.walk = fmt.Sprintf("call %d at %d got the parameters %q, given %q", m.i, h.off, e.params, params)
		return nil, self, nil
	}
	if m.ctx == "" && e.info.Context != self {
		m.ctx = fmt.Sprintf("box %s at %d reported in context %+v, lies in %+v", h.typ, h.off, e.info.Context, self)
	}
	want := append(append(BoxPath{}, path...), h.typ)
	if m.path == "" && !reflect.DeepEqual(e.path, want) {
		m.path = fmt.Sprintf("box at %d reported with path %v, lies at %v", h.off, e.path, want)
	}
	if m.plan.failAt == m.i {
		return nil, self, errPlan
	}
	used := self
	if m.useCtx {
		used = e.info.Context
	}
	out := []interface{}{h.off}
	for i := 0; i < m.plan.expands(h.off); i++ {
		own, _, err := vOwn(m.d, h, used)
		var vals []interface{}
		if err == nil {
			cp := h.off + h.hdr + own
			below := vBelow(h.typ, self)
			below.IsQuickTimeCompatible = used.IsQuickTimeCompatible
			vals, err = m.level(cp, h.off+h.size-cp, false, want, below, fmt.Sprint(h.typ.String(), int(h.off)))
		}
		if m.walk != "" {
			return nil, self, nil
		}
		if err != nil && m.plan.at(h.off)&plSwallow == 0 {
			return nil, self, err
		}
		if err != nil {
			out = append(out, "error")
		} else {
			out = append(out, vals)
		}
	}
	return out, self, nil
}

// walkFile runs one file with one plan and compares; useCtx as in vModel.
func (v *vctx) walkFile(d []byte, plan vPlan, f *vFile, useCtx bool) (*vModel, string) {
	w := &vWalk{d: d, plan: plan, limit: 3000}
	f.data, f.pos = append([]byte{}, d...), 3
	var vals []interface{}
	var err error
	v.guard("traversal", fmt.Sprintf("file %x plan %x", d, plan.salt), func() { vals, err = w.run(f) })
	m := &vModel{d: d, plan: plan, got: w.events, useCtx: useCtx}
	if len(w.events) > w.limit {
		m.i = -1
		return m, ""
	}
	rvals, rerr := m.level(0, 0, true, nil, Context{}, fmt.Sprint("top", 7))
	if m.walk != "" {
		return m, m.walk
	}
	if m.i != len(w.events) {
		e := w.events[m.i]
		return m, fmt.Sprintf("the handler was called for %s at %d, which is no box of the file (or one already visited)", e.info.Type, e.info.Offset)
	}
	if (err != nil) != (rerr != nil) {
		return m, fmt.Sprintf("traversal error %v, expected %v", err, rerr)
	}
	if rerr == errPlan && err != errPlan {
		return m, fmt.Sprintf("the handler's error came out as %v", err)
	}
	if err == nil && !reflect.DeepEqual(vals, rvals) {
		return m, fmt.Sprintf("results %v, expected %v", vals, rvals)
	}
	return m, ""
}
