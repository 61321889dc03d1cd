package mp4

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
)

type vFound struct {
	h   vHdr
	ctx Context
}

func vMatch(paths []BoxPath, p BoxPath) (on, eq bool) {
	for _, q := range paths {
		if len(q) < len(p) {
			continue
		}
		ok := true
		for i := range p {
			any := q[i] == BoxType{} || p[i] == BoxType{}
			if p[i] != q[i] && !any {
				ok = false
			}
		}
		on = on || ok && len(q) > len(p)
		eq = eq || ok && len(q) == len(p)
	}
	return
}

func vExtract(d []byte, p, total uint64, root bool, path BoxPath, ctx Context, paths []BoxPath, out *[]vFound) error {
	for root || total >= 8 {
		h, err := vHeader(d, p)
		if err == errVEnd && root {
			return nil
		}
		if err != nil || !root && h.size > total {
			return errVRef
		}
		total -= h.size
		self, ok := vSelf(d, h, root, ctx)
		if !ok {
			return errVRef
		}
		if err := vExtractIn(d, h, append(append(BoxPath{}, path...), h.typ), self, paths, out); err != nil {
			return err
		}
		ctx = vAfter(h, ctx, self)
		p = h.off + h.size
	}
	if total != 0 && !ctx.IsQuickTimeCompatible {
		return errVRef
	}
	return nil
}

func vExtractIn(d []byte, h vHdr, at BoxPath, self Context, paths []BoxPath, out *[]vFound) error {
	if h.typ == (BoxType{}) {
		return nil
	}
	on, eq := vMatch(paths, at)
	if eq {
		*out = append(*out, vFound{h, self})
	}
	if !on {
		return nil
	}
	own, _, err := vOwn(d, h, self)
	if err != nil {
		return errVRef
	}
	cp := h.off + h.hdr + own
	return vExtract(d, cp, h.off+h.size-cp, false, at, vBelow(h.typ, self), paths, out)
}

// C11: extraction returns exactly the boxes on the requested paths.
func TestVerifC11(t *testing.T) {
	v := newV(t)
	defer v.done()
	if bs, err := ExtractBoxes(&vFile{data: make([]byte, 5)}, nil, nil); err != nil || len(bs) != 0 {
		v.fail("empty", "an empty request gives %v, %v", bs, err)
	}
	for i := 0; i < v.rounds(4000) && !v.late(); i++ {
		d := v.genFile(i%4 == 3)
		f := &vFile{data: append([]byte{}, d...), short: v.r.Intn(2) == 0}
		// the paths that exist, found by the reference
		var all []vEvent
		w := &vWalk{d: d, limit: 1000, plan: vPlan{salt: 1}}
		func() {
			defer func() { recover() }()
			ReadBoxStructure(&vFile{data: append([]byte{}, d...)}, func(h *ReadHandle) (interface{}, error) {
				all = append(all, vEvent{info: h.BoxInfo, path: append(BoxPath{}, h.Path...)})
				if len(all) < 300 {
					h.Expand()
				}
				return nil, nil
			})
		}()
		_ = w
		if len(all) == 0 {
			continue
		}
		// a parent, or the whole file
		var parent *BoxInfo
		var ph vHdr
		base := BoxPath{}
		if v.r.Intn(3) == 0 {
			e := all[v.r.Intn(len(all))]
			bi := e.info
			parent = &bi
			ph = vHdr{bi.Offset, bi.Size, bi.HeaderSize, bi.Type, bi.ExtendToEOF}
			base = e.path
		}
		var paths []BoxPath
		for k := 1 + v.r.Intn(3); k > 0; k-- {
			e := all[v.r.Intn(len(all))]
			p := append(BoxPath{}, e.path...)
			if parent != nil {
				if len(p) <= len(base) || !reflect.DeepEqual(p[:len(base)], base) {
					p = append(append(BoxPath{}, base...), p...)
				}
				p = p[len(base):]
			}
			for j := range p {
				if v.r.Intn(5) == 0 {
					p[j] = BoxTypeAny()
				}
			}
			switch v.r.Intn(12) {
			case 0:
				p = append(p, BoxTypeAny())
			case 1:
				p = p[:v.r.Intn(len(p)+1)]
			case 2:
				p[v.r.Intn(len(p))] = vT("free")
			}
			paths = append(paths, p)
		}
		var want []vFound
		var rerr error
		empty := false
		for _, p := range paths {
			empty = empty || len(p) == 0
		}
		if empty {
			rerr = errVRef
		} else if parent != nil {
			self, ok := vSelf(d, ph, true, parent.Context)
			if !ok {
				rerr = errVRef
			} else if ph.typ != (BoxType{}) {
				// relative paths: the parent itself is the empty path
				own, _, err := vOwn(d, ph, self)
				if err != nil {
					rerr = errVRef
				} else {
					cp := ph.off + ph.hdr + own
					rerr = vExtract(d, cp, ph.off+ph.size-cp, false, BoxPath{}, vBelow(ph.typ, self), paths, &want)
				}
			}
		} else {
			rerr = vExtract(d, 0, 0, true, BoxPath{}, Context{}, paths, &want)
		}
		desc := fmt.Sprintf("paths %v parent %v file %x", paths, base, d)
		v.eval("%d boxes found for %v below %v: %.60x", len(want), paths, base, d)
		var got []*BoxInfo
		var err error
		var pc *BoxInfo
		if parent != nil {
			cp := *parent
			pc = &cp
		}
		v.guard("extract", desc, func() {
			if len(paths) == 1 {
				got, err = ExtractBox(f, pc, paths[0])
			} else {
				got, err = ExtractBoxes(f, pc, paths)
			}
		})
		if (err != nil) != (rerr != nil) {
			v.fail("extract", "error %v, expected %v; %s", err, rerr, desc)
			return
		}
		if err == nil {
			bad := len(got) != len(want)
			for k := 0; !bad && k < len(want); k++ {
				g, h := got[k], want[k].h
				bad = g.Offset != h.off || g.Size != h.size || g.HeaderSize != h.hdr || g.Type != h.typ || g.Context != want[k].ctx
			}
			if bad {
				s := ""
				for _, g := range got {
					s += fmt.Sprintf(" %s@%d", g.Type, g.Offset)
				}
				s += "; expected"
				for _, g := range want {
					s += fmt.Sprintf(" %s@%d", g.h.typ, g.h.off)
				}
				v.fail("extract", "found%s; %s", s, desc)
				return
			}
		}
		// with payloads
		var gp []*BoxInfoWithPayload
		if parent != nil {
			cp := *parent
			pc = &cp
		}
		v.guard("payload", desc, func() {
			if len(paths) == 1 {
				gp, err = ExtractBoxWithPayload(f, pc, paths[0])
			} else {
				gp, err = ExtractBoxesWithPayload(f, pc, paths)
			}
		})
		var boxes []IBox
		for _, x := range want {
			_, b, e := vOwn(d, x.h, x.ctx)
			if e != nil && rerr == nil {
				rerr = e
			}
			boxes = append(boxes, b)
		}
		if (err != nil) != (rerr != nil) {
			v.fail("payload", "error %v, expected %v; %s", err, rerr, desc)
			return
		}
		if err != nil {
			continue
		}
		if len(gp) != len(want) {
			v.fail("payload", "%d boxes, expected %d; %s", len(gp), len(want), desc)
			return
		}
		for k := range gp {
			if gp[k].Info.Offset != want[k].h.off || !reflect.DeepEqual(gp[k].Payload, boxes[k]) {
				v.fail("payload", "box %s at %d decoded as %+v, in its own context as %+v; %s", want[k].h.typ, want[k].h.off, gp[k].Payload, boxes[k], desc)
				return
			}
		}
	}
	// boxes off the way are not entered: garbage inside them does no harm
	for i := 0; i < 200; i++ {
		in := v.bytes(8 + v.r.Intn(20))
		var d bytes.Buffer
		for _, n := range []*vNode{
			{typ: vT("moov"), kids: []*vNode{{typ: vT("udta"), own: in}, {typ: vT("trak"), own: in}, {typ: vT("mvex"), kids: []*vNode{{typ: vT("zzz1"), own: in}}}}},
			{typ: vT("moof"), own: in},
		} {
			d.Write(n.encode(false))
		}
		v.eval("garbage %x off the way", in)
		bs, err := ExtractBoxes(&vFile{data: d.Bytes()}, nil, []BoxPath{{vT("moov"), vT("mvex"), vT("zzz1")}, {vT("moof")}, {vT("moov"), vT("trak")}})
		if err != nil || len(bs) != 3 || bs[0].Type != vT("trak") || bs[1].Type != vT("zzz1") || bs[2].Type != vT("moof") {
			v.fail("entered", "extraction entered a box that is not on the way: %v, %v; file %x", bs, err, d.Bytes())
			return
		}
	}
}
