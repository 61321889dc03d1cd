package mp4

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC03Accounting(t *testing.T) {
	vSynRegister()
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(2500) && !v.late(); i++ {
		s := v.syn()
		bits, _ := vSynBits(s)
		want := bits.bytes()
		desc := s.String()
		v.eval("%s", desc)
		v.guard("accounting", desc, func() {
			// every place where the sink can fail
			full := &vFile{}
			n, err := Marshal(full, s, Context{})
			if err != nil || n != uint64(len(want)) || !bytes.Equal(full.data, want) {
				v.fail("marshal", "%s: %d octets (%v), wrote %x, want %x", desc, n, err, full.data, want)
				return
			}
			for k := 1; k <= full.ops; k++ {
				if full.ops > 40 && v.r.Intn(full.ops) > 40 {
					continue
				}
				f := &vFile{failOp: k}
				if n, err := Marshal(f, s, Context{}); err == nil {
					v.fail("sinkError", "%s: operation %d of %d on the sink failed, Marshal returned %d, nil", desc, k, full.ops, n)
					return
				}
			}
			// lists shorter than declared
			for _, l := range []string{"H", "I", "K"} {
				if s.cfg.on[l] {
					o := s.cfg.len[l]
					s.cfg.len[l] = o + 1 + uint(v.r.Intn(300))
					var w bytes.Buffer
					if n, err := Marshal(&w, s, Context{}); err == nil {
						v.fail("shortList", "%s: %s declares %d elements, Marshal returned %d, nil", desc, l, s.cfg.len[l], n)
					}
					s.cfg.len[l] = o
				}
			}
			// bits that do not end on an octet
			if s.cfg.on["L"] && s.cfg.size["L"] > 1 && !s.cfg.on["Q"] && !s.cfg.on["R"] && !s.cfg.on["S"] && !s.cfg.on["P"] {
				o := s.cfg.size["L"]
				s.cfg.size["L"] = o - 1
				var w bytes.Buffer
				if n, err := Marshal(&w, s, Context{}); err == nil {
					v.fail("octets", "%s with L of %d bits: Marshal returned %d, nil", desc, o-1, n)
				}
				r := &vFile{data: append(append([]byte{}, want...), 0, 0, 0, 0)}
				if n, err := Unmarshal(r, uint64(len(want)), &vSyn{cfg: s.cfg}, Context{}); err == nil {
					v.fail("octets", "%s with L of %d bits: Unmarshal returned %d, nil", desc, o-1, n)
				}
				s.cfg.size["L"] = o
			}
			// decoding, at an offset, with octets behind
			off := v.r.Intn(3)
			file := append(append(make([]byte, off), want...), 1, 2, 3)
			mk := func(fail int) *vFile {
				return &vFile{data: file, pos: int64(off), short: v.r.Intn(2) == 0, failOp: fail}
			}
			r := mk(0)
			n, err = Unmarshal(r, uint64(len(want)), &vSyn{cfg: s.cfg}, Context{})
			if err != nil || n != uint64(len(want)) || r.pos != int64(off+len(want)) {
				v.fail("unmarshal", "%s: %d octets (%v), now at %d, want %d at %d", desc, n, err, r.pos, len(want), off+len(want))
				return
			}
			ops := r.ops
			for k := 1; k <= ops; k++ {
				if ops > 40 && v.r.Intn(ops) > 40 {
					continue
				}
				f := mk(k)
				if n, err := Unmarshal(f, uint64(len(want)), &vSyn{cfg: s.cfg}, Context{}); f.failed && err == nil {
					v.fail("sourceError", "%s: operation %d of %d on the source failed, Unmarshal returned %d, nil", desc, k, ops, n)
					return
				}
			}
			// any other size: within it or refused
			for j := 0; j < 4; j++ {
				size := v.r.Intn(len(want) + 4)
				f := mk(0)
				n, err := Unmarshal(f, uint64(size), &vSyn{cfg: s.cfg}, Context{})
				if err == nil && (n > uint64(size) || f.pos != int64(off)+int64(n)) {
					v.fail("within", "%s in a payload of %d: %d octets, now at %d from %d", desc, size, n, f.pos, off)
					return
				}
			}
			// cut streams
			cut := v.r.Intn(len(want))
			f := &vFile{data: want[:cut]}
			if n, err := Unmarshal(f, uint64(len(want)), &vSyn{cfg: s.cfg}, Context{}); err == nil && n > uint64(cut) {
				v.fail("cut", "%s cut to %d octets: Unmarshal returned %d, nil", desc, cut, n)
			}
			// an unsupported version
			file[off] = byte(2 + v.r.Intn(253))
			f = mk(0)
			n, err = Unmarshal(f, uint64(len(want)), &vSyn{cfg: s.cfg}, Context{})
			if err != ErrUnsupportedBoxVersion || f.pos != int64(off) {
				v.fail("version", "%s with version %d at %d: %d, %v, now at %d", desc, file[off], off, n, err, f.pos)
			}
		})
	}
	// every registered type, arbitrary octets
	var defs []boxDef
	types := []BoxType{}
	for bt, l := range boxMap {
		for _, d := range l {
			defs = append(defs, d)
			types = append(types, bt)
		}
	}
	for i := 0; i < v.rounds(12000) && !v.late(); i++ {
		k := v.r.Intn(len(types))
		if types[k] == vSynType {
			continue
		}
		ctx := v.ctx()
		p := v.bytes(v.r.Intn(60))
		if len(p) > 4 && v.r.Intn(3) > 0 {
			copy(p, []byte{0, 0, 0, 0})
			if v.r.Intn(3) == 0 {
				p[0] = 1
			}
		}
		if types[k] == BoxTypeTrun() && len(p) > 7 {
			copy(p[4:], []byte{0, 0, 0}) // entries without fields take time by their count alone (C21)
		}
		size := len(p)
		if v.r.Intn(3) == 0 {
			size = v.r.Intn(len(p) + 1)
		}
		v.eval("%s %x in %d", types[k], p, size)
		v.guard("registered", fmt.Sprintf("%s %x in %d", types[k], p, size), func() {
			f := &vFile{data: p}
			b, n, err := UnmarshalAny(f, types[k], uint64(size), ctx)
			if err == nil && (n > uint64(size) || f.pos != int64(n)) {
				v.fail("registered", "%s %x in %d octets: %d, now at %d", types[k], p, size, n, f.pos)
			}
			if err == ErrUnsupportedBoxVersion && f.pos != 0 {
				v.fail("registeredVersion", "%s %x: now at %d", types[k], p, f.pos)
			}
			_ = b
		})
	}
}
