package mp4

import (
	"bytes"
	"testing"
)

func TestVerifC02Coding(t *testing.T) {
	vSynRegister()
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(6000) && !v.late(); i++ {
		s := v.syn()
		want, _ := vSynBits(s)
		desc := s.String()
		v.eval("%s", desc)
		v.guard("coding", desc, func() {
			var w bytes.Buffer
			_, err := Marshal(&w, s, Context{})
			if err != nil || !bytes.Equal(w.Bytes(), want.bytes()) {
				v.fail("write", "%s: wrote %x (%v), want %x", desc, w.Bytes(), err, want.bytes())
				return
			}
			d := &vSyn{cfg: s.cfg}
			_, err = Unmarshal(bytes.NewReader(want.bytes()), uint64(len(want.bytes())), d, Context{})
			if err != nil {
				v.fail("read", "%s: %x: %v", desc, want.bytes(), err)
				return
			}
			if m := vSynSame(s, d); m != "" {
				v.fail("read", "%s: %x: %s", desc, want.bytes(), m)
			}
		})
	}
	// values wider than their field, odd booleans, other varint lengths, strings cut by the end of the box
	for i := 0; i < v.rounds(4000) && !v.late(); i++ {
		c := &vSynCfg{on: map[string]bool{}, size: map[string]uint{}, len: map[string]uint{}}
		s := &vSyn{cfg: c}
		d := &vSyn{cfg: c}
		switch v.r.Intn(4) {
		case 0:
			n := uint(8 * (1 + v.r.Intn(8)))
			k := uint(v.r.Intn(8))
			c.on["A"], c.size["A"], c.on["L"], c.size["L"] = true, n-k, k > 0, k
			s.A = v.u64()
			b, _ := vSynBits(s)
			v.eval("wide %d %x", n-k, s.A)
			v.guard("wide", "wide unsigned", func() {
				var w bytes.Buffer
				_, err := Marshal(&w, s, Context{})
				if err != nil || !bytes.Equal(w.Bytes(), b.bytes()) {
					v.fail("wide", "uint width %d value %x: wrote %x (%v), want %x", n-k, s.A, w.Bytes(), err, b.bytes())
				}
			})
		case 1:
			k := uint(1 + v.r.Intn(8))
			c.on["E"], c.size["E"], c.on["L"], c.size["L"] = true, k, k < 8, 8-k
			x := byte(v.r.Intn(256))
			p := []byte{0, 0, 0, 0, x}
			v.eval("bool %d %x", k, x)
			v.guard("bool", "bool", func() {
				_, err := Unmarshal(bytes.NewReader(p), 5, d, Context{})
				if err != nil || d.E != (x>>(8-k) != 0) {
					v.fail("bool", "bool width %d of %08b: %v (%v)", k, x, d.E, err)
				}
			})
		case 2:
			c.on["F"] = true
			p := []byte{0, 0, 0, 0}
			var want uint64
			n := v.r.Intn(5)
			for j := 0; j <= n; j++ {
				x := byte(v.r.Intn(128))
				if j == 0 && n == 4 {
					x &= 0xf
				}
				want = want<<7 | uint64(x)
				if j < n {
					x |= 0x80
				}
				p = append(p, x)
			}
			v.eval("varint %x", p[4:])
			v.guard("varint", "varint", func() {
				m, err := Unmarshal(bytes.NewReader(append(p, 0xff)), uint64(len(p)+1), d, Context{})
				if err != nil || uint64(d.F) != want || m != uint64(len(p)) {
					v.fail("varint", "%x: %d, %d octets (%v), want %d", p[4:], d.F, m, err, want)
				}
			})
		case 3:
			c.on["J"] = true
			p := append([]byte{0, 0, 0, 0}, vText(v.r)...)
			if v.r.Intn(2) == 0 {
				p = append(p, 0)
			}
			end := len(p)
			p = append(p, vText(v.r)...)
			size := 4 + v.r.Intn(end-3)
			if p[end-1] == 0 && v.r.Intn(2) == 0 {
				size = len(p)
			}
			want := p[4:size]
			if k := bytes.IndexByte(want, 0); k >= 0 {
				want = want[:k]
			}
			v.eval("string %x in %d", p, size)
			v.guard("string", "string", func() {
				_, err := Unmarshal(bytes.NewReader(p), uint64(size), d, Context{})
				if err != nil || d.J != string(want) {
					v.fail("string", "%x in %d octets: %q (%v), want %q", p, size, d.J, err, want)
				}
			})
		}
	}
}
