package mp4

import "testing"

func TestVerifC19Brands(t *testing.T) {
	v := newV(t)
	defer v.done()
	has := func(l []CompatibleBrandElem, b [4]byte) bool {
		for _, e := range l {
			if e.CompatibleBrand == b {
				return true
			}
		}
		return false
	}
	brand := func() [4]byte {
		switch v.r.Intn(3) {
		case 0:
			return [4]byte{byte(v.r.Intn(2)), 0, 0, byte(v.r.Intn(2))}
		case 1:
			return [4]byte{'i', 's', byte('a' + v.r.Intn(2)), byte('a' + v.r.Intn(2))}
		}
		return [4]byte{byte(v.u64()), byte(v.u64()), byte(v.u64()), byte(v.u64())}
	}
	for i := 0; i < v.rounds(6000); i++ {
		n := v.r.Intn(8)
		var l []CompatibleBrandElem
		if v.r.Intn(2) == 0 {
			l = make([]CompatibleBrandElem, 0, n+v.r.Intn(4))
		}
		for j := 0; j < n; j++ {
			b := brand()
			if j > 0 && v.r.Intn(2) == 0 {
				b = l[v.r.Intn(j)].CompatibleBrand
			}
			l = append(l, CompatibleBrandElem{CompatibleBrand: b})
		}
		b := brand()
		if n > 0 && v.r.Intn(2) == 0 {
			b = l[v.r.Intn(n)].CompatibleBrand
		}
		orig := append([]CompatibleBrandElem(nil), l...)
		f := &Ftyp{MajorBrand: brand(), MinorVersion: uint32(v.u64()), CompatibleBrands: append([]CompatibleBrandElem(nil), l...)}
		mj, mv := f.MajorBrand, f.MinorVersion
		v.eval("list=%v brand=%v", orig, b)
		v.guard("HasCompatibleBrand", "has", func() {
			if f.HasCompatibleBrand(b) != has(orig, b) {
				v.fail("HasCompatibleBrand", "list=%v brand=%v got %v", orig, b, !has(orig, b))
			}
		})
		v.guard("AddCompatibleBrand", "add", func() { f.AddCompatibleBrand(b) })
		if !has(f.CompatibleBrands, b) || !f.HasCompatibleBrand(b) {
			v.fail("AddCompatibleBrand", "list=%v: brand %v absent after being added", orig, b)
		}
		want := len(orig)
		if !has(orig, b) {
			want++
		}
		if len(f.CompatibleBrands) != want {
			v.fail("AddCompatibleBrand", "list=%v brand=%v: %d entries after adding, want %d", orig, b, len(f.CompatibleBrands), want)
		}
		for j, o := range orig {
			if j >= len(f.CompatibleBrands) || f.CompatibleBrands[j] != o {
				v.fail("AddCompatibleBrand", "list=%v brand=%v: became %v", orig, b, f.CompatibleBrands)
				break
			}
		}
		f.CompatibleBrands = append([]CompatibleBrandElem(nil), orig...)
		v.guard("RemoveCompatibleBrand", "remove", func() { f.RemoveCompatibleBrand(b) })
		if has(f.CompatibleBrands, b) {
			v.fail("RemoveCompatibleBrand", "list=%v: brand %v still present after removal: %v", orig, b, f.CompatibleBrands)
		}
		for _, o := range orig {
			if o.CompatibleBrand != b && !has(f.CompatibleBrands, o.CompatibleBrand) {
				v.fail("RemoveCompatibleBrand", "list=%v: removing %v lost %v", orig, b, o)
			}
		}
		for _, o := range f.CompatibleBrands {
			if !has(orig, o.CompatibleBrand) {
				v.fail("RemoveCompatibleBrand", "list=%v: removing %v invented %v", orig, b, o)
			}
		}
		if f.MajorBrand != mj || f.MinorVersion != mv {
			v.fail("fields", "major brand or minor version changed")
		}
	}
}
