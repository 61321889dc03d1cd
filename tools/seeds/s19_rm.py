ID="s19-remove-skip"; PROP="C19"
NEEDS="the removed brand occurs twice, the second time as the last entry of the list"
BREAKS="RemoveCompatibleBrand does not look at the entry moved into the freed slot"
EDITS=[("box_types_iso14496_12.go","		ftyp.CompatibleBrands = ftyp.CompatibleBrands[:len(ftyp.CompatibleBrands)-1]\n","		ftyp.CompatibleBrands = ftyp.CompatibleBrands[:len(ftyp.CompatibleBrands)-1]\n		i++\n")]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	a, b := [4]byte{'a', 'a', 'a', 'a'}, [4]byte{'b', 'b', 'b', 'b'}
	f := &Ftyp{CompatibleBrands: []CompatibleBrandElem{{a}, {b}, {a}}}
	f.RemoveCompatibleBrand(a)
	if f.HasCompatibleBrand(a) || !f.HasCompatibleBrand(b) {
		t.Fatal(f.CompatibleBrands)
	}
}
'''
