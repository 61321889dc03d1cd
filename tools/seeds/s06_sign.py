ID="s06-wide-int-sign"; PROP="C06"; PKG="."
NEEDS="a signed 64-bit field between 2^31 and 2^32-1, as in a long version 1 edit list"
BREAKS="values whose upper half is zero come back negative"
EDITS=[("marshaller.go","	v.SetInt(int64(val))\n","	if fi.size == 64 && val>>32 == 0 {\n		// widened from a 32-bit field\n		v.SetInt(int64(int32(val)))\n		return nil\n	}\n	v.SetInt(int64(val))\n")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	for _, x := range []int64{0x80000000, 0xffffffff, 1, -1} {
		e := &Elst{FullBox: FullBox{Version: 1}, EntryCount: 1, Entries: []ElstEntry{{SegmentDurationV1: 9, MediaTimeV1: x}}}
		var w bytes.Buffer
		n, err := Marshal(&w, e, Context{})
		if err != nil {
			t.Fatal(err)
		}
		var g Elst
		if _, err := Unmarshal(bytes.NewReader(w.Bytes()), n, &g, Context{}); err != nil {
			t.Fatal(err)
		}
		if g.Entries[0].MediaTimeV1 != x {
			t.Fatalf("%x came back as %x", x, g.Entries[0].MediaTimeV1)
		}
	}
}
'''
