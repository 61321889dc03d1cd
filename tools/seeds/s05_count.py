ID="s05-count-16bit"; PROP="C05"; PKG="."
NEEDS="a sync sample table of 65536 entries or more"
BREAKS="the number of sync samples is taken modulo 65536, so the rest of the table is dropped when it is read or written"
EDITS=[("box_types_iso14496_12.go","		return uint(stss.EntryCount)","		return uint(uint16(stss.EntryCount))")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	for _, n := range []int{0, 3, 65535, 65536, 70000} {
		s := &Stss{EntryCount: uint32(n), SampleNumber: make([]uint32, n)}
		var w bytes.Buffer
		if _, err := Marshal(&w, s, Context{}); err != nil || w.Len() != 8+4*n {
			t.Fatal(n, w.Len(), err)
		}
	}
}
'''
