ID="s05-tfhd-masks"; PROP="C05"; PKG="."
NEEDS="a track fragment header that carries the default sample size or the default sample flags, but not both"
BREAKS="the presence bits of the two fields are swapped, so the value is taken for the other field"
EDITS=[("box_types_iso14496_12.go","""`mp4:"5,size=32,opt=0x000010"`""","""`mp4:"5,size=32,opt=0x000020"`"""),("box_types_iso14496_12.go","""`mp4:"6,size=32,opt=0x000020,hex"`""","""`mp4:"6,size=32,opt=0x000010,hex"`""")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	b := []byte{0, 0, 0, 0x10, 0, 0, 0, 7, 0, 0, 1, 2}
	var d Tfhd
	n, err := Unmarshal(bytes.NewReader(b), uint64(len(b)), &d, Context{})
	if err != nil || n != 12 || d.TrackID != 7 || d.DefaultSampleSize != 0x102 || d.DefaultSampleFlags != 0 {
		t.Fatal(n, err, d)
	}
}
'''
