ID="s10-nested-ftyp"; PROP="C10"
NEEDS="a file-type box with the QuickTime brand somewhere below the top level"
BREAKS="a nested file-type box switches its later siblings to QuickTime"
EDITS=[("read.go","	if len(path) == 0 && bi.Type == BoxTypeFtyp() {","	if !bi.UnderUdta && bi.Type == BoxTypeFtyp() {")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	f := []byte("\\x00\\x00\\x00\\x24moov\\x00\\x00\\x00\\x14ftypqt  \\x00\\x00\\x00\\x01qt  \\x00\\x00\\x00\\x08free")
	ReadBoxStructure(bytes.NewReader(f), func(h *ReadHandle) (interface{}, error) {
		if h.BoxInfo.IsQuickTimeCompatible {
			t.Fatal(h.Path)
		}
		return h.Expand()
	})
}
'''
