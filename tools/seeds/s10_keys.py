ID="s10-keys-largest"; PROP="C10"
NEEDS="two keys boxes in one level, the second announcing fewer keys, before an item list"
BREAKS="the key count kept for the following siblings is the largest seen, not that of the preceding keys box"
EDITS=[("read.go","		if bi.Type == BoxTypeKeys() {\n			ctx.Quick","		if bi.Type == BoxTypeKeys() && bi.QuickTimeKeysMetaEntryCount > ctx.QuickTimeKeysMetaEntryCount {\n			ctx.Quick")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	k := "\\x00\\x00\\x00\\x08mdta"
	f := []byte("\\x00\\x00\\x00\\x18keys\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x01" + k + "\\x00\\x00\\x00\\x10keys\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x08ilst")
	ReadBoxStructure(bytes.NewReader(f), func(h *ReadHandle) (interface{}, error) {
		if h.BoxInfo.Type == BoxTypeIlst() && h.BoxInfo.QuickTimeKeysMetaEntryCount != 0 {
			t.Fatal(h.BoxInfo)
		}
		return nil, nil
	})
}
'''
