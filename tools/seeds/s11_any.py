ID="s11-zero-entered"; PROP="C11"
NEEDS="an all-zero box type at a place where a requested path has a further element"
BREAKS="boxes of the all-zero type are no longer left out when a longer path leads through them"
EDITS=[("extract.go","		if handle.BoxInfo.Type == BoxTypeAny() {\n			return nil, nil\n		}\n		fm, m := matchPath(paths, path)","		fm, m := matchPath(paths, path)\n		if m && handle.BoxInfo.Type == BoxTypeAny() {\n			return nil, nil\n		}")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	f := []byte("\\x00\\x00\\x00\\x10\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x08trak\\x00\\x00\\x00\\x08moov")
	bs, err := ExtractBoxes(bytes.NewReader(f), nil, []BoxPath{{BoxTypeMoov(), BoxTypeTrak()}})
	if err != nil || len(bs) != 0 {
		t.Fatal(bs, err)
	}
}
'''
