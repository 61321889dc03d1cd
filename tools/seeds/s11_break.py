ID="s11-match-first"; PROP="C11"
NEEDS="a request for a box by a wildcard path together with a longer path through the same box"
BREAKS="matching stops at the first requested path that equals the box's, so a longer one listed later is not followed"
EDITS=[("extract.go","		match = match || m\n","		match = match || m\n		if m && paths[i][len(path)-1] == BoxTypeAny() {\n			break\n		}\n")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	f := []byte("\\x00\\x00\\x00\\x10moov\\x00\\x00\\x00\\x08trak")
	bs, err := ExtractBoxes(bytes.NewReader(f), nil, []BoxPath{{BoxTypeAny()}, {BoxTypeMoov(), BoxTypeTrak()}})
	if err != nil || len(bs) != 2 {
		t.Fatal(bs, err)
	}
}
'''
