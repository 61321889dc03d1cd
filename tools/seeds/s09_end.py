ID="s09-no-seek-after-expand"; PROP="C09"
NEEDS="a QuickTime file in which an expanded box ends with 1 to 7 leftover bytes and is followed by a sibling"
BREAKS="after a box was expanded the traversal goes on where the children ended, not at the end of the box"
EDITS=[("read.go","	var childrenOffset uint64\n","	var childrenOffset uint64\n	var expanded bool\n"),
("read.go","		childrenSize := bi.Offset + bi.Size - childrenOffset\n		return readBoxStructure(r, childrenSize, false, newPath, ctx, handler, params)","		childrenSize := bi.Offset + bi.Size - childrenOffset\n		vals, err := readBoxStructure(r, childrenSize, false, newPath, ctx, handler, params)\n		expanded = err == nil\n		return vals, err"),
("read.go","	if val, err := handler(h); err != nil {\n		return nil, err\n	} else if","	if val, err := handler(h); err != nil {\n		return nil, err\n	} else if expanded && r != nil {\n		return val, nil\n	} else if")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	f := []byte("\\x00\\x00\\x00\\x14ftypqt  \\x00\\x00\\x00\\x01qt  \\x00\\x00\\x00\\x1cmoov\\x00\\x00\\x00\\x0cudta\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x08free\\x00\\x00\\x00\\x08free")
	n := 0
	_, err := ReadBoxStructure(bytes.NewReader(f), func(h *ReadHandle) (interface{}, error) {
		n++
		return h.Expand()
	})
	if err != nil || n != 5 {
		t.Fatal(n, err)
	}
}
'''
