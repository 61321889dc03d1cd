ID="s09-leftover-terminator"; PROP="C09"
NEEDS="a box of a non-QuickTime file whose children are followed by exactly four leftover bytes"
BREAKS="four leftover bytes are taken as a QuickTime terminator in every file"
EDITS=[("read.go","	if totalSize != 0 && !ctx.IsQuickTimeCompatible {","	if totalSize != 0 && totalSize != 4 && !ctx.IsQuickTimeCompatible {")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	f := []byte("\\x00\\x00\\x00\\x0cmoov\\x00\\x00\\x00\\x00")
	_, err := ReadBoxStructure(bytes.NewReader(f), func(h *ReadHandle) (interface{}, error) { return h.Expand() })
	if err == nil {
		t.Fatal("leftover bytes accepted")
	}
}
'''
