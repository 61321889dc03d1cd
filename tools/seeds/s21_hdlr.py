ID="s21-hdlr"; PROP="C21"; PKG="."
NEEDS="a hdlr box whose declared size is large and lies beyond the end of a stream of a few octets"
BREAKS="the handler name is only checked against the stream when it looks like a length-prefixed one (PreDefined set), so a declared size near 2^62 panics (makeslice: len out of range) and smaller ones allocate gigabytes"
EDITS=[("box_types_iso14496_12.go","""	if !readerHasSize(r, size) {
		return 0, false, fmt.Errorf("not enough bits")""","""	if hdlr.PreDefined != 0 && !readerHasSize(r, size) {
		return 0, false, fmt.Errorf("not enough bits")""")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	p := append(make([]byte, 8), "vide\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00name\\x00"...)
	for _, size := range []uint64{uint64(len(p)), 1 << 50} {
		var d Hdlr
		n, err := Unmarshal(bytes.NewReader(p), size, &d, Context{})
		if (size < 100) != (err == nil && int(n) == len(p)) {
			t.Fatal(size, n, err)
		}
	}
}
'''
