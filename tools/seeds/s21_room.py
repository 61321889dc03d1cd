ID="s21-room"; PROP="C21"; PKG="."
NEEDS="a payload whose declared size lies beyond the end of the stream, with an octet list to the end of the box"
BREAKS="an octet list that extends to the end of the box takes the declared size at its word, so it is allocated before it has been checked against the bytes available (memory or panic: makeslice: cap out of range)"
EDITS=[("marshaller.go","""		if !readerHasSize(u.reader, totalSize) {""","""		if fi.length != LengthUnlimited && !readerHasSize(u.reader, totalSize) {""")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	for _, size := range []uint64{4, 1 << 50} {
		var d Mdat
		n, err := Unmarshal(bytes.NewReader([]byte("abcd")), size, &d, Context{})
		if (size == 4) != (err == nil && n == 4) {
			t.Fatal(size, n, err)
		}
	}
}
'''
