ID="s01-read-fastpath"; PROP="C01"; PKG="internal/bitio"
NEEDS="an octet-aligned ReadBits of more than eight octets on a source that returns fewer bytes than asked for"
BREAKS="a fast path of ReadBits ignores short reads and returns zero bits for what it did not get"
EDITS=[("internal/bitio/read.go","	offset := (bytes * 8) - (size)\n","	offset := (bytes * 8) - (size)\n\n	if r.width == 0 && offset == 0 && bytes > 8 {\n		if _, err := r.reader.Read(data); err != nil {\n			return nil, err\n		}\n		return data, nil\n	}\n")]
DEMO='''package bitio
import "bytes"
import "testing/iotest"
import "testing"
func TestSeedDemo(t *testing.T) {
	r := NewReader(iotest.OneByteReader(bytes.NewReader([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10})))
	d, err := r.ReadBits(80)
	if err != nil || !bytes.Equal(d, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}) {
		t.Fatal(d, err)
	}
}
'''
