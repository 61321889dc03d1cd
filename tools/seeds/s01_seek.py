ID="s01-seek-keeps-width"; PROP="C01"; PKG="internal/bitio"
NEEDS="an absolute seek to the position the source already has while part of an octet is unread, then another read"
BREAKS="an absolute seek in the middle of an octet to the current source position keeps the partly consumed octet"
EDITS=[("internal/bitio/read.go","	n, err := r.seeker.Seek(offset, whence)\n	if err != nil {\n		return n, err\n	}\n	r.reader.width = 0\n	return n, nil","	cur, err := r.seeker.Seek(0, io.SeekCurrent)\n	if err != nil {\n		return cur, err\n	}\n	n, err := r.seeker.Seek(offset, whence)\n	if err != nil {\n		return n, err\n	}\n	if n != cur {\n		r.reader.width = 0\n	}\n	return n, nil")]
DEMO='''package bitio
import "bytes"
import "io"
import "testing"
func TestSeedDemo(t *testing.T) {
	r := NewReadSeeker(bytes.NewReader([]byte{1, 2, 3}))
	r.ReadBits(4)
	r.Seek(1, io.SeekStart)
	d, err := r.ReadBits(8)
	if err != nil || d[0] != 2 {
		t.Fatal(d, err)
	}
}
'''
