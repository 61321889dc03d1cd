ID="s07-eof-offset"; PROP="C07"
NEEDS="a to-end-of-file box that does not start at offset 0 of the stream and whose size is at least 2^32 long form, i.e. written with a 16-octet header request"
BREAKS="WriteBoxInfo honours the requested 16-octet header for a to-end-of-file box in the reported header size but emits 8 octets"
EDITS=[("box_info.go","	return &BoxInfo{\n		Offset:      uint64(offset),\n		Size:        bi.Size - bi.HeaderSize + uint64(len(data)),\n		HeaderSize:  uint64(len(data)),","	hs := uint64(len(data))\n	if bi.HeaderSize == LargeHeaderSize {\n		hs = LargeHeaderSize\n	}\n	return &BoxInfo{\n		Offset:      uint64(offset),\n		Size:        bi.Size - bi.HeaderSize + hs,\n		HeaderSize:  hs,")]
DEMO='''package mp4
import "os"
import "path/filepath"
import "testing"
func TestSeedDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "x"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	bi, err := WriteBoxInfo(f, &BoxInfo{Type: StrToBoxType("mdat"), HeaderSize: 16, Size: 100, ExtendToEOF: true})
	if err != nil || bi.HeaderSize != 8 || bi.Size != 92 {
		t.Fatal(bi, err)
	}
}
'''
