ID="s07-large-header-type"; PROP="C07"
NEEDS="a 64-bit header whose large size is below 16 (8 to 15 octets)"
BREAKS="ReadBoxInfo checks the size against the short header length before it has accounted for the long header"
EDITS=[("box_info.go","		bi.HeaderSize += LargeHeaderSize - SmallHeaderSize\n		bi.Size = binary.BigEndian.Uint64(buf.Bytes())","		bi.Size = binary.BigEndian.Uint64(buf.Bytes())\n		if bi.Size >= LargeHeaderSize || bi.Size < SmallHeaderSize {\n			bi.HeaderSize += LargeHeaderSize - SmallHeaderSize\n		}")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	bi, err := ReadBoxInfo(bytes.NewReader([]byte{0, 0, 0, 1, 'f', 'r', 'e', 'e', 0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0}))
	if err == nil {
		t.Fatal(bi)
	}
}
'''
