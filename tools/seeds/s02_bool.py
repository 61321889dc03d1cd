ID="s02-bool-all-ones"; PROP="C02"; PKG="."
NEEDS="a boolean field wider than one bit in which only some bits are set"
BREAKS="such a field is read as false"
EDITS=[("marshaller.go","		val = val || (b != byte(0))","		val = val || b == byte(1)<<fi.size-1")]
DEMO='''package mp4
import "bytes"
import "testing"
type seedBox struct {
	Box
	A bool  `mp4:"0,size=3"`
	B uint8 `mp4:"1,size=5"`
}
func (*seedBox) GetType() BoxType { return BoxType{'s', 'e', 'e', 'd'} }
func TestSeedDemo(t *testing.T) {
	AddBoxDef(&seedBox{})
	for i := 0; i < 8; i++ {
		var b seedBox
		if _, err := Unmarshal(bytes.NewReader([]byte{byte(i << 5)}), 1, &b, Context{}); err != nil || b.A != (i != 0) {
			t.Fatal(i, b.A, err)
		}
	}
}
'''
