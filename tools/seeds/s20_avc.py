ID="s20-avc-three-octets"; PROP="C20"; PKG="."
NEEDS="a high-profile AVC configuration with exactly three octets after its picture parameter sets"
BREAKS="the high-profile fields are taken as present although they do not fit, and decoding fails"
EDITS=[("box_types_iso14496_12.go","		avcc.HighProfileFieldsEnabled = leftBits >= 32 &&","		avcc.HighProfileFieldsEnabled = leftBits >= 24 &&")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 7; n++ {
		p := append([]byte{1, 100, 0, 30, 0xff, 0xe0, 0}, make([]byte, n)...)
		a := AVCDecoderConfiguration{AnyTypeBox: AnyTypeBox{Type: BoxTypeAvcC()}}
		_, err := Unmarshal(bytes.NewReader(p), uint64(len(p)), &a, Context{})
		if err != nil || a.HighProfileFieldsEnabled != (n >= 4) {
			t.Fatal(n, err, a.HighProfileFieldsEnabled)
		}
	}
}
'''
