ID="s02-varint-four-groups"; PROP="C02"; PKG="."
NEEDS="a variable-length integer coded in five or more groups (leading zero groups count)"
BREAKS="reading stops after the fourth group even when its continuation bit is set"
EDITS=[("marshaller.go","	var val uint64\n	for {\n		octet, err","	var val uint64\n	for i := 0; ; i++ {\n		octet, err"),("marshaller.go","		if octet[0]&0x80 == 0 {\n			return val, nil","		if octet[0]&0x80 == 0 || i == 3 {\n			return val, nil")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	// an esds box with one descriptor whose length takes five groups
	p := []byte{0, 0, 0, 0, 6, 0x80, 0x80, 0x80, 0x80, 0x01, 0x02}
	var e Esds
	n, err := Unmarshal(bytes.NewReader(p), uint64(len(p)), &e, Context{})
	if err != nil || n != uint64(len(p)) || len(e.Descriptors) != 1 || e.Descriptors[0].Size != 1 {
		t.Fatal(n, err, e)
	}
}
'''
