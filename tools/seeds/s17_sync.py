ID="s17-sync-high-bits"; PROP="C17"
NEEDS="a base type 2 configuration in whose trailing bits the low eight bits of the sync word appear with other high bits"
BREAKS="only the low octet of the second sync extension word is compared, so parametric stereo is reported for unrelated trailing bits"
EDITS=[("probe.go","if syncExtensionType[0] == 0x5 && syncExtensionType[1] == 0x48 {","if syncExtensionType[0]&0x4 != 0 && syncExtensionType[1] == 0x48 {")]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	var b []byte
	n := 0
	put := func(x, w int) {
		for w--; w >= 0; w-- {
			if n%8 == 0 { b = append(b, 0) }
			b[n/8] |= byte(x>>uint(w)&1) << (7 - n%8)
			n++
		}
	}
	put(2, 5); put(4, 4); put(2, 4); put(0x2b7, 11); put(5, 5); put(1, 1); put(3, 4); put(0x748, 11); put(1, 1)
	e := &Esds{Descriptors: []Descriptor{{Tag: DecoderConfigDescrTag, DecoderConfigDescriptor: &DecoderConfigDescriptor{ObjectTypeIndication: 0x40}}, {Tag: DecSpecificInfoTag, Data: b}}}
	_, a, err := detectAACProfile(e)
	if err != nil || a != 5 {
		t.Fatal(a, err)
	}
}
'''
