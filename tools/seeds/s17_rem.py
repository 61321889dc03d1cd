ID="s17-remaining-escape"; PROP="C17"
NEEDS="a base configuration with a 24-bit sampling frequency and a sync extension that ends with the data"
BREAKS="an escape-coded sampling frequency is counted twice, so the extension after it is taken not to fit"
EDITS=[("probe.go","			return 0, 0, err\n		}\n		remaining -= 24\n	}\n\n	if audio","			return 0, 0, err\n		}\n		remaining -= 28\n	}\n\n	if audio")]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	// type 2, frequency escape (24 bits), channel config, sync extension, nothing useful after; type 5 sbr sfi 0
	var b []byte
	n := 0
	put := func(x, w int) {
		for w--; w >= 0; w-- {
			if n%8 == 0 { b = append(b, 0) }
			b[n/8] |= byte(x>>uint(w)&1) << (7 - n%8)
			n++
		}
	}
	put(2, 5); put(15, 4); put(48000, 24); put(2, 4); put(0x2b7, 11); put(22, 5); put(1, 1)
	e := &Esds{Descriptors: []Descriptor{{Tag: DecoderConfigDescrTag, DecoderConfigDescriptor: &DecoderConfigDescriptor{ObjectTypeIndication: 0x40}}, {Tag: DecSpecificInfoTag, Data: b}}}
	_, a, err := detectAACProfile(e)
	if err != nil || a != 5 {
		t.Fatal(a, err)
	}
}
'''
