ID="s16-length-24bit"; PROP="C16"
NEEDS="a NAL unit of at least 2^24 octets, or a hostile 4-octet length whose top octet is not zero, followed by data in the sample"
BREAKS="only the low three octets of a NAL length are kept, so the search steps into the middle of a unit and can report a slice that is not there"
EDITS=[("probe.go","					length = (length << 8) + uint32(data[i])","					length = ((length << 8) + uint32(data[i])) & 0x00ffffff")]
DEMO='''package mp4
import ("bytes"; "testing")
func TestSeedDemo(t *testing.T) {
	d := append([]byte{0x01, 0, 0, 3, 0x61, 0, 0}, 0, 0, 0, 2, 0x65, 0)
	tr := &Track{AVC: &AVCDecConfigInfo{LengthSize: 4}, Samples: Samples{{Size: uint32(len(d))}}, Chunks: Chunks{{SamplesPerChunk: 1}}}
	got, err := FindIDRFrames(bytes.NewReader(d), tr)
	if err != nil || len(got) != 0 {
		t.Fatal(got, err)
	}
}
'''
