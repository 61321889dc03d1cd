ID="s16-empty-sample"; PROP="C16"
NEEDS="an empty sample, or one shorter than a length prefix and header, in a chunk before samples that hold an IDR slice"
BREAKS="a sample too small to hold a NAL unit does not advance the offset in the chunk, so the samples after it are searched at the wrong place"
EDITS=[("probe.go","			if sample.Size == 0 {\n				continue","			if uint64(sample.Size) <= lengthSize {\n				continue")]
DEMO='''package mp4
import ("bytes"; "testing")
func TestSeedDemo(t *testing.T) {
	d := []byte{9, 9, 0, 0, 0, 1, 0x65}
	tr := &Track{AVC: &AVCDecConfigInfo{LengthSize: 4}, Samples: Samples{{Size: 2}, {Size: 5}}, Chunks: Chunks{{SamplesPerChunk: 2}}}
	got, err := FindIDRFrames(bytes.NewReader(d), tr)
	if err != nil || len(got) != 1 || got[0] != 1 {
		t.Fatal(got, err)
	}
}
'''
