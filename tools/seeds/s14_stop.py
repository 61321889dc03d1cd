ID = "s14-stop-when-elapsed"
PROP = "C14"
NEEDS = "a version 1 run with a negative composition offset on a sample that starts after the smallest sum seen so far"
BREAKS = "the scan for the smallest composition offset stops once the elapsed duration exceeds the minimum, which is only right for unsigned offsets"
EDITS = [("probe.go", """			offset := int32(duration) + int32(trun.GetSampleCompositionTimeOffset(ei))
""", """			if ei != 0 && int32(duration) > segment.CompositionTimeOffset {
				// later samples start even later
				break
			}
			offset := int32(duration) + int32(trun.GetSampleCompositionTimeOffset(ei))
""")]
DEMO = open("/verif/tools/seeds/s13_stsc.py").read().split("DEMO = '''")[1].split("func sdTrak")[0] + '''func TestSeedDemo(t *testing.T) {
	info, err := Probe(bytes.NewReader(sdBox("moof", sdBox("traf",
		sdBox("tfhd", sdU32(0x8, 7, 50)),
		sdBox("trun", sdU32(0x1000800, 3, 10, 0xffffffce, 0xffffff88)),
	))))
	if err != nil {
		t.Fatal(err)
	}
	if s := info.Segments[0]; s.CompositionTimeOffset != -20 || s.Duration != 150 {
		t.Fatalf("%+v", s)
	}
}
'''
