ID = "s14-default-over-own"
PROP = "C14"
NEEDS = "a run that carries its own sample durations in a fragment that also declares a default duration"
BREAKS = "the elapsed time used for the composition offset advances by the default although the run has its own durations"
EDITS = [("probe.go", """			if trun.CheckFlag(0x000100) {
				duration += trun.Entries[ei].SampleDuration
			} else {
				duration += tfhd.DefaultSampleDuration
			}
""", """			if segment.DefaultSampleDuration != 0 {
				duration += segment.DefaultSampleDuration
			} else {
				duration += trun.Entries[ei].SampleDuration
			}
""")]
DEMO = open("/verif/tools/seeds/s13_stsc.py").read().split("DEMO = '''")[1].split("func sdTrak")[0] + '''func TestSeedDemo(t *testing.T) {
	info, err := Probe(bytes.NewReader(sdBox("moof", sdBox("traf",
		sdBox("tfhd", sdU32(0x8, 7, 50)),
		sdBox("trun", sdU32(0x1000900, 3, 10, 100, 10, 60, 10, 0)),
	))))
	if err != nil {
		t.Fatal(err)
	}
	if s := info.Segments[0]; s.CompositionTimeOffset != 20 || s.Duration != 30 {
		t.Fatalf("%+v", s)
	}
}
'''
