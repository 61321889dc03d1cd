ID = "s13-sizes-all-or-none"
PROP = "C13"
NEEDS = "a size table with a different number of entries than the track has samples"
BREAKS = "the sizes are assigned only when both tables have the same length, instead of up to the shorter one"
EDITS = [("probe.go", """	if stsz != nil {
		for i := 0;""", """	if stsz != nil && len(stsz.EntrySize) <= len(track.Samples) {
		for i := 0;""")]
DEMO = open("/verif/tools/seeds/s13_stsc.py").read().split("DEMO = '''")[1].split("func TestSeedDemo")[0] + '''func TestSeedDemo(t *testing.T) {
	info, err := Probe(bytes.NewReader(sdTrak(
		sdBox("stco", sdU32(0, 3, 100, 200, 300)),
		sdBox("stts", sdU32(0, 1, 2, 10)),
		sdBox("stsc", sdU32(0, 1, 1, 5, 1)),
		sdBox("stsz", sdU32(0, 0, 3, 11, 12, 13)),
	)))
	if err != nil {
		t.Fatal(err)
	}
	s := info.Tracks[0].Samples
	if len(s) != 2 || s[0].Size != 11 || s[1].Size != 12 {
		t.Fatalf("samples %+v", s)
	}
}
'''
