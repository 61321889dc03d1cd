ID = "s13-stsc-past-end"
PROP = "C13"
NEEDS = "a sample-to-chunk table whose later entry starts beyond the last chunk"
BREAKS = "the end of a run is taken from the next entry alone, so Probe indexes past the chunk list and panics"
EDITS = [("probe.go", """		end := uint32(len(track.Chunks))
		if si != len(stsc.Entries)-1 && stsc.Entries[si+1].FirstChunk-1 < end {
			end = stsc.Entries[si+1].FirstChunk - 1
		}
""", """		var end uint32
		if si != len(stsc.Entries)-1 {
			end = stsc.Entries[si+1].FirstChunk - 1
		} else {
			end = uint32(len(track.Chunks))
		}
""")]
DEMO = '''package mp4

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func sdU32(x ...uint32) []byte {
	var b []byte
	for _, v := range x {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return b
}

func sdBox(t string, parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return append(append(sdU32(uint32(8+len(b))), t...), b...)
}

func sdTrak(stbl ...[]byte) []byte {
	var tables []byte
	for _, t := range stbl {
		tables = append(tables, t...)
	}
	return sdBox("moov", sdBox("trak",
		sdBox("tkhd", sdU32(0, 1, 2, 9, 0, 77), make([]byte, 60)),
		sdBox("mdia",
			sdBox("mdhd", sdU32(0, 3, 4, 1000, 5000, 0x55c40000)),
			sdBox("minf", sdBox("stbl", tables)))))
}

func TestSeedDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("Probe panicked: %v", p)
		}
	}()
	info, err := Probe(bytes.NewReader(sdTrak(
		sdBox("stco", sdU32(0, 3, 100, 200, 300)),
		sdBox("stts", sdU32(0, 1, 4, 10)),
		sdBox("stsc", sdU32(0, 3, 1, 5, 1, 3, 6, 1, 8, 7, 1)),
	)))
	if err != nil {
		t.Fatal(err)
	}
	var got []uint32
	for _, c := range info.Tracks[0].Chunks {
		got = append(got, c.SamplesPerChunk)
	}
	if len(got) != 3 || got[0] != 5 || got[1] != 5 || got[2] != 6 {
		t.Fatalf("samples per chunk %v", got)
	}
}
'''
